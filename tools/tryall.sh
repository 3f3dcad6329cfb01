#!/bin/bash
# tools/tryall.sh [SEED...]: runs the check of each seeded bug's property against it (WORKERS at a time)
cd /verif
one() {
  p=$(python3 -c "import json;print(json.load(open('seeded/$1/meta.json'))['property'])")
  echo "== $1: $(LINES_MAX=1 tools/try.sh seeded/$1/patch.diff $p | tr '\n' ' ')"
}
export -f one
printf '%s\n' ${*:-$(ls seeded)} | xargs -P ${WORKERS:-2} -I{} bash -c 'one {}'
