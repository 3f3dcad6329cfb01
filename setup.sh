#!/bin/bash
# Builds the harness once (checks build it again from /repo's current tree).
cd "$(dirname "$0")" || exit 1
. ./env.sh
for m in shut shl; do
  [ -d harness/$m/cmd ] || continue
  d=$(mktemp -d)
  cp -r harness/$m "$d/" &&
    { [ $m != shl ] || python3 -B -c "import sys; sys.path.insert(0, 'lib'); import vlib; vlib.with_tree_shlib('$d/shl')"; } &&
    (cd "$d/$m" && go build -o "$d/bin/" ./cmd/...) || { rm -rf "$d"; exit 1; }
  rm -rf "$d"
done
echo setup ok
