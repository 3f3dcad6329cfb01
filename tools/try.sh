#!/bin/bash
# tools/try.sh PATCH ID... : runs the given checks against a copy of /repo with PATCH applied, in a
# mount namespace of its own where the copies stand in for /repo and /verif
P=$(readlink -f "$1"); shift
T=$(mktemp -d /tmp/try.XXXXXX); trap 'rm -rf "$T"' EXIT
git clone -q /repo $T/repo && git -C $T/repo apply "$P" || exit 9
mkdir -p $T/verif/evidence $T/tmp; cd /verif && cp -a env.sh check.py lib spec harness properties.jsonl known_findings.txt MANIFEST.json $T/verif/
for i in "$@"; do
  unshare -Urm bash -c "mount --bind $T/repo /repo; mount --bind $T/verif /verif; cd /verif; exec timeout 900 python3 check.py $i quick" > $T/log 2>&1
  echo "$i exit $?"; grep -a "violation:\|BROKEN\|^VIOL" $T/log | cut -c1-300 | head -${LINES_MAX:-4}
done
