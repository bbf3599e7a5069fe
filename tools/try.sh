#!/bin/bash
# try.sh PATCH CXX...: the checks' verdicts on a scratch copy of /repo with the patch applied (development aid)
set -e
P=$(readlink -f "$1"); shift
W=$(mktemp -d /tmp/try-XXXXXX); cp -a /repo "$W/repo"; cd "$W/repo"
if [ "$P" != /dev/null ]; then git apply ${REV:+-R} "$P"; fi
for c in "$@"; do VP_REPO=$W/repo timeout 880 python3 /verif/tools/check.py $c ${TIER:-quick} 2>&1 | grep -E "VIOLATION|^  |NOTE|^C[0-9]+ " || true; done
cd /; rm -rf "$W"
