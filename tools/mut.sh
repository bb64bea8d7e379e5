#!/bin/bash
# usage: mut.sh PID[,PID] < edits -- runs checks on edits of a scratch copy.
# Each line: file<TAB>old<TAB>new (python escapes allowed).
M=/tmp/mutrepo
mkdir -p $M/_build
for d in include lib tools config; do rsync -a --delete /repo/$d $M/; done
rsync -a /repo/_build/include /repo/_build/without_schema_validator $M/_build/ 2>/dev/null
[ -f /tmp/prefix.py ] && python3 /tmp/prefix.py $M
cd "$(dirname "$0")/.." || exit 2
export PSA_REPO=$M PSA_CACHE=/tmp/mutcache PSA_EVID=/tmp/mutevid
mkdir -p $PSA_CACHE $PSA_EVID
python3 tools/mut.py "$1"
