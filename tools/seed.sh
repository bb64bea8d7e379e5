#!/bin/bash
# usage: seed.sh ID...   confirm planted bugs seeded/ID in a scratch copy that
# is bind-mounted over /repo inside a user namespace. The real /repo is not
# touched. Prints one line per bug.
S=/tmp/seedrepo
mkdir -p $S
rsync -a --delete /repo/ $S/
cat > /tmp/seed_inner.sh <<'I'
mount --bind /tmp/seedrepo /repo || exit 9
cd /repo && git checkout -q -- . && bash /opt/vp/build.sh > /tmp/seed_build.log 2>&1 || { echo "clean build failed"; exit 1; }
run() { timeout 300 bash /verif/seeded/$1/demo.sh > /tmp/seed_$1.log 2>&1; echo $?; }
for i in "$@"; do eval "C_${i//[^A-Za-z0-9]/_}=$(run $i)"; done
for i in "$@"; do
  v="C_${i//[^A-Za-z0-9]/_}"; c="${!v}"
  git apply /verif/seeded/$i/patch.diff || { echo "SEED $i patch does not apply"; continue; }
  if bash /opt/vp/test.sh /tmp/seed_t.json > /tmp/seed_build.log 2>&1; then
    m=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];t=set(json.load(open('/tmp/seed_t.json'))['passed'])
x=[k for k in b if k not in t]
print(len(x), ' '.join(x[:3]))
P
)
    d=$(run $i)
    echo "SEED $i clean=$c patched=$d missing_tests=$m"
  else echo "SEED $i does not build"; tail -5 /tmp/seed_build.log; fi
  git checkout -q -- .
done
I
unshare -Urm bash /tmp/seed_inner.sh "$@"
