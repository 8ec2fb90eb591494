#!/bin/bash
# plant.sh BUG PROP PKGDIR "needs" "what it breaks": turns the edits in the scratch copy /tmp/wt into
# /verif/seeded/BUG and confirms it: builds, stable tests pass, the demo passes without and fails with it,
# and tells whether PROP's check catches it.  The demo is /verif/seeded/BUG/demo_test.go, a test TestDemo
# that goes into PKGDIR through an overlay (RACE=1 adds -race).
set -u
BUG=$1 PROP=$2 PKG=$3 NEEDS=$4 BREAKS=$5
D=/verif/seeded/$BUG W=/tmp/wt
cd $W || exit 1
mkdir -p $D; git diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no edit in $W"; exit 1; }
if [ ! -f $D/demo.sh ] || [ -f $D/demo_test.go ]; then
RACEFLAG=; [ -n "${RACE:-}" ] && RACEFLAG=-race
cat > $D/demo.sh <<EOT
#!/bin/bash
# Puts demo_test.go into $PKG of the current tree through an overlay and runs it.
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:\$PATH
export HOME=\${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
echo "{\"Replace\":{\"\$PWD/$PKG/zz_demo_test.go\":\"\$D/demo_test.go\"}}" > "\$T/overlay.json"
timeout 200 go test $RACEFLAG -vet=off -count=1 -timeout 150s -overlay "\$T/overlay.json" -run '^TestDemo\$' ./$PKG > "\$T/out" 2>&1
rc=\$?
tail -c 3000 "\$T/out"
exit \$rc
EOT
fi
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$BREAKS" <<'EOT'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],'w'),indent=1)
EOT
export GOFLAGS=-mod=mod GOPROXY=off
go build ./... || { echo NOBUILD; exit 1; }
(bash $D/demo.sh) > /tmp/plant.bad 2>&1; rcbad=$?
git stash -q; (bash $D/demo.sh) > /tmp/plant.good 2>&1; rcgood=$?
git stash pop -q
echo "demo: clean rc=$rcgood, planted rc=$rcbad"
[ $rcgood = 0 ] || { tail -20 /tmp/plant.good; }
[ $rcbad != 0 ] || { tail -20 /tmp/plant.bad; }
# stable tests: run in place of /repo, then undo
cd /repo && [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
git apply $D/patch.diff || exit 1
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 - <<'EOT'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant.json'))
def passed(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
miss=passed(b)-passed(o)
print("stable tests: %d/%d pass"%(len(passed(b))-len(miss),len(passed(b))), sorted(miss)[:5])
EOT
t0=$(date +%s)
(cd /verif && bash check.sh $PROP) > /tmp/plant.check 2>&1; rc=$?
echo "check $PROP rc=$rc in $(( $(date +%s)-t0 ))s: $(grep -m1 VIOLATION /tmp/plant.check)"
git -C /repo checkout -q -- .
