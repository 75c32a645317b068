#!/bin/bash
# Makes or verifies a planted bug: seed.sh ID. Needs seeded/ID/{patch.diff,meta.json} and seeded/ID/check.py,
# inlines the helpers into seeded/ID/demo.py, and checks in a scratch copy that the patch applies, builds,
# passes the stable tests, and that the demonstration tells the two trees apart.
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/seedck.$$
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOPATH=/root/go GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod
if [ -f "$D/check.py" ]; then
  cat /verif/tools/seedlib.py <(echo) "$D/check.py" > "$D/demo.py"
  printf '#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n' > "$D/demo.sh"; chmod +x "$D/demo.sh"
fi
rm -rf "$W"; cp -a /repo "$W"; cd "$W" || exit 2
git checkout -q -- . 
ok=1
bash "$D/demo.sh" > "$W.clean" 2>&1; a=$?
[ $a = 0 ] || { echo "$ID: demo fails on clean tree ($a): $(tail -3 $W.clean)"; ok=0; }
git apply "$D/patch.diff" || { echo "$ID: patch does not apply"; ok=0; }
go build -buildvcs=false ./... || { echo "$ID: does not build"; ok=0; }
go test -vet=off -count=1 ./... > "$W.test" 2>&1 || { echo "$ID: tests fail: $(grep -m3 FAIL $W.test)"; ok=0; }
bash "$D/demo.sh" > "$W.dirty" 2>&1; b=$?
[ $b != 0 ] || { echo "$ID: demo passes with the patch"; ok=0; }
echo "$ID: clean=$a patched=$b ok=$ok $(tail -1 $W.dirty)"
cd /; rm -rf "$W" "$W.clean" "$W.dirty" "$W.test"
[ $ok = 1 ]
