#!/bin/bash
# mkbug.sh ID PROPERTY: takes the diff of the scratch copy /tmp/mut against /repo, with
# /tmp/mut.demo_test.go as demonstration, confirms it, and keeps it as seeded/ID.
id=$1; prop=$2; needs=$3; breaks=$4
set -e
d=/verif/seeded/$id
mkdir -p $d
( cd /tmp/mut && git diff ) > $d/patch.diff
cp /tmp/mut.demo_test.go $d/demo_test.go.txt
cat > $d/demo.sh <<'X'
#!/bin/bash
# Runs demo_test.go.txt as a test package inside the module (by overlay).
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
cp "$here/demo_test.go.txt" "$tmp/demo_test.go"
echo "{\"Replace\":{\"$PWD/zzdemo/demo_test.go\":\"$tmp/demo_test.go\"}}" > "$tmp/ov.json"
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go test -c -vet=off -overlay "$tmp/ov.json" -o "$tmp/demo.test" DEMOFLAGS ./zzdemo || exit 8
cd "$tmp" && ./demo.test -test.count=1 -test.timeout 120s
X
sed -i "s/ DEMOFLAGS/${DEMOFLAGS:+ $DEMOFLAGS}/" $d/demo.sh
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
# confirm
cd /repo && git apply --check $d/patch.diff
( cd /repo && bash $d/demo.sh >/dev/null 2>&1 ) || { echo "DEMO FAILS ON CLEAN TREE"; bash $d/demo.sh | tail -20; exit 1; }
git -C /repo apply $d/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || { echo "DOES NOT BUILD"; exit 1; }
bash /opt/vp/test.sh /tmp/mut.json >/dev/null 2>&1 || { echo "TESTS FAIL"; exit 1; }
if ( cd /repo && bash $d/demo.sh >/tmp/mut.demo.out 2>&1 ); then echo "DEMO PASSES WITH PATCH"; exit 1; fi
echo "kept $id; checking"
cd /verif && for p in ${CHECKS:-$prop}; do bash check.sh $p | cut -c1-300 | tail -12; done
