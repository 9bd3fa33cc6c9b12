#!/bin/bash
# plant.sh ID PROPERTY PKG NEEDS BREAKS [files...]: keeps the change made in /tmp/wt as seeded/ID after confirming it.
# The demo is the _test.go files given; each goes into PKG by overlay.
id=$1 prop=$2 pkg=$3 needs=$4 breaks=$5; shift 5
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
for f in "$@"; do cp "$f" $d/$(basename $f).txt; done
cat > $d/demo.sh <<EOS
#!/bin/bash
# Run in the repository: passes when the property holds.
d=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d)
trap 'rm -rf "\$t"' EXIT
sep=
{
echo '{"Replace": {'
for f in "\$d"/*_test.go.txt; do
  b=\$(basename "\$f" .txt)
  printf '%s"%s": "%s"\n' "\$sep" "\$PWD/$pkg/\$b" "\$f"
  sep=,
done
echo '}}'
} > "\$t/overlay.json"
GOFLAGS=-mod=readonly GOPROXY=off GOTOOLCHAIN=local timeout 250 go test -vet=off -overlay "\$t/overlay.json" ./$pkg -run 'TestDemo' -count=1
EOS
python3 - "$prop" "$needs" "$breaks" > $d/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
echo "== demo on clean"; (cd /repo && bash $d/demo.sh > /tmp/demo.clean 2>&1); echo rc=$?
echo "== build+test patched"; rm -f /tmp/o.json
(cd /tmp/wt && go build ./...; go test -vet=off ./... 2>&1 | grep -v '^ok\|no test files' | head -5)
echo "== demo on patched"; (cd /tmp/wt && bash $d/demo.sh > /tmp/demo.bad 2>&1); echo rc=$?; tail -5 /tmp/demo.bad | cut -c1-200
echo "== checks on patched"
/tmp/kc -property all -repo /tmp/wt -noevidence | grep -a '^VIOL\|^  \|: \[' | cut -c1-170 | head -8
git -C /tmp/wt checkout -q -- .
