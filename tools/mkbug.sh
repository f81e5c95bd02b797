#!/bin/bash
# mkbug.sh ID PROP PKG "needs" "breaks" : makes seeded/ID from the changes in the scratch copy /tmp/bw and the demo
# /tmp/bw_demo_test.go (package of PKG, func TestDemo); resets /tmp/bw.
id=$1; d=/verif/seeded/$id; mkdir -p "$d"
cd /tmp/bw || exit 2
git diff > "$d/patch.diff"; [ -s "$d/patch.diff" ] || { echo no change; exit 2; }
cp /tmp/bw_demo_test.go "$d/demo_test.go.txt"
[ -f /verif/tools/demo_net_$(basename $3).go.txt ] && cp /verif/tools/demo_net_$(basename $3).go.txt "$d/demo_net.go.txt"
cat > "$d/demo.sh" <<X
#!/bin/bash
here=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
{
  echo '{"Replace": {'
  [ -f "\$here/demo_net.go.txt" ] && echo "\"\$PWD/$3/zz_demo_net_test.go\": \"\$here/demo_net.go.txt\","
  echo "\"\$PWD/$3/zz_demo_test.go\": \"\$here/demo_test.go.txt\"}}"
} > "\$t/ov.json"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go test -vet=off -count=1 -timeout 200s -overlay "\$t/ov.json" ${6:+-tags $6} -run '^TestDemo\$' ./$3
X
python3 - "$2" "$4" "$5" > "$d/meta.json" <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
git checkout -q -- .
echo made $id
