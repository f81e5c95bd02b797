#!/bin/bash
# bug.sh ID [tests]: confirms the planted bug seeded/ID in a scratch copy: applies, builds,
# demo passes without and fails with it, and (if asked) the stable tests pass with it.
# Then runs the check of its property (BUGCHECK=0 to skip) against the copy.
id=$1; d=/verif/seeded/$id
w=$(mktemp -d /tmp/bugwt.XXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/r"; cd "$w/r" || exit 2
cp -a "$d" "$w/demo"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
( timeout 300 bash "$w/demo/demo.sh" ) > "$w/clean.log" 2>&1; c=$?
git apply "$d/patch.diff" || { echo "$id: DOES NOT APPLY"; exit 2; }
go build ./... || { echo "$id: DOES NOT BUILD"; exit 2; }
( timeout 300 bash "$w/demo/demo.sh" ) > "$w/bug.log" 2>&1; b=$?
[ $c = 0 ] || tail -30 "$w/clean.log"
echo "$id: demo clean=$c bug=$b"
[ "$b" = 0 ] || tail -${LINES_SHOWN:-6} "$w/bug.log"
if [ -n "$2" ]; then
  sed "s,^\. /opt/vp/env.sh,. <(sed s:/repo:$w/r: /opt/vp/env.sh)," /opt/vp/test.sh > "$w/test.sh"
  ( cd "$w/r"; bash "$w/test.sh" "$w/res.json" >/dev/null 2>&1 )
  python3 - "$w/res.json" "$id" <<'P'
import json,sys
r=json.load(open(sys.argv[1])); s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ok=set(r.get('passed') or r.get('pass') or [])
print(sys.argv[2]+": stable tests failing:", sorted(s-ok)[:10], len(s), len(ok))
P
fi
if [ "${BUGCHECK:-1}" != 0 ]; then
  VERIF_SEED=1 VERIF_REPO="$w/r" timeout 900 /verif/check $prop ${TIER:-quick} > "$w/chk.log" 2>&1; k=$?
  echo "$id: check $prop exit=$k $(grep -c VIOLATION "$w/chk.log")"; grep -m3 VIOLATION "$w/chk.log"; [ $k = 2 ] && tail -20 "$w/chk.log"
fi
