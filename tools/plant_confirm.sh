#!/bin/bash
# plant_confirm.sh <seeded dir>...   confirms planted bugs in scratch copies of /repo, inside private mount namespaces:
# demo passes without the patch; with it the tree builds, keeps its stable tests and the demo fails.
one() {
  local d id w; d=$(readlink -f "$1"); id=$(basename "$d"); w=$(mktemp -d /tmp/plantXXXXXX)
  cp -a /repo "$w/repo"; cp -a /opt/vp "$w/vp"
  mkdir "$w/demo"; cp -a "$d/." "$w/demo/"; rm -f "$w/demo/patch.diff" "$w/demo/meta.json"
  unshare -Urm bash -c '
    w=$1; d=$2; id=$3
    mount --bind "$w/repo" /repo && mount --bind "$w/vp" /opt/vp || exit 3
    cd /repo
    bash "$w/demo/demo.sh" >"$w/demo0.log" 2>&1; r0=$?
    git apply --check "$d/patch.diff" 2>"$w/apply.log" && git apply "$d/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; cat "$w/apply.log"; exit 1; }
    bash /opt/vp/build.sh >"$w/build.log" 2>&1 || { echo "$id: BUILD FAILS"; grep -A6 "^error" "$w/build.log" | head -30; exit 1; }
    bash /opt/vp/test.sh "$w/out.json" >"$w/test.log" 2>&1
    bash "$w/demo/demo.sh" >"$w/demo1.log" 2>&1; r1=$?
    python3 - "$w/out.json" "$id" $r0 $r1 <<P
import json,sys
o=json.load(open(sys.argv[1])); b=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ok=set(o["passed"]) if "passed" in o else {k for k,v in o.items() if v in ("passed",True,"ok")}
miss=sorted(b-ok)
r0,r1=map(int,sys.argv[3:5])
print(("COUNTS " if not miss and r0==0 and r1 not in (0,101+900) else "BAD    ")+sys.argv[2],"demo",r0,r1,"broken tests",len(miss),miss[:6])
P
    grep -q . /dev/null; [ -n "$PLANT_VERBOSE" ] && tail -n 4 "$w/demo0.log" "$w/demo1.log" | cut -c1-300
  ' _ "$w" "$d" "$id"
  rm -rf -- "$w"
}
for d in "$@"; do
  while [ "$(jobs -rp | wc -l)" -ge "${PLANT_JOBS:-2}" ]; do sleep 1; done
  one "$d" > >(cat) 2>&1 &
done
wait
