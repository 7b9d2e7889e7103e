#!/bin/bash
# plant_check.sh <seeded dir> <property>...   runs checks against a planted bug, in a private copy of /repo and /verif
d=$(readlink -f "$1"); id=$(basename "$d"); shift
w=$(mktemp -d /tmp/plantXXXXXX)
cp -a /repo "$w/repo"; mkdir "$w/verif"; (cd /verif && tar cf - --exclude=./seeded --exclude=./.git .) | tar xf - -C "$w/verif"
cp "$d/patch.diff" "$w/patch.diff"
unshare -Urm bash -c '
  w=$1; d=$2; id=$3; shift 3
  mount --bind "$w/repo" /repo && mount --bind "$w/verif" /verif || exit 3
  cd /repo && git apply "$w/patch.diff" || exit 3
  cd /verif
  for p; do
    s=$(date +%s); VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick ./check.sh "$p" >"$w/out.$p" 2>&1; rc=$?
    n=$(grep -c "^VIOLATION property=$p " "$w/out.$p")
    if [ $rc -eq 1 ] && [ $n -gt 0 ]; then r=CAUGHT; elif [ $rc -eq 0 ]; then r=missed; else r="NOANSWER rc=$rc"; fi
    echo "$id $p $r ($(( $(date +%s) - s )) s) $(grep -A1 "^VIOLATION" "$w/out.$p" | sed -n 2p | cut -c1-200)"
    [ "$r" != CAUGHT ] && [ "$r" != missed ] && tail -5 "$w/out.$p"
  done
' _ "$w" "$d" "$id" "$@"
rm -rf -- "$w"
