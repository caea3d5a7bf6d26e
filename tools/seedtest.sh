#!/bin/bash
# seedtest.sh <seed id>...: validates planted bugs in a scratch copy bound over /repo in a private mount namespace:
# builds, stable tests pass, demo passes on the unchanged tree and fails with the patch. `-c` also runs the property's check.
chk=; [ "$1" = -c ] && { chk=1; shift; }
here=$(cd "$(dirname "$0")/.." && pwd)
one() {
    id=$1; s=$here/seeded/$id; w=$(mktemp -d /tmp/seed-XXXXXX)
    cp -a /repo "$w/repo"
    ( cd "$w/repo" && bash "$s/demo.sh" >/dev/null 2>&1 ); base=$?
    if ! git -C "$w/repo" apply "$s/patch.diff"; then echo "$id: PATCH DOES NOT APPLY"; rm -rf "$w"; return; fi
    cat > "$w/in.sh" <<X
mount --bind $w/repo /repo || exit 9
cd /repo
bash /opt/vp/test.sh $w/o.json > $w/test.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$w/o.json'))
m=sorted(set(b['stable'])-set(o['passed'])); print('TESTS', len(m), m[:3])
P
bash $s/demo.sh > $w/demo.log 2>&1; echo DEMO \$?
X
    out=$(unshare -Urm bash "$w/in.sh" 2>&1)
    t=$(echo "$out" | grep TESTS); d=$(echo "$out" | grep DEMO)
    ok=BAD; [ $base = 0 ] && [ "$t" = "TESTS 0 []" ] && [ "$d" != "DEMO 0" ] && [ -n "$d" ] && ok=ok
    r=
    if [ -n "$chk" ] && [ $ok = ok ]; then
        p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
        r=$(cd "$here" && VF_REPO=$w/repo VF_NOEVIDENCE=1 timeout 900 ./run check $p quick 2>&1 | grep -a VIOLATION | head -3 | sed 's/replay=.*\///')
        [ -z "$r" ] && r='NOT CAUGHT'
    fi
    echo "$id: $ok base=$base $t $d $r"
    rm -rf "$w"
}
for i in "$@"; do one "$i"; done
