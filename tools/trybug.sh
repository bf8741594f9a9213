#!/bin/bash
# trybug.sh ID [CHECK...]: tries the planted bug seeded/ID on a private copy of /repo (mount namespace):
# demo before and after, stable tests, and the checks (default: the bug's property).
here=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
b=$here/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$b/meta.json'))['property'])")
checks=${*:-$prop}; c=$(mktemp -d /tmp/trybug.XXXXXX); trap "rm -rf '$c'" EXIT
cp -a "${SRC:-/repo}" "$c/repo"
cat > "$c/run.sh" <<R
mount --bind "$c/repo" /repo && cd /repo || exit 9
bash /opt/vp/build.sh >/dev/null 2>&1
bash "$b/demo.sh" >"$c/d0" 2>&1; echo "demo clean: \$? (want 0)"; 
git apply "$b/patch.diff" || { echo "patch does not apply"; exit 9; }
bash /opt/vp/build.sh >"$c/build" 2>&1 || { echo "does not build"; tail -5 "$c/build"; exit 9; }
bash "$b/demo.sh" >"$c/d1" 2>&1; echo "demo patched: \$? (want nonzero)"; tail -3 "$c/d1"
[ -n "$NOTEST" ] || { bash /opt/vp/test.sh "$c/o.json" >/dev/null 2>&1; python3 - <<P
import json
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('$c/o.json'))['passed'])
print('stable tests broken:', sorted(s-p))
P
}
cd "$here"; for k in $checks; do VERIF_SEED=\${VERIF_SEED:-1} timeout 900 ./check \$k >"$c/c" 2>&1; echo "check \$k: exit \$?"; grep VIOLATION "$c/c" | head -3; grep -v VIOLATION "$c/c" | tail -${TAIL:-4} | cut -c1-400; done
R
unshare -m bash "$c/run.sh"
