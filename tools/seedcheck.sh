#!/bin/bash
# seedcheck.sh ID [notest]: validates /verif/seeded/ID in a scratch copy of /repo and runs its property's check against it.
set -u; export CGO_ENABLED=0
id=$1; D=/verif/seeded/$id
W=$(mktemp -d /tmp/seed.XXXXXX); cp -a /repo "$W/repo"; mkdir "$W/demo"; cp "$D"/* "$W/demo/"; rm -f "$W"/demo/*.diff "$W"/demo/meta.json
cd "$W/repo"
timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1; a=$?
git apply "$D/patch.diff" || { echo "$id: patch does not apply"; rm -r "$W"; exit 1; }
go build ./... || echo "$id: does not build"
timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1; b=$?
[ $a = 0 ] || tail -5 "$W/d0"
t=skipped
if [ "${2:-}" != notest ]; then t=$(go test ./... 2>&1 | grep -E "^(--- FAIL|FAIL|panic)" | head -5); fi
p=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
c=$(cd /verif && VERIF_REPO="$W/repo" VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh "$p" 2>/dev/null | grep -v WARNING | cut -c1-260 | tail -6)
echo "== $id ($p): demo unchanged=$a patched=$b; tests failing: [${t}]"; echo "$c"
rm -r "$W"
