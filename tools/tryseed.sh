#!/bin/bash
# tryseed.sh ID [props]: confirm a planted bug (builds, baseline tests pass, demo 0/nonzero)
# in a scratch copy of /repo, then run the checks against the copy.
V=$(cd "$(dirname "$0")/.." && pwd); id=$1; props=${2:-all}
W=$(mktemp -d /tmp/seed.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; mkdir "$W/demo"; cp -a "$V/seeded/$id/." "$W/demo"; rm -f "$W/demo"/*.diff "$W/demo/meta.json"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
cd "$W/repo"
git checkout -q -- . ; bash "$W/demo/demo.sh" >"$W/d0" 2>&1; r0=$?
git apply "$V/seeded/$id/patch.diff" || { echo "$id: PATCH DOES NOT APPLY"; exit 1; }
PK=$(go list -e ./... | grep -vxE 'flychain/(rpc|internal/cmdtest)')
go build $PK || { echo "$id: DOES NOT BUILD"; exit 1; }
go test -json -vet=off -count=1 -timeout 10m $PK > "$W/t.json" 2>/dev/null
python3 - "$W/t.json" <<'P'
import json,sys
res={}
for l in open(sys.argv[1]):
    try: e=json.loads(l)
    except: continue
    if e.get("Test") and e["Action"] in("pass","fail"): res[e["Package"]+"/"+e["Test"]]=e["Action"]
bad=[t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if res.get(t)!="pass"]
print("  tests:", "all stable pass" if not bad else "FAIL "+str(bad[:5]))
P
bash "$W/demo/demo.sh" >"$W/d1" 2>&1; r1=$?
echo "  demo: unchanged=$r0 patched=$r1 $( [ $r0 = 0 ] && [ $r1 != 0 ] && echo good || { echo BAD; tail -5 "$W/d0" "$W/d1"; } )"
"$V/build.sh"; mkdir -p "$W/v/evidence"; cp "$V/known_findings.txt" "$W/v/"
want=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$V/seeded/$id/meta.json")
[ "$props" = own ] && props=$want
timeout 900 "$V/bin/verifchecker" -property "$props" -repo "$W/repo" -verif "$W/v" > "$W/out" 2>&1
echo "  $id (breaks $want) caught by: $(grep -o '^VIOLATION property=[A-Z0-9]*' "$W/out" | cut -d= -f2 | tr '\n' ' ')"
[ -n "$SHOW" ] && grep -v "^VIOLATION\|^OK" "$W/out" | cut -c1-300 | head -${SHOW}
exit 0
