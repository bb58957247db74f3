#!/bin/bash
# refactor.sh PATCH [props]: behaviour-preserving patch; checks must stay quiet.
V=$(cd "$(dirname "$0")/.." && pwd); p=$(realpath "$1"); props=${2:-all}
W=$(mktemp -d /tmp/refac.XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"; cd "$W/repo"; git checkout -q -- .
git apply "$p" || { echo "$p: DOES NOT APPLY"; exit 1; }
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
PK=$(go list -e ./... | grep -vxE 'flychain/(rpc|internal/cmdtest)'); go build $PK || { echo "$p: DOES NOT BUILD"; exit 1; }
"$V/build.sh"; mkdir -p "$W/v/evidence"; cp "$V/known_findings.txt" "$W/v/"
timeout 900 "$V/bin/verifchecker" -property "$props" -repo "$W/repo" -verif "$W/v" > "$W/out" 2>&1
echo "$(basename $p): alarms: $(grep -o '^VIOLATION property=[A-Z0-9]*' "$W/out" | cut -d= -f2 | tr '\n' ' ')"
grep -v "^VIOLATION\|^OK" "$W/out" | cut -c1-300 | head -${SHOW:-15}
exit 0
