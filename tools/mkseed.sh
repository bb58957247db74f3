#!/bin/bash
# mkseed.sh ID PROPERTY PKG "needs" "breaks" < script ; the /tmp/seedrepo working copy holds the change, /tmp/demo_test.go the demo
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; D=$V/seeded/$id; mkdir -p $D
git -C /tmp/seedrepo diff > $D/patch.diff
git -C /tmp/seedrepo checkout -q -- .
cp /tmp/demo_test.go $D/demo_test.go.txt
cat > $D/demo.sh <<X
#!/bin/bash
# overlays the demonstration test on package $3 and runs it
D=\$(cd "\$(dirname "\$0")" && pwd); R=\$PWD
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
cp "\$D/demo_test.go.txt" "\$T/zz_demo_test.go"
printf '{"Replace": {"%s": "%s"}}' "\$R/$3/zz_demo_test.go" "\$T/zz_demo_test.go" > "\$T/o.json"
go test -vet=off -count=1 -timeout 120s -overlay "\$T/o.json" -run 'TestZZ' "./$3"
X
python3 -c 'import json,sys;json.dump({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},open(sys.argv[4],"w"),indent=1)' "$2" "$4" "$5" $D/meta.json
