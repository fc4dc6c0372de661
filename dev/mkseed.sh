#!/bin/bash
# dev/mkseed.sh <id> <property> <pkg dir under /repo>: takes the current diff of /tmp/sw (a scratch copy) as the patch
# expects /tmp/sw/demo_test.go and uses NEEDS / BREAKS from the environment
V=/verif; id=$1; prop=$2; pkg=$3
mkdir -p $V/seeded/$id
git -C /tmp/sw diff > $V/seeded/$id/patch.diff
cp /tmp/sw_demo_test.go $V/seeded/$id/demo_test.go
cat > $V/seeded/$id/demo.sh <<X
#!/bin/bash
D="\$(cd "\$(dirname "\$0")" && pwd)"
export PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
T="\$(mktemp -d)"; trap 'rm -rf "\$T"' EXIT
printf '{"Replace":{"%s":"%s"}}' "\$PWD/$pkg/zz_demo_test.go" "\$D/demo_test.go" > "\$T/o.json"
go test -overlay "\$T/o.json" -run '^TestDemo' -count=1 -timeout 120s ./$pkg
X
python3 - "$id" "$prop" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open('/verif/seeded/%s/meta.json'%sys.argv[1],'w'),indent=1)
P
git -C /tmp/sw checkout -q -- .
