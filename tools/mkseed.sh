#!/bin/bash
# mkseed.sh ID PROP PKG: saves the diff of /tmp/sw (a scratch copy of /repo) as a seed whose
# demonstration is seeded/ID/demo_test.go run inside package PKG.
V=/verif; I=$1; P=$2; K=$3
mkdir -p $V/seeded/$I
git -C /tmp/sw diff > $V/seeded/$I/patch.diff
git -C /tmp/sw checkout -q -- .
cat > $V/seeded/$I/demo.sh <<EOS
#!/bin/bash
# Runs demo_test.go inside ./$K of the repository in the current directory.
D=\$(cd "\$(dirname "\$0")" && pwd); R=\$PWD
export PATH=/opt/veriftools/go1.23.12/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on CGO_ENABLED=1 HOME=\${HOME:-/root}
T=\$(mktemp -d) || exit 1
trap 'rm -rf "\$T"' EXIT
printf '{"Replace":{"%s":"%s"}}' "\$R/$K/zz_seed_demo_test.go" "\$D/demo_test.go" > "\$T/overlay.json"
TMPDIR=\$T timeout 280 go test -overlay "\$T/overlay.json" -vet=off -count=1 -run '^TestSeedDemo\$' "./$K"
EOS
