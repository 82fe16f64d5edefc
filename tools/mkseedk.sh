#!/bin/bash
# mkseedk.sh ID: saves the diff of /tmp/sw as seeded/ID/patch.diff, with a demonstration that is a package
# of its own (overlaid at ./zzseed): tools/seedkit plus seeded/ID/demo_test.go.
V=/verif; I=$1
mkdir -p $V/seeded/$I
git -C /tmp/sw diff > $V/seeded/$I/patch.diff
git -C /tmp/sw checkout -q -- .
cp $V/tools/seedkit/*.go $V/seeded/$I/
cat > $V/seeded/$I/demo.sh <<'EOS'
#!/bin/bash
# Runs the go files beside it as the package ./zzseed of the repository in the current directory.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
export PATH=/opt/veriftools/go1.23.12/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GO111MODULE=on CGO_ENABLED=1 HOME=${HOME:-/root}
T=$(mktemp -d) || exit 1
trap 'rm -rf "$T"' EXIT
{ printf '{"Replace":{'; s=; for f in "$D"/*.go; do printf '%s"%s":"%s"' "$s" "$R/zzseed/$(basename "$f")" "$f"; s=,; done; printf '}}'; } > "$T/overlay.json"
(cd "$R" && timeout 200 go test -c -overlay "$T/overlay.json" -vet=off $RACE -o "$T/demo.test" ./zzseed) || exit 1
cd "$T" && TMPDIR=$T timeout 90 ./demo.test -test.count=1 -test.run '^TestSeedDemo$'
EOS
