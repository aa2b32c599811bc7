#!/bin/bash
# build.sh DIR: builds the simulator from /verif/sim and /repo's working tree
# into DIR (DIR/sim, DIR/sites.json). Nothing outside DIR and Go's build cache
# is written.
set -e
D=$1
home=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
repo=${SIM_REPO:-/repo}
export GOFLAGS= GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off GO111MODULE=on GONOSUMCHECK=1
(cd "$home/sim/instr" && go build -o "$D/instr" .)
make() {
rm -rf "$D/w"
mkdir -p "$D/w"
"$D/instr" $1 -src "$repo" -out "$D/w"
mv "$D/w/sites.json" "$D/sites.json"
cp -r "$home/sim/hook" "$D/w/simhook"
cp -r "$home/sim/main" "$D/w/main"
for v in r51 gen asm; do
    mkdir -p "$D/w/main/ad/$v"
    sed "s/VARIANT/$v/g" "$home/sim/main/adtmpl/adapter.go.tmpl" > "$D/w/main/ad/$v/adapter.go"
done
cat > "$D/w/go.work" <<W
go 1.23

use (
	./simhook
	./r51
	./gen
	./asm
	./cref
	./main
)
W
# cgo does not see that cref.c includes other sources: make the hash part of the flags
hash=$(cat "$D/w/cref/"* | sha256sum | cut -c1-16)
export CGO_CFLAGS="-g -O2 -DSIM_DATA_$hash=1" CGO_ENABLED=1
rm -f "$D/sim" "$D/sim386"
# the same for a 32-bit platform; the checks do without where it cannot be had
(cd "$D/w/main" && GOWORK="$D/w/go.work" GOARCH=386 CGO_ENABLED=0 go build -o "$D/sim386" . > "$D/386.log" 2>&1 || rm -f "$D/sim386") &
other=$!
ok=0
(cd "$D/w/main" && GOWORK="$D/w/go.work" go build -o "$D/sim" .) || ok=1
wait $other
return $ok
}
# should the rewriting that C12 wants not suit some code, do without it; and
# should that of goroutines, channels and the clock not, leave them real
make "" || make -plain || make "-plain -coarse"
