#!/bin/bash
# build.sh SCRATCH: builds the executables under test and the harness into SCRATCH/bin.
set -e -o pipefail
scratch="${1:?usage: build.sh SCRATCH}"
V="$(cd "$(dirname "$0")" && pwd)"
export TZ=UTC GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
mkdir -p "$scratch/bin" "$scratch/overlay" "$scratch/mod"
cd /repo
# /repo's own go.mod and go.sum stay untouched: build with copies
cp go.mod go.sum "$scratch/mod/"
go build -modfile="$scratch/mod/go.mod" -o "$scratch/bin/" ./cmd/coin ./cmd/csv2coin ./cmd/gc2coin ./cmd/gen2coin ./cmd/ofx2coin
# coin2html embeds files that cannot be generated here: build it with others in their place
{
    printf '{"Replace":{'
    printf '"/repo/cmd/coin2html/js/dist/head.html":"%s",' "$V/overlay/html/head.html"
    printf '"/repo/cmd/coin2html/js/dist/body.html":"%s"}}\n' "$V/overlay/html/body.html"
} > "$scratch/overlay.json"
go build -modfile="$scratch/mod/go.mod" -overlay "$scratch/overlay.json" -o "$scratch/bin/coin2html" ./cmd/coin2html
cd "$V/harness"
cp go.mod "$scratch/mod/h.mod"; cp go.sum "$scratch/mod/h.sum"
go build -modfile="$scratch/mod/h.mod" -o "$scratch/bin/harness" .
# the repair filter of ofx2coin is reached from inside its package; left out if it cannot be built that way
cd /repo
printf '{"Replace":{"/repo/cmd/ofx2coin/zz_verif.go":"%s"}}' "$V/overlay/ofx2coin_verif.go" > "$scratch/overlay-bmo.json"
go build -modfile="$scratch/mod/go.mod" -overlay "$scratch/overlay-bmo.json" -o "$scratch/bin/bmofilter" ./cmd/ofx2coin || rm -f "$scratch/bin/bmofilter"
# gen2coin with a given start of its random numbers
printf '{"Replace":{"/repo/cmd/gen2coin/zz_verif.go":"%s"}}' "$V/overlay/gen2coin_verif.go" > "$scratch/overlay-gen.json"
go build -modfile="$scratch/mod/go.mod" -overlay "$scratch/overlay-gen.json" -o "$scratch/bin/gen2coin-seeded" ./cmd/gen2coin || rm -f "$scratch/bin/gen2coin-seeded"
# the browser viewer, as one script
node "$V/overlay/js/build.mjs" /repo/cmd/coin2html/js/src "$scratch/bin/viewer.js"
