#!/bin/bash
# check.sh ID [extra harness flags]: builds everything from /repo's working tree and decides property ID.
# Tier and seed come from VERIF_TIER and VERIF_SEED.
id="$1"; shift
export VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"
export TZ=UTC GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" CGO_ENABLED=0
export HOME="${HOME:-/root}" LANG="${LANG:-C.UTF-8}"
tier="${VERIF_TIER:-quick}"; seed="${VERIF_SEED:-1}"
scratch=$(mktemp -d "${VF_TMP:-/tmp}/vf-$id-XXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
"$VERIF_DIR/build.sh" "$scratch" >"$scratch/build.log" 2>&1 || { cat "$scratch/build.log" >&2; echo "ERROR: build failed" >&2; exit 2; }
"$scratch/bin/harness" check -prop "$id" -tier "$tier" -seed "$seed" -bin "$scratch/bin" -scratch "$scratch" "$@"
rc=$?
if [ $rc -eq 0 ] || [ $rc -eq 1 ]; then exit $rc; fi
exit 2
