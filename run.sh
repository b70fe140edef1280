#!/bin/bash
# Usage: run.sh PROPERTY [quick|thorough] [--replay FILE]
# Builds the monitor and whatever binaries it needs from /repo's current working tree into a
# private scratch directory, runs one property's check, and removes the scratch directory.
# Exit: 0 held, 1 violated (with a VIOLATION line), 2 no verdict.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
prop="${1:?property}"
tier="${2:-${VERIF_TIER:-quick}}"
seed="${VERIF_SEED:-1}"
shift; shift || true

export HOME="${HOME:-/root}"
export GOPATH="${GOPATH:-/root/go}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off CGO_ENABLED=1
unset GODEBUG GORACE GOGC GOMEMLIMIT GOMAXPROCS

scratch="$(mktemp -d "${TMPDIR:-/tmp}/verif.XXXXXXXX")" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
trap 'exit 2' INT TERM
mkdir -p "$scratch/bin" "$scratch/work"

# module files are used through copies, so that a build never rewrites a committed one
cp "$here/harness/go.mod" "$scratch/vmon.mod" && cp "$here/harness/go.sum" "$scratch/vmon.sum" || exit 2
cp "$repo/go.mod" "$scratch/repo.mod" && cp "$repo/go.sum" "$scratch/repo.sum" || exit 2
if [ "$repo" != /repo ]; then sed -i "s#=> /repo\$#=> $repo#" "$scratch/vmon.mod"; fi

fail() { cat "$scratch/build.log" >&2; echo "no verdict: the build failed" >&2; exit 2; }
monitor() { (cd "$here/harness" && go build -buildvcs=false -modfile="$scratch/vmon.mod" "$@") >>"$scratch/build.log" 2>&1 || fail; }
subject() { (cd "$repo" && go build -buildvcs=false -modfile="$scratch/repo.mod" "$@") >>"$scratch/build.log" 2>&1 || fail; }

monitor -o "$scratch/bin/vmon" ./cmd/vmon
case "$prop" in
build)
	subject -o "$scratch/bin/" ./...
	monitor -race -o "$scratch/bin/vmon.race" ./cmd/vmon
	subject -race -o "$scratch/bin/web.race" ./web
	echo "built"; exit 0 ;;
C06|C21|C22|C32) subject -o "$scratch/bin/jargon" ./cmd/jargon ;;
C11) monitor -race -o "$scratch/bin/vmon.race" ./cmd/vmon ;;
C23)
	subject -o "$scratch/bin/web" ./web
	subject -race -o "$scratch/bin/web.race" ./web ;;
C28) subject -o "$scratch/bin/gen-contractions" ./filters/contractions/generate ;;
C29) subject -o "$scratch/bin/gen-stackoverflow" ./filters/stackoverflow/generate ;;
C30) subject -o "$scratch/bin/gen-nba" ./filters/nba/generate ;;
esac

"$scratch/bin/vmon" -prop "$prop" -tier "$tier" -seed "$seed" -repo "$repo" \
	-out "${VERIF_OUT:-$here/evidence}" -scratch "$scratch/work" -bin "$scratch/bin" -verif "$here" "${@/#--replay/-replay}"
