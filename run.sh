#!/bin/bash
# run.sh setup | check <ID> [quick|thorough] | replay <file> | list
# Builds the harness against /repo's working tree and runs it.
. /opt/vp/env.sh
export GOSUMDB=off GOFLAGS=-mod=mod
VERIF="$(cd "$(dirname "$0")" && pwd)"
export VH_VERIF="$VERIF" VH_REPO="${VH_REPO:-/repo}"
unset VH_EXPORTS VH_CLI
if [ "$1" = setup ]; then
  cd "$VERIF/harness" && GOFLAGS="-mod=readonly -buildvcs=false" go build -o /dev/null ./cmd/vh && cd libs && GOFLAGS="-mod=readonly -buildvcs=false" go build ./...
  exit
fi
BIN="$(mktemp -d "${TMPDIR:-/tmp}/vh-bin-XXXXXX")" || exit 2
trap 'rm -rf "$BIN"' EXIT
trap 'exit 143' TERM INT
if [ "$VH_REPO" = /repo ]; then
  (cd "$VERIF/harness" && GOFLAGS="-mod=readonly -buildvcs=false" go build -o "$BIN/vh" ./cmd/vh) || exit 2
else
  sed "s#=> /repo#=> $VH_REPO#" "$VERIF/harness/go.mod" > "$BIN/go.mod"; cp "$VERIF/harness/go.sum" "$BIN/go.sum"
  (cd "$VERIF/harness" && GOFLAGS="-mod=readonly -buildvcs=false" go build -modfile="$BIN/go.mod" -o "$BIN/vh" ./cmd/vh) || exit 2
fi
if [ "$1" = check ] && [ -n "$3" ]; then
  VERIF_TIER="$3" "$BIN/vh" check "$2"
else
  "$BIN/vh" "$@"
fi
