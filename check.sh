#!/bin/bash
# Usage: ./check.sh <property id> [quick|thorough]
# Builds the explorer against /repo's working tree and decides one property.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC LC_ALL=C
ID=${1:?usage: check.sh ID [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
HERE=$(cd "$(dirname "$0")" && pwd)
DIR=$(mktemp -d /tmp/mc-build-XXXXXX) || exit 2
trap 'rm -rf "$DIR"' EXIT
cp "$HERE/mc/go.mod" "$DIR/go.mod" && cp "$HERE/mc/go.sum" "$DIR/go.sum" || exit 2
cd "$HERE/mc" || exit 2
if ! go build -modfile="$DIR/go.mod" -o "$DIR/mc" . 2>"$DIR/build.log"; then
  cat "$DIR/build.log" >&2
  echo "check.sh: the explorer does not build against /repo" >&2
  exit 2
fi
MC="$DIR/mc"
export MC_TMP="$DIR/tmp" # programs of /repo and their scratch files
mkdir "$MC_TMP" || exit 2
if [ "$ID" = C22 ]; then
  # the generator of /repo makes decoders of enumerated declarations; what it
  # made is compiled into the explorer by means of an overlay
  export MC_GEN="$DIR/gen"
  mkdir "$MC_GEN" && "$DIR/mc" generate "$MC_GEN" "$TIER" || exit 2
  if go build -modfile="$DIR/go.mod" -overlay "$MC_GEN/overlay.json" -tags verifgen -o "$DIR/mcgen" . 2>"$MC_GEN/build.log"; then
    MC="$DIR/mcgen"
  fi
fi
MC_ROOT="$HERE" "$MC" check "$ID" "$TIER"
