#!/bin/bash
# check.sh <property id>      builds the harness from /repo's working tree and runs one check
# check.sh replay <file>      runs the unit of a replay file again
# check.sh setup              builds the harness only
. /opt/vp/env.sh
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
mkdir -p build evidence replays

build() { # plain|race
  local flags=() out=build/harness
  if [ "$1" = race ]; then flags=(-race); out=build/harness-race; fi
  (cd harness && timeout 800 go build "${flags[@]}" -o "$VERIF_DIR/$out" .) >build/build-$1.log 2>&1 || {
    echo "the harness does not build:"; tail -30 build/build-$1.log; exit 2; }
}

kind() { # of a property
  case "$1" in C15) echo race;; *) echo plain;; esac
}

bin() { [ "$1" = race ] && echo "$VERIF_DIR/build/harness-race" || echo "$VERIF_DIR/build/harness"; }

case "$1" in
  setup) build plain; build race; exit 0;;
  replay)
    [ -f "$2" ] || { echo "no such file: $2"; exit 2; }
    f=$(realpath "$2")
    k=$(grep -q '"race": true' "$f" && echo race || echo plain)
    build $k; exec "$(bin $k)" replay "$f";;
  C[0-9][0-9])
    k=$(kind "$1"); build $k; exec "$(bin $k)" check "$1";;
  *) sed -n 2,4p "$0"; exit 2;;
esac
