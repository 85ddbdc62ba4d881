#!/bin/bash
# run.sh <property> [quick|thorough] [extra driver flags...]
# Builds the property's driver against /repo's current working tree and runs it.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; [ $# -gt 0 ] && shift
. "$HERE/env.sh"
WORK="$(mktemp -d "${TMPDIR:-/tmp}/verif-$ID.XXXXXX")" || exit 3
trap 'rm -rf "$WORK"' EXIT
export VERIF_WORK="$WORK"
CHECK="$(echo "$ID" | tr A-Z a-z)"
FLAGS=
[ -e "$HERE/go/src/checks/$CHECK/race" ] && FLAGS=-race # built with the race detector
mkdir -p "$WORK/gopath/src"
ln -s "$VERIF_REPO/tests/generation/golden/gen-go/simple" "$WORK/gopath/src/simple"
export GOPATH="$GOPATH:$WORK/gopath"
if [ -e "$HERE/go/src/checks/$CHECK/gen" ]; then # the generator, behind a stand-in for the Thrift compiler
  mkdir -p "$WORK/bin"; printf '#!/bin/sh\nexit 0\n' >"$WORK/bin/gofmt"; chmod +x "$WORK/bin/gofmt"
  if ! g++ -O0 -w -I "$HERE/gen/shim" -o "$WORK/gocompiler" "$HERE/gen/main.cc" \
      "$VERIF_REPO/compiler/cpp/src/generate/t_go_generator.cc" >"$WORK/build.log" 2>&1; then
    echo "CHECK ERROR $ID: the generator does not build"; head -50 "$WORK/build.log"; exit 3
  fi
fi
if [ -e "$HERE/go/src/checks/$CHECK/packages" ]; then # works with the packages generated for the schemas of a run
  export VERIF_GEN_SEED="${VERIF_SEED:-1}" VERIF_GEN_TIER="$TIER" VERIF_GEN_KIND="$(cat "$HERE/go/src/checks/$CHECK/packages")"
  FLAGS="$FLAGS -trimpath" # the same packages are compiled once, wherever they lie
  PREV=
  for A in "$@"; do
    case "$PREV" in
    -seed) VERIF_GEN_SEED="$A" ;;
    -replay)
      VERIF_GEN_SEED="$(sed -n 's/^ "seed": \(-*[0-9]*\),*$/\1/p' "$A" | head -1)"
      VERIF_GEN_TIER="$(sed -n 's/^ "tier": "\(.*\)",*$/\1/p' "$A" | head -1)" ;;
    esac
    PREV="$A"
  done
  if ! go build -o "$WORK/gentool" gentool >"$WORK/build.log" 2>&1 ||
      ! "$WORK/gentool" "$VERIF_GEN_KIND" "$VERIF_GEN_TIER" "$VERIF_GEN_SEED" "$WORK/gopath" >>"$WORK/build.log" 2>&1; then
    echo "CHECK ERROR $ID: the packages of the run cannot be made"; head -50 "$WORK/build.log"; exit 3
  fi
fi
if ! go build $FLAGS -o "$WORK/driver" "checks/$CHECK" >"$WORK/build.log" 2>&1; then
  echo "CHECK ERROR $ID: the driver does not build against /repo"; head -50 "$WORK/build.log"; exit 3
fi
cd "$HERE" || exit 3
"$WORK/driver" -tier "$TIER" -seed "${VERIF_SEED:-1}" -evidence "$HERE/evidence/$ID.json" \
  -known "$HERE/known-findings.txt" -replays "$HERE/replays" "$@"
rc=$?
exit $rc
