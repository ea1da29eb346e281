#!/bin/bash
# check.sh <property> [quick|thorough]: builds the monitors and gosec from
# /repo's working tree and decides one property.
set -u
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"
ROOT="$(cd "$(dirname "$0")" && pwd)"
REPO="${VH_REPO:-/repo}"
. "$ROOT/env.sh"
export VH_ROOT="$ROOT" VH_REPO="$REPO" VERIF_TIER="$TIER"
VH_TMP="$(mktemp -d /tmp/vh.$ID.XXXXXX)" || exit 2
export VH_TMP
trap 'rm -rf "$VH_TMP"' EXIT
mkdir -p "$ROOT/evidence" "$VH_TMP/bin" "$VH_TMP/w"
cd "$ROOT/harness" || exit 2
sed "s#=> /repo#=> $REPO#" go.mod > "$VH_TMP/go.mod"; cp go.sum "$VH_TMP/go.sum"
if ! go build -modfile="$VH_TMP/go.mod" -o "$VH_TMP/bin/vh" ./cmd/vh 2>"$VH_TMP/build.log"; then
  echo "BUILD FAILED (harness against $REPO)"; head -30 "$VH_TMP/build.log"; exit 2
fi
if ! (cd "$REPO" && go build -o "$VH_TMP/bin/gosec" ./cmd/gosec) 2>"$VH_TMP/build.log"; then
  echo "BUILD FAILED (gosec)"; head -30 "$VH_TMP/build.log"; exit 2
fi
export VH_CLI="$VH_TMP/bin/gosec"
if [ "$ID" = C17 ]; then
  if ! (cd "$REPO" && go build -race -o "$VH_TMP/bin/gosec-race" ./cmd/gosec) 2>"$VH_TMP/build.log"; then
    echo "BUILD FAILED (race)"; head -30 "$VH_TMP/build.log"; exit 2
  fi
  export VH_RACECLI="$VH_TMP/bin/gosec-race"
fi
case "$ID" in C40) tool=tlsconfig ;; C41) tool=gosecutil ;; *) tool= ;; esac
if [ -n "$tool" ]; then
  if ! (cd "$REPO" && go build -o "$VH_TMP/bin/$tool" ./cmd/$tool) 2>"$VH_TMP/build.log"; then
    echo "BUILD FAILED ($tool)"; head -30 "$VH_TMP/build.log"; exit 2
  fi
  export VH_TOOL="$VH_TMP/bin/$tool"
fi
LIMIT=840; [ "$TIER" = thorough ] && LIMIT=3600
timeout -k 5 $LIMIT "$VH_TMP/bin/vh" "$ID" "$TIER"
rc=$?
[ $rc -eq 124 ] && { echo "INCONCLUSIVE property=$ID watchdog fired"; exit 3; }
exit $rc
