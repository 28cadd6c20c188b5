#!/bin/bash
# check.sh ID: builds the harness with /repo's working tree and decides the property ID
# check.sh replay FILE: executes again the case of a replay file
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
. "$VERIF/tools/env.sh"
B="$(mktemp -d /tmp/verif_build_XXXXXX)" || exit 3
[ -n "${KEEP:-}" ] || trap 'rm -rf "$B"' EXIT
python3 "$VERIF/tools/gen_overlay.py" --std "$GOROOT" "$REPO" "$VERIF/harness" "$B" || exit 3
case "$*" in *A10*)
  mkdir "$B/instrumented"
  (cd "$VERIF/tools/instrument" && GO111MODULE=off GOFLAGS= go run main.go "$REPO" "$B/instrumented" "$B/overlay.json") || exit 3 ;;
esac
(cd "$REPO" && go build -overlay "$B/overlay.json" -o "$B/harness" ./zzverif) || exit 3
if [ "${1:-}" = replay ]; then
  "$B/harness" replay "$2" "$VERIF"
else
  "$B/harness" check "$1" "$VERIF" "$REPO"
fi
