#!/bin/bash
# builds the harness once, to verify that everything needed is there
set -eu
VERIF="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
. "$VERIF/tools/env.sh"
B="$(mktemp -d /tmp/verif_build_XXXXXX)"
trap 'rm -rf "$B"' EXIT
python3 "$VERIF/tools/gen_overlay.py" --std "$GOROOT" "$REPO" "$VERIF/harness" "$B"
cd "$REPO"
go build -overlay "$B/overlay.json" -o "$B/harness" ./zzverif
"$B/harness" list | wc -l
