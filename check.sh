#!/bin/bash
# check.sh <property> <tier>
D="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$D" HOME="${HOME:-/root}"
need=0
[ -x "$D/bin/vsym" ] || need=1
if [ $need = 0 ] && [ -n "$(find "$D/engine" -name '*.go' -newer "$D/bin/vsym" -print -quit)" ]; then need=1; fi
if [ $need = 1 ]; then "$D/build.sh" || { echo "engine build failed"; exit 2; }; fi
exec "$D/bin/vsym" check -prop "$1" -tier "${2:-quick}" "${@:3}"
