#!/bin/bash
# check.sh PROPERTY: decides one property of /repo's working tree.
cd "$(dirname "$0")" || exit 2
V=$PWD
bash "$V/setup.sh" >/dev/null 2>&1
[ -x "$V/.bin/gocv" ] || { bash "$V/setup.sh"; echo "gocv does not build"; exit 2; }
exec "$V/.bin/gocv" check -verif "$V" -repo "${VERIF_REPO:-/repo}" -prop "$1"
