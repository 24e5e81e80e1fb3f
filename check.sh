#!/bin/bash
# check.sh PROPERTY: run one check from /verif against /repo's working tree.
# Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Other: error of the check.
cd "$(dirname "$0")" || exit 2
verif=$PWD
. "$verif/env.sh"
scratch=$(mktemp -d "${TMPDIR:-/tmp}/mc.XXXXXXXX") || exit 2
trap 'rm -rf "$scratch"' EXIT
trap 'exit 3' TERM INT
(cd mc && go build -mod=mod -trimpath -buildvcs=false -o "$scratch/mc" .) || exit 2
"$scratch/mc" -property "$1" -dir "$scratch" -repo "${MC_REPO:-/repo}" -verif "$verif"
