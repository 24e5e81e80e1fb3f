#!/bin/bash
# Builds gogll from the current directory and runs steps.sh with it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
GOFLAGS="-mod=readonly -trimpath -buildvcs=false" go build -o "$d/gogll" . || exit 2
cd "$d" || exit 2
gogll() { timeout 60 "$d/gogll" "$@" >log 2>&1; }
printf 'package "d"\n\nS : "a" ta ;\nta : %s ;\n' "'x' 'y'" >g0.bnf
printf 'package "d"\n\nS : "a" ta | "bcd" S ta | tb ;\nta : %s ;\ntb : %s ;\n' "'x' 'y'" "'z' { letter }" >g1.bnf
printf 'package "d"\n\nS : "b" ta ;\nta : %s ;\n' "'x' 'w'" >g2.bnf
. "$here/steps.sh"
