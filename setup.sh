#!/bin/bash
# Builds the framework once, to fail early when the toolchain is missing.
cd "$(dirname "$0")" || exit 2
. ./env.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cd mc && go vet ./... && go build -mod=mod -o "$d/mc" .
