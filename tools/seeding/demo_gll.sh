#!/bin/bash
# Generates a parser from g.bnf with gogll built from the current directory and runs main.go.txt on it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 GOFLAGS="-mod=mod -trimpath -buildvcs=false"
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
GOFLAGS="-mod=readonly -trimpath -buildvcs=false" go build -o "$d/gogll" . || exit 2
mkdir "$d/m"; cp go.sum "$d/m/"
printf 'module demo\n\ngo 1.15\n\nrequire github.com/goccmack/goutil v1.2.3\n' > "$d/m/go.mod"
cp "$here/g.bnf" "$d/m/g.bnf"
cd "$d/m" || exit 2
"$d/gogll" $(cat "$here/flags" 2>/dev/null) -o . g.bnf >/dev/null || exit 1
cp "$here/main.go.txt" main.go
if [ -f "$here/ast.go.txt" ]; then cp "$here/ast.go.txt" ast/ast.go; fi
go build -o "$d/demo" . || exit 1
timeout 60 "$d/demo"
