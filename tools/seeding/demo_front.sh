#!/bin/bash
# Runs gogll, built from the current directory, on sources and compares exit status and message.
here=$(cd "$(dirname "$0")" && pwd)
export GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
GOFLAGS="-mod=readonly -trimpath -buildvcs=false" go build -o "$d/gogll" . || exit 2
cd "$d" || exit 2
for f in "$here"/case*.bnf; do
  n=$(basename "$f" .bnf)
  mkdir "$n"; cp "$f" "$n/g.bnf"
  (cd "$n"; timeout 60 ../gogll $(cat "$here/flags" 2>/dev/null) -o . g.bnf >out 2>&1; echo "rc=$?" >>out)
  if ! grep -qF -- "$(cat "$here/$n.want")" "$n/out"; then
    echo "$n: wanted $(cat "$here/$n.want")"; cat "$n/out"; exit 1
  fi
done
