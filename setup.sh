#!/bin/bash
# Warms the Go build cache; the checks build what they need themselves.
cd "$(dirname "$0")" || exit 1
. ./goenv.sh
W=$(mktemp -d /tmp/ninepverif.XXXXXX) || exit 1
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/gopath/src/github.com/Harvey-OS" "$W/gopath/src/harness"
ln -s "${NINEP_REPO:-/repo}" "$W/gopath/src/github.com/Harvey-OS/ninep"
cp harness/*.go "$W/gopath/src/harness/"
cd "$W/gopath/src/harness" && GOPATH=$W/gopath go build -o "$W/h" . || exit 1
GOPATH=$W/gopath GOARCH=386 CGO_ENABLED=0 go build -o "$W/h" . >/dev/null 2>&1
GOPATH=$W/gopath go build -race -o "$W/h" . >/dev/null 2>&1
echo ok
