#!/bin/bash
# Checks that the monitors build offline (each check builds its own copy again).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
cp "$here"/harness/*.go "$here"/harness/go.mod "$here"/harness/go.sum "$tmp"/ && cd "$tmp" && go build -o verif .
