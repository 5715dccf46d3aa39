#!/bin/bash
# builds the checker once, so that the checks find a warm build cache
cd "$(dirname "$0")" || exit 1
. ./env.sh
tmp=$(mktemp -d /tmp/mcbuild.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
(cd mc && go build -o "$tmp/mc" .)
