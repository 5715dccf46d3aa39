#!/bin/bash
# check.sh ID [tier]     build the checker from /repo's working tree and decide property ID
# check.sh replay FILE   re-run the case of a replay file
# check.sh build DIR     build only, into DIR
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
tmp=$(mktemp -d /tmp/mcbuild.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/work" && export MC_TMP="$tmp/work"
if ! (cd mc && go build -o "$tmp/mc" . 2>"$tmp/err"); then
  cat "$tmp/err" >&2
  echo "check.sh: the code of /repo does not build with the checker" >&2
  exit 2
fi
case "$1" in
replay) "$tmp/mc" one "$2" ;;
build) cp "$tmp/mc" "$2/mc" ;;
*) "$tmp/mc" run "$@" ;;
esac
