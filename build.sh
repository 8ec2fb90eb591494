#!/bin/bash
# build.sh race|plain: builds the harness against /repo's working tree, prints the binary's path.
HERE=$(cd "$(dirname "$0")" && pwd)
. "$HERE/env.sh"
mkdir -p "$HERE/.build"
cd "$HERE/mon" || exit 3
case "$1" in
race) BIN=$HERE/.build/mon.race; ARGS=-race ;;
*) BIN=$HERE/.build/mon.plain; ARGS= ;;
esac
exec 9>"$HERE/.build/lock"; flock 9
go build $ARGS -o "$BIN" . >&2 || exit 3
echo "$BIN"
