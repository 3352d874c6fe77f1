#!/bin/sh
# usage: check.sh ID | check.sh replay FILE
cd /verif/sim || exit 2
. /verif/env.sh
mkdir -p /verif/build /verif/evidence
go build -o /verif/build/driver.$$ . || exit 2
mv /verif/build/driver.$$ /verif/build/driver || exit 2
case "$1" in
replay|determinism|list|build|debug) exec /verif/build/driver "$@" ;;
*) exec /verif/build/driver check "$@" ;;
esac
