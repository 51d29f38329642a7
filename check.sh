#!/bin/bash
# check.sh ID [thorough]: rebuilds the simulator from /repo's working tree and runs one property check.
cd "$(dirname "$0")" || exit 2
case $1 in
C13) kind=race ;;
C16|C17|C18) kind=cli ;;
C20) kind=hook ;;
*) kind=lib ;;
esac
./build.sh $kind || exit 2
[ "$2" = thorough ] && export VERIF_TIER=thorough
exec ./build/vsim-$kind check "$1"
