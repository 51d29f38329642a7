#!/bin/bash
# replay.sh FILE: rebuilds the simulator and replays one replay file (exit 1 if it fails as recorded).
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 2
case $id in C13) kind=race ;; C16|C17|C18) kind=cli ;; C20) kind=hook ;; *) kind=lib ;; esac
./build.sh $kind || exit 2
exec ./build/vsim-$kind replay "$f"
