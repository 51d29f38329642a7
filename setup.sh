#!/bin/bash
# Builds every simulator binary once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 2
for k in lib hook cli race; do ./build.sh $k || exit 2; done
