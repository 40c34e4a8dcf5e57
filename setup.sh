#!/bin/bash
# Builds both variants of the simulator once, which fills the build cache.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
t=$(mktemp -d) || exit 1
trap 'rm -rf "$t"' EXIT
./run.sh build "$t/a" && ./run.sh build "$t/b" race
