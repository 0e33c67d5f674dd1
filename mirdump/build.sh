#!/bin/sh
# builds the driver into .cache/mirdump
d=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$d/../.cache"
exec rustc +nightly --edition 2021 -O -o "$d/../.cache/mirdump" "$d/main.rs"
