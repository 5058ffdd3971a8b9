#!/bin/bash
# build the driver into $1
set -e
cd "$(dirname "$0")"
exec rustc +nightly --edition 2021 -O -Awarnings src/main.rs -o "$1"
