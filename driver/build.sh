#!/bin/bash
# builds the MIR dumper with the installed nightly (no dependency)
set -e
cd "$(dirname "$0")"
mkdir -p ../build/tmp.$$
rustc +nightly -O --edition 2021 -Awarnings main.rs --out-dir ../build/tmp.$$
mv ../build/tmp.$$/main ../build/mirdump
rmdir ../build/tmp.$$
