#!/bin/bash
# mkdemo.sh ID: lays the demonstration crate of a planted bug into seeded/ID (keeps an existing main.rs)
set -e
v=$(cd "$(dirname "$0")/.." && pwd)
d=$v/seeded/$1
mkdir -p "$d/crate/src"
cp "$v/tools/demo/demo.sh" "$d/demo.sh"
cp -r "$v/tools/demo/crate/." "$d/crate/"
cp -r "$v/harness/shims" "$d/crate/"
cp -r "$v/harness/program" "$d/crate/"
for f in rt engine macros model world; do cp "$v/harness/src/$f.rs" "$d/crate/src/$f.rs"; done
