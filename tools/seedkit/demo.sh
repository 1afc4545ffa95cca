#!/bin/bash
# run with cwd /repo: exit 0 when the property holds in the scenario of demo.cpp
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
python3 "$here/build.py" @LIB@ "$tmp/demo" demo.cpp @FLAGS@ || exit 3
cd "$tmp" && timeout 60 ./demo
