#!/bin/bash
# Builds the symbolic execution engine from the committed sources (offline).
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
mkdir -p "$here/bin" "$here/evidence"
cd "$here/gosym" && go build -o "$here/bin/gosym" . && echo "built bin/gosym"
