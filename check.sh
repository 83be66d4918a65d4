#!/bin/bash
# check.sh ID [quick|thorough]: decides property ID on /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
tier=${2:-${VERIF_TIER:-quick}}
if [ ! -x "$here/bin/gosym" ]; then bash "$here/setup.sh" >/dev/null || exit 2; fi
mkdir -p "$here/evidence"
cd "$here" && exec ./bin/gosym -prop "$1" -tier "$tier" -repo /repo -verif "$here"
