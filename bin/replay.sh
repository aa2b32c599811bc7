#!/bin/bash
# replay.sh FILE: replays a minimised failure against the current tree.
home=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
f=$(realpath "$1")
d=$(mktemp -d "${TMPDIR:-/tmp}/simreplay.XXXXXX") || exit 2
trap 'rm -rf "$d"' EXIT
bash "$home/bin/build.sh" "$d" > "$d/build.log" 2>&1 || { tail -40 "$d/build.log"; exit 2; }
SIM_HOME=$home SIM_SITES=$d/sites.json "$d/sim" replay "$f"
