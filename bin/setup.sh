#!/bin/bash
# Builds the simulator once, which warms Go's build cache and shows that the
# toolchain works. The checks rebuild it from /repo's current tree.
home=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/simsetup.XXXXXX") || exit 2
trap 'rm -rf "$d"' EXIT
bash "$home/bin/build.sh" "$d" || exit 2
SIM_HOME=$home SIM_SITES=$d/sites.json "$d/sim" selftest 8
