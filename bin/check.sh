#!/bin/bash
# check.sh PROPERTY [extra arguments of "sim check"]
# Environment: VERIF_SEED (1), VERIF_TIER (quick).
prop=$1; shift
home=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
d=$(mktemp -d "${TMPDIR:-/tmp}/simcheck.XXXXXX") || exit 2
trap 'rm -rf "$d"' EXIT
if ! bash "$home/bin/build.sh" "$d" > "$d/build.log" 2>&1; then
    echo "ERROR: the simulator does not build against the current tree"
    tail -40 "$d/build.log"
    exit 2
fi
SIM_HOME=$home SIM_SITES=$d/sites.json "$d/sim" check -prop "$prop" \
    -tier "${VERIF_TIER:-quick}" -seed "${VERIF_SEED:-1}" "$@"
