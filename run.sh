#!/bin/sh
# run.sh ID TIER: build the check from the current tree and run it
cd "$(dirname "$0")" || exit 3
export VERIF_ROOT="$PWD"
build() { if ! python3 harness/build.py "$@" >build.log 2>&1; then cat build.log >&2; echo "check $2: build failed" >&2; exit 3; fi; }
build fast "$1"
[ "$1" != C17 ] || build fast lsqecc_slicer
flavor=fast
if [ "$1" = C21 ]; then
    # the same check against the default build first, then against a build with Gridsynth enabled
    build gridsynth C21
    rm -f evidence/replay/C21default.json
    VF_PART=default build/fast/C21 --tier "$2" || [ $? = 1 ] || exit 3
    export VF_C21_DEFAULT=1
    flavor=gridsynth
fi
exec "build/$flavor/$1" --tier "$2"
