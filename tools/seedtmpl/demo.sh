#!/bin/bash
# builds demo.cpp against the library sources in the current directory (/repo) and runs it
D=$(cd "$(dirname "$0")" && pwd); R=$(pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
F="-std=gnu++17 -g -O1 -w -DSTRING_NAMES=1 -DL1D_CACHE_LINE_SIZE=64 -DRDTSCP=1 -DNICE=1 -include cstdint -I$D -I$R -I$R/raftinc -pthread ${DEMO_FLAGS:-}"
S=$(sed -n '/set( *CPP_SRC_FILES/,/)/p' $R/src/CMakeLists.txt | grep -o '[a-z_A-Z]*\.cpp')
export F R T; printf '%s\n' $S | xargs -P 8 -I{} bash -c 'g++ $F -DLIBCOMPILE=1 -c $R/src/{} -o $T/{}.o' || exit 3
g++ $F "$D/demo.cpp" $T/*.o -o $T/demo || exit 3
cd "$T" && timeout ${DEMO_TIMEOUT:-60} ./demo; rc=$?
echo "demo exit $rc"; exit $rc
