#!/bin/bash
# Regenerates golden/ from the pinned revision of ot/succinct (the parent of every fix: commit).
set -e
cd "$(dirname "$0")/.."
BASE=${1:-8f0413d}
T=$(mktemp -d /tmp/golden.XXXXXX)
mkdir -p $T/src/succinct $T/top
git -C /repo archive $BASE | tar -x -C $T/top
ln -s $T/top $T/inc; mkdir $T/i2; ln -s $T/top $T/i2/succinct
printf '#pragma once\n#define SUCCINCT_USE_INTRINSICS 1\n' > $T/top/succinct_config.hpp
g++ -std=c++14 -w -O1 -DNDEBUG -I$T/top -I$T/i2 -Isrc src/gen_golden.cpp $T/top/rs_bit_vector.cpp $T/top/bp_vector.cpp -o $T/gen -lboost_iostreams -lpthread
rm -rf golden; mkdir golden
$T/gen golden
cd /; rm -rf "$T"
