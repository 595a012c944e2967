#!/bin/bash
# engine_dir.sh DIR [REPO] [CXX-flags] [CC CXX]: builds the engine of REPO in DIR/build, incrementally; use it with
# DST_ENGINE=DIR/build (for coverage and mutations of the engine, not for checks)
set -e
D=$1 R=${2:-/repo} F=${3:--O0 -g0} C=${4:-gcc} X=${5:-g++}
export PATH=/opt/venv/bin:/usr/lib/llvm-16/bin:/usr/bin:/bin CC=$C CXX=$X WITHOUT_RPYTHON=1
mkdir -p $D/src
rsync -a --checksum --exclude=__pycache__ --exclude='*.so' --exclude='_simpll.c*' --exclude=/diffkemp/simpll/FunctionComparator.cpp --exclude=/diffkemp/simpll/FunctionComparator.h --exclude='*.o' \
	$R/CMakeLists.txt $R/diffkemp $R/tools $D/src/ 2>/dev/null || cp -a --update $R/CMakeLists.txt $R/diffkemp $R/tools $D/src/
mkdir -p $D/src/tests/unit_tests/simpll; touch $D/src/tests/unit_tests/simpll/CMakeLists.txt
[ -f $D/build/build.ninja ] || cmake -S $D/src -B $D/build -GNinja -DSANITIZE_ADDRESS=OFF -DVENDOR_GTEST=OFF \
	-DLLVM_DIR=/usr/lib/llvm-16/lib/cmake/llvm -DCMAKE_CXX_FLAGS="$F" -Wno-dev > $D/cmake.log
ninja -C $D/build simpll-lib simpll > $D/ninja.log || { tail -30 $D/ninja.log; exit 1; }
cd $D/src
SIMPLL_BUILD_DIR=$D/build PYTHONPATH=$D/src CFLAGS="$F" LDFLAGS="$6" python diffkemp/simpll/simpll_build.py > $D/cffi.log 2>&1 || { tail -30 $D/cffi.log; exit 1; }
cp $D/src/diffkemp/simpll/_simpll*.so $D/build/_simpll.abi3.so
