#!/bin/bash
# tools/seedbuild.sh ID...: builds the patched tree in a scratch copy and runs the unit tests (all patches at once with -a)
H="$(cd "$(dirname "$0")/.." && pwd)"; T=/tmp/seedbuild
one() {
  rm -rf $T/r; mkdir -p $T; git clone -q --shared ${BASE:-/repo} $T/r
  for id in "$@"; do git -C $T/r apply $H/seeded/$id/patch.diff || echo "APPLY-FAILED $id"; done
  cmake -S $T/r -B $T/b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O0 -Dpapilio_build_unit_test=ON -Dpapilio_build_example=ON -DFETCHCONTENT_FULLY_DISCONNECTED=ON -DFETCHCONTENT_SOURCE_DIR_GOOGLETEST=/usr/src/googletest >/dev/null 2>&1
  nice ninja -C $T/b -j${J:-8} > $T/build.log 2>&1 || { echo "$*: BUILD FAILED"; grep -m3 error: $T/build.log; return; }
  ctest --test-dir $T/b -j8 --timeout 300 > $T/test.log 2>&1; echo "$*: $(grep 'tests passed' $T/test.log)"; grep -A20 'The following tests FAILED' $T/test.log
}
if [ "$1" = -a ]; then shift; one "$@"; else for i in "$@"; do one $i; done; fi
