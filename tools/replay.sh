#!/bin/bash
# build and run a replay driver by hand: tools/replay.sh 04 [seed] [seconds]
H="$(cd "$(dirname "$0")/.." && pwd)"; R=${VERIF_REPO:-/repo}; T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -g1 -w -DNDEBUG -I$R/include -I$R -I$H/replay -fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=null,alignment,nonnull-attribute,returns-nonnull-attribute,vptr,pointer-overflow -o $T/r $H/replay/r$1.cpp $(for f in ${SRCS:-utf/codepoint utf/string utf/stralgo}; do echo $R/src/$f.cpp; done) || exit 3
ASAN_OPTIONS=detect_leaks=1 $T/r ${2:-1} ${3:-60}
