#!/bin/bash
# tools/seedtest.sh ID...: in a scratch copy: demo on the clean tree, demo with the patch, the check of its property
H="$(cd "$(dirname "$0")/.." && pwd)"
for id in "$@"; do
  T=$(mktemp -d /tmp/st_XXXX); git clone -q --shared ${BASE:-/repo} $T/r; cd $T/r
  P=$(python3 -c "import json;print(json.load(open('$H/seeded/$id/meta.json'))['property'])")
  bash $H/seeded/$id/demo.sh >/dev/null 2>&1; a=$?
  git apply $H/seeded/$id/patch.diff || echo APPLY-FAILED
  bash $H/seeded/$id/demo.sh >/dev/null 2>&1; b=$?
  mkdir -p $T/ev; s=$(date +%s)
  out=$(VERIF_REPO=$T/r VERIF_EVIDENCE=$T/ev $H/check $P 2>&1); c=$?
  echo "$id: demo clean=$a patched=$b; check $P exit=$c $(($(date +%s)-s))s; $(echo "$out" | grep -o 'VIOLATION.*' | sed 's/replay=[^ ]*//'); $(echo "$out" | grep '^failing input' | cut -c1-160)"
  [ -n "$V" ] && echo "$out" | cut -c1-250 | head -${V}
  cd $H; rm -rf $T
done
