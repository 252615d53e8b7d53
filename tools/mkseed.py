#!/usr/bin/env python3
"""tools/mkseed.py ID PROPERTY FILE  (reads OLD/NEW/DEMO/needs/breaks from a python dict file tools/seeds/ID.py): writes /verif/seeded/ID."""
import sys, os, subprocess, json, runpy, tempfile, shutil, stat
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(path):
    d = runpy.run_path(path)
    sid = os.path.splitext(os.path.basename(path))[0]
    out = os.path.join(H, 'seeded', sid); os.makedirs(out, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed_')
    try:
        subprocess.check_call(['git', 'clone', '-q', '--shared', os.environ.get('BASE', '/repo'), t + '/r'])
        for f, old, new in d['EDITS']:
            p = os.path.join(t, 'r', f); s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', t + '/r', 'diff'], text=True)
    finally: shutil.rmtree(t)
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.cpp', 'w').write(d['DEMO'])
    srcs = ' '.join(d.get('SRCS', ['utf/codepoint', 'utf/string', 'utf/stralgo']))
    open(out + '/demo.sh', 'w').write('''#!/bin/bash
# compiles demo.cpp against the working tree in the current directory and runs it
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"; T=$(mktemp -d) || exit 1; trap 'rm -rf "$T"' EXIT
S=""; for f in %s; do S="$S $R/src/$f.cpp"; done
g++ -std=c++20 -O1 -w %s -I"$R/include" -I"$R" -o "$T/demo" "$D/demo.cpp" $S || exit 1
timeout 120 "$T/demo"
''' % (srcs, d.get('FLAGS', '-DNDEBUG')))
    os.chmod(out + '/demo.sh', 0o755)
    json.dump(dict(property=d['PROPERTY'], needs=d['NEEDS'], what_it_breaks=d['BREAKS']), open(out + '/meta.json', 'w'), indent=1)
    print(sid, 'written')
for p in sys.argv[1:]: make(p)
