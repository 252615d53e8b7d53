"""Mechanical extraction: harness TU + real /repo sources -> LLVM IR for the verifier.

Nothing is edited by hand: clang compiles the real headers/sources, the pass pipeline only
inlines and canonicalises (no loop transformation, no strict-aliasing assumption)."""
import os, re, subprocess, tempfile, hashlib
REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18' if os.path.exists('/usr/bin/clang++-18') else 'clang++'
OPT = '/usr/lib/llvm-18/bin/opt'
FLAGS = ('-std=c++20 -O1 -Xclang -disable-llvm-passes -fno-strict-aliasing '
         '-fsanitize=undefined -fno-sanitize=pointer-overflow,alignment,vptr,function,object-size,null,nonnull-attribute,returns-nonnull-attribute '
         '-fsanitize-trap=undefined -S -emit-llvm -w').split()
PASSES = 'globaldce,always-inline,globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg,sroa,instcombine<no-verify-fixpoint>,simplifycfg,adce)'

class BuildError(Exception): pass

def build_ir(src, outdir, keep=(), defs=(), passes=PASSES, drop=(), flags=()):
    """`drop`: bodies not extracted (a call of such a function is an obligation that cannot be discharged)
    compile harness `src`; functions whose mangled name matches a regex in `keep` are not inlined
    (they are replaced by their contract, or verified on their own)"""
    os.makedirs(outdir, exist_ok=True)
    base = os.path.join(outdir, os.path.splitext(os.path.basename(src))[0])
    cmd = [CLANG] + FLAGS + ['-I' + REPO + '/include', '-I' + REPO, '-I' + HERE + '/harness'] + ['-D' + d for d in defs] + list(flags) + [src, '-o', base + '.0.ll']
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise BuildError('clang failed on %s:\n%s' % (src, r.stderr[-4000:]))
    t = open(base + '.0.ll').read()
    t = re.sub(r'^(attributes #\d+ = \{)(.*)$', lambda m: m.group(1) + re.sub(r'\b(noinline|optnone|alwaysinline)\b', '', m.group(2)), t, flags=re.M)
    keeps = [re.compile(k) for k in keep]; drops = [re.compile(k) for k in drop]
    out = []; skip = False
    for l in t.split('\n'):
        if skip:
            if l == '}': skip = False
            continue
        if l.startswith('define '):
            m = re.search(r'@(?:"([^"]+)"|([^\s"(]+))\(', l)
            nm = m.group(1) or m.group(2)
            if any(k.match(nm) for k in drops):
                i = close_paren(l, m.end() - 1)
                out.append(re.sub(r'\b(linkonce_odr|weak_odr|internal|linkonce|weak|available_externally|dso_local|hidden|protected) ', '', 'declare ' + l[7:i + 1])); skip = True
                continue
            kp = nm.startswith('h_') or any(k.match(nm) for k in keeps)
            l = l[:l.rindex('{')]
            i = close_paren(l, m.end() - 1)
            rest = l[i + 1:]
            mm = re.match(r'( (?:local_)?unnamed_addr)?(.*)$', rest)
            l = l[:i + 1] + (mm.group(1) or '') + (' noinline' if kp else ' alwaysinline') + mm.group(2) + '{'
        out.append(l)
    open(base + '.1.ll', 'w').write('\n'.join(out))
    import resource
    r = subprocess.run([OPT, '-S', '-passes=' + passes, base + '.1.ll', '-o', base + '.ll'], capture_output=True, text=True, preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
    if r.returncode: raise BuildError('opt failed (%d): %s' % (r.returncode, r.stderr[-3000:]))
    for x in ('.0.ll', '.1.ll'): os.unlink(base + x)
    return base + '.ll'

def close_paren(l, i):
    d = 0
    while True:
        c = l[i]
        if c == '"':
            i = l.index('"', i + 1)
        elif c == '(': d += 1
        elif c == ')':
            d -= 1
            if d == 0: return i
        i += 1
