"""Runs the verification tasks of one property, writes evidence, reports violations."""
import sys, os, time, json, multiprocessing as mp, traceback, subprocess, shutil, tempfile, importlib, signal
from . import ir, build
from .sym import *
HERE = build.HERE

class Task:
    """One function under contract.  setup(ex, st) -> (args, post(st, kind, value), templates)"""
    def __init__(s, name, fn, setup, unroll=4, timeout_ms=8000, limit=200, unroll_of=None, src=None, contracts=(), bounded=None, minpaths=1):
        s.name = name; s.fn = fn; s.setup = setup; s.unroll = unroll; s.tmo = timeout_ms; s.limit = limit
        s.unroll_of = unroll_of or {}; s.src = src; s.contracts = list(contracts); s.bounded = bounded; s.minpaths = minpaths
class Lemma:
    """gen() -> list of (label, formula): each formula must be valid"""
    def __init__(s, name, gen, timeout_ms=20000): s.name = name; s.gen = gen; s.tmo = timeout_ms; s.src = None; s.limit = 200; s.bounded = None

def run_lemma(t):
    res = dict(name=t.name, obl={}, fails=[], inv={}, backends={}, solver_s=0.0, trusted=[], contracts=[], paths=1, status='proved')
    t0 = time.time()
    for label, f in t.gen():
        s = z3.Solver(); s.set('timeout', t.tmo); s.add(z3.Not(f))
        r = s.check(); be = 'z3'
        if r == z3.unknown:
            try:
                with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh: fh.write('(set-logic ALL)\n' + s.to_smt2()); fn = fh.name
                o = subprocess.run(['cvc5', '--tlimit=%d' % t.tmo, fn], capture_output=True, text=True, timeout=t.tmo / 1000 + 10).stdout
                os.unlink(fn)
                if o.strip().startswith('unsat'): r = z3.unsat; be = 'cvc5'
            except Exception: pass
        if r == z3.unsat:
            res['obl'][label] = res['obl'].get(label, 0) + 1; res['backends'][be] = res['backends'].get(be, 0) + 1
        else:
            res['fails'].append(dict(label=label, detail=str(r), model=None, trace=[])); res['status'] = 'failed'
    res['wall'] = res['solver_s'] = time.time() - t0
    return res

def run_task(mods, t, deadline):
    if isinstance(t, Lemma): return run_lemma(t)
    res = dict(name=t.name, obl={}, fails=[], inv={}, backends={}, solver_s=0.0, trusted=[], contracts=[], paths=0, status='proved')
    t0 = time.time()
    cut = set(); covered = [0]
    m = mods[t.src]
    ex = None
    try:
        f = m.func(t.fn)
        if f is None or not f.defined: raise Unsupported('function %s is not in the module' % t.fn)
        stage = 0; tm = None; hints = {}
        for attempt in range(60):
            ex = Ex(m, contracts=t.contracts, timeout_ms=t.tmo, unroll=t.unroll)
            ex.deadline = min(t0 + t.limit, deadline)
            ex.cut = cut; ex.hints = hints; ex.unroll_of = dict(t.unroll_of)
            covered[0] = 0; npost = [0]
            try:
                st = ex.start()
                args, post, tm = t.setup(ex, st)
                stages = tm if isinstance(tm, (list, tuple)) else [tm]     # cheap invariant templates first
                ex.templates = stages[stage]
                if ex.check(st.pc, z3.BoolVal(True)) == 'unsat': raise Unsupported('contradictory precondition (vacuous contract)')
                ex.push_frame(st, f, args)
                def done(st, k, v):
                    npost[0] += 1
                    if covered[0] < 1 and ex.check(st.pc, z3.BoolVal(True)) != 'unsat': covered[0] += 1
                    post(st, k, v)
                ex.run(st, done)
                ex.termination()
                if ex.failures and ex.hinted: hints = {}; continue
                if ex.failures and stage + 1 < len(stages): stage += 1; cut = set(); hints = {}; continue
                break
            except NeedCut as e:
                if e.key in cut: raise Unsupported('loop %s:%s cannot be handled' % e.key)
                cut.add(e.key); hints = dict(hints); hints.update(ex.dead)
            except Stop:
                if ex.hinted: hints = {}; continue
                if stage + 1 < len(stages): stage += 1; cut = set(); hints = {}; continue
                break
        res['status'] = 'failed' if ex.failures else 'proved'
        if not ex.failures and (covered[0] < 1 or npost[0] < t.minpaths):
            res['status'] = 'unsupported'; res['fails'].append(dict(label='vacuity guard', detail='no feasible path reaches the postcondition', model=None, trace=[]))
    except VerifierTimeout:
        res['status'] = 'timeout'; res['fails'].append(dict(label='undecided within the time limit', detail='%.0f s' % (time.time() - t0), model=None, trace=[]))
    except Unsupported as e:
        res['status'] = 'unsupported'; res['fails'].append(dict(label='obligations not generated', detail='unsupported: %s' % e, model=None, trace=ex.where(ex.cur) if ex and getattr(ex, 'cur', None) and ex.cur.frames else []))
    except Exception as e:
        res['status'] = 'unsupported'; res['fails'].append(dict(label='obligations not generated', detail='internal: %r\n%s' % (e, traceback.format_exc()[-1800:]), model=None, trace=[]))
    if ex is not None:
        res['obl'] = dict(ex.obl); res['inv'] = {k: v[:25] for k, v in ex.inv_report.items()}
        res['backends'] = dict(ex.backends); res['solver_s'] = ex.stat['solver_s']; res['paths'] = ex.stat['paths']
        res['trusted'] = sorted(ex.trusted_used); res['contracts'] = sorted(ex.contract_used)
        res['stat'] = {k: v for k, v in ex.stat.items()}; res['covered'] = covered[0]
        for f in ex.failures:
            res['fails'].append(dict(label=f.label, detail=f.detail, model=f.model, trace=f.trace))
    res['wall'] = time.time() - t0
    return res

def worker(mods, tasks, i, deadline, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception: pass
    try: r = run_task(mods, tasks[i], deadline)
    except BaseException as e:
        r = dict(name=tasks[i].name, obl={}, fails=[dict(label='obligations not generated', detail='internal: %r' % e, model=None, trace=[])], inv={}, backends={}, solver_s=0, trusted=[], contracts=[], paths=0, status='unsupported', wall=0)
    conn.send(r); conn.close(); os._exit(0)

def run_all(mods, tasks, limit, jobs=None, verbose=False):
    jobs = jobs or min(8, os.cpu_count() or 4)
    deadline = time.time() + limit
    ctx = mp.get_context('fork')
    pend = list(range(len(tasks))); act = {}; out = [None] * len(tasks)
    pend.sort(key=lambda i: -getattr(tasks[i], 'weight', 0))
    while pend or act:
        while pend and len(act) < jobs:
            i = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(mods, tasks, i, deadline, b)); p.start(); b.close()
            act[i] = (p, a, time.time())
        done = []
        ready = mp.connection.wait([x[1] for x in act.values()], timeout=1.0)
        for i, (p, a, t0) in act.items():
            if a in ready:
                try: out[i] = a.recv()
                except EOFError: out[i] = None
                done.append(i); p.join()
            elif time.time() - t0 > tasks[i].limit + 60 or time.time() > deadline + 40:
                p.kill(); p.join(); done.append(i)
        for i in done:
            del act[i]
            if out[i] is None:
                out[i] = dict(name=tasks[i].name, obl={}, fails=[dict(label='undecided within the time limit', detail='killed', model=None, trace=[])], inv={}, backends={}, solver_s=0, trusted=[], contracts=[], paths=0, status='timeout', wall=0)
            if verbose:
                r = out[i]
                print('  %-34s %-11s %6.1fs obl=%d paths=%d' % (r['name'], r['status'], r['wall'], sum(r['obl'].values()), r['paths']), flush=True)
                for f in r['fails'][:3]:
                    print('     FAIL', f['label'], '|', f['detail'][-1500 if verbose > 1 else -150:].replace('\n', ' '), '|', str(f['trace'])[-300:])
                    if f['model'] and verbose > 1: print('        ' + '\n        '.join(f['model'][:40]))
                if verbose > 1: 
                    for k, v in r['inv'].items(): print('     inv', k, v)
    return out

# ------------------------------------------------------------------ replay against the real code
def replay(mod, tmp, fails, seed, tier):
    """compile the concrete driver against /repo and look for a failing input.  -> (text or None, log)"""
    drv = getattr(mod, 'REPLAY', None)
    if not drv: return None, 'no replay driver'
    srcs = getattr(mod, 'REPLAY_SRC', [])
    repo = build.REPO
    exe = os.path.join(tmp, 'replay')
    base = ['g++', '-std=c++20', '-O1', '-g1', '-w', '-DNDEBUG', '-I' + repo + '/include', '-I' + repo, '-I' + HERE + '/replay']
    san = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=null,alignment,nonnull-attribute,returns-nonnull-attribute,vptr,pointer-overflow']
    cmds = [base + san + ['-c', s, '-o', os.path.join(tmp, 'r%d.o' % i)] for i, s in enumerate([os.path.join(HERE, 'replay', drv)] + [os.path.join(repo, x) for x in srcs])]
    ps = [subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for c in cmds]
    log = ''
    ok = True
    for p in ps:
        o, _ = p.communicate(timeout=400)
        if p.returncode: ok = False; log += o[-3000:]
    if not ok: return None, 'replay driver does not compile:\n' + log
    r = subprocess.run(['g++'] + san + ['-o', exe] + [c[-1] for c in cmds], capture_output=True, text=True)
    if r.returncode: return None, 'replay driver does not link:\n' + r.stderr[-3000:]
    env = dict(os.environ); env['ASAN_OPTIONS'] = 'detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1'; env['UBSAN_OPTIONS'] = 'print_stacktrace=0:exitcode=99'
    hint = ' '.join(f['name'] for f in fails)
    try: r = subprocess.run([exe, str(seed), '120' if tier == 'thorough' else '60', hint], capture_output=True, timeout=260, env=env)
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b'').decode('utf-8', 'replace')
        if 'CASE ' in o or True: return ('the real code does not terminate; last case: ' + o[-500:]) if getattr(mod, 'REPLAY_HANG', True) else None, 'timeout'
    o = r.stdout.decode('utf-8', 'replace'); e = r.stderr.decode('utf-8', 'replace')
    if r.returncode == 0: return None, o[-1500:]
    return 'exit %d\n%s\n%s' % (r.returncode, o[-3000:], e[-3000:]), o[-1500:]

def main(pid, argv=()):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1); tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    verbose = argv.count('-v')
    mod = importlib.import_module('props.' + pid.lower())
    tmp = tempfile.mkdtemp(prefix='vc_%s_' % pid)
    evd = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence')); evp = os.path.join(evd, pid + '.json'); os.makedirs(os.path.dirname(evp), exist_ok=True)
    rpath = os.path.join(evd, 'replay-%s.txt' % pid)
    try:
        if os.path.exists(rpath): os.unlink(rpath)
        buildfail = None
        mods = {}
        try:
            specs = mod.SOURCES
            ps = []
            ctx = mp.get_context('fork')
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as tp:
                fut = {k: tp.submit(build.build_ir, os.path.join(HERE, 'harness', s['src']), os.path.join(tmp, k or 'm'), s.get('keep', ()), s.get('defs', ()), drop=s.get('drop', ()), flags=s.get('flags', ())) for k, s in specs.items()}
                for k, f in fut.items(): mods[k] = ir.Module(open(f.result()).read())
        except build.BuildError as e: buildfail = str(e)
        tb = time.time() - t0
        if buildfail:
            results = [dict(name='extraction', obl={}, fails=[dict(label='obligations not generated', detail=buildfail, model=None, trace=[])], inv={}, backends={}, solver_s=0, trusted=[], contracts=[], paths=0, status='build', wall=tb)]
        else:
            tasks = mod.tasks(tier)
            only = [a[2:] for a in argv if a.startswith('-t')]
            if only: tasks = [t for t in tasks if any(o in t.name for o in only)]
            for t in tasks:
                if t.src is None and not isinstance(t, Lemma): t.src = list(mods)[0]
            results = run_all(mods, tasks, float(os.environ.get('VERIF_LIMIT', 420 if tier == 'quick' else 1500)), verbose=verbose)
        fails = [r for r in results if r['status'] != 'proved']
        nobl = sum(sum(r['obl'].values()) for r in results); nf = sum(len(r['fails']) for r in results)
        known = []
        viol = 0
        if buildfail and 'error:' in buildfail and not os.environ.get('VERIF_REPLAY_ON_BUILD'):
            # the public interface the harness is written against is gone: not a verdict
            write_evidence(evp, pid, tier, seed, mod, results, time.time() - t0, 0, tb)
            sys.stderr.write(buildfail + '\n'); return 2
        if fails:
            viol = 1
            found, log = (None, 'skipped') if '-nr' in argv else replay(mod, tmp, fails, seed, tier)
            with open(rpath, 'w') as f:
                f.write('property %s: obligations that the verifier did not accept\n' % pid)
                for r in fails:
                    for x in r['fails']:
                        f.write('\n[%s] %s (%s)\n  %s\n  at %s\n' % (r['name'], x['label'], r['status'], x['detail'], x['trace']))
                        if x['model']: f.write('  verifier counterexample:\n    ' + '\n    '.join(x['model']) + '\n')
                if found: f.write('\nreplay on the real code (driver replay/%s, seed %d): FAILING INPUT\n%s\n' % (mod.REPLAY, seed, found))
                else: f.write('\nreplay on the real code: no failing input found\n%s\n' % log)
            lines = []
            for r in fails:
                for x in r['fails']:
                    l = 'FAILED OBLIGATION [%s] %s: %s' % (r['name'], x['label'], x['detail'][:200].replace('\n', ' '))
                    if l not in lines: lines.append(l)
            if not verbose:
                for l in lines[:25]: print(l)
                if len(lines) > 25: print('... %d more, see the replay file' % (len(lines) - 25))
            if found: print('failing input: ' + found[:600])
            print('VIOLATION property=%s replay=%s%s' % (pid, rpath, '' if found else ' no-failing-input-found'))
        elif tier == 'thorough' and '-nr' not in argv and not only:
            # every obligation is discharged; additionally drive the real code against the independent oracle
            found, log = replay(mod, tmp, [], seed, tier)
            if found:
                viol = 1
                open(rpath, 'w').write('property %s: all obligations discharged, but the replay driver %s (seed %d) found a failing input\n%s\n' % (pid, mod.REPLAY, seed, found))
                print('failing input: ' + found[:600])
                print('VIOLATION property=%s replay=%s' % (pid, rpath))
        for l in getattr(mod, 'KNOWN', []): print('KNOWN-FINDING: property=%s %s' % (pid, l))
        write_evidence(evp, pid, tier, seed, mod, results, time.time() - t0, viol, tb)
        if not viol: print('%s: %d functions/lemmas, %d obligations discharged, %.1f s (extraction %.1f s)' % (pid, len(results), nobl, time.time() - t0, tb))
        return 1 if viol else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def write_evidence(path, pid, tier, seed, mod, results, wall, viol, tb):
    bounded = []
    be = {}
    for r in results:
        for k, v in r['backends'].items(): be[k] = be.get(k, 0) + v
    nobl = sum(sum(r['obl'].values()) for r in results); nf = sum(len(r['fails']) for r in results)
    trusted = sorted({x for r in results for x in r['trusted']} | set(getattr(mod, 'TRUSTED', [])))
    ev = dict(property=pid, tier=tier, seed=seed, level='proof', wall_s=round(wall, 2), violations=viol,
              coverage=dict(obligations=nobl + nf, discharged=nobl,
                            checker_cmd='./check %s  (vc/sym.py: VC generation over clang-extracted LLVM IR; queries decided by z3 %s, cvc5 as second back end)' % (pid, z3.get_version_string()),
                            trusted_base=trusted or ['clang/LLVM front end', 'vc engine', 'z3'],
                            functions_under_contract=[r['name'] for r in results], functions=len(results),
                            solver_queries_by_backend=be, solver_s=round(sum(r['solver_s'] for r in results), 2), extraction_s=round(tb, 2),
                            paths=sum(r['paths'] for r in results),
                            obligations_by_function={r['name']: dict(status=r['status'], discharged=r['obl'], paths=r['paths'], seconds=round(r['wall'], 1), failed=[f['label'] for f in r['fails']], assumed_contracts=r['trusted'], verified_contracts_used=r['contracts'], invariants=r['inv']) for r in results}),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + GENERAL)
    json.dump(ev, open(path, 'w'), indent=1, default=str)
GENERAL = ['the VC generator (vc/), the LLVM IR semantics it encodes, clang-18 as the extractor (libstdc++ 13, x86-64), z3 5 / cvc5 1.1 are trusted',
           'loops are proved to terminate (a decreasing measure per loop); recursion is followed to its end; floating point is uninterpreted; allocation failure is not modelled',
           'the extraction drops nothing but inlines calls and canonicalises straight-line code; the own PAPILIO_ASSERT conditions are compiled in and are obligations']
