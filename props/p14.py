"""P14: automatic argument numbering and manual indexing cannot be mixed up."""
from vc.run import Task
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
SOURCES = {'m': dict(src='p14.cpp')}
REPLAY = 'r14.cpp'; REPLAY_SRC = ['src/%s.cpp' % x for x in 'core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general'.split()]
def mons(env):
    def evh(ex, st, a, ins):
        st.ghost[('ev',)] = st.ghost.get(('ev',), ()) + (tuple(a),); return None
    def none(ex, st, a, ins): return Ptr(ex.region(st, 256, 'param', 'none', Cells({}, 'zero')), 0)
    return [contract('^vc_none$', none, 'the arguments hold nothing', trusted=False), contract('^vc_ev$', evh, 'monitor vc_ev', trusted=False),
            contract('^vc_nargs$', lambda ex, st, a, ins: env['n'], 'the argument list: any number of indexed arguments', trusted=False),
            contract('^vc_hasname$', lambda ex, st, a, ins: env['has'], 'the argument list: any set of names', trusted=False)]
def B(x): return x if z3.is_bool(x) else bl(x) if isc(x) and not isinstance(x, bool) else z3.BoolVal(x) if isinstance(x, bool) else ii(x) != 0 if z3.is_int(x) else x != 0
def task(fn, args, spec):
    env = {}
    def s(ex, st):
        env['n'] = ex.fresh('nargs', 64, st); ex.add(st, ii(env['n']) < 1 << 40); env['has'] = ex.fresh('has', 1, st)
        k = ex.fresh('k', 64, st); ex.add(st, ii(k) < 1 << 40)
        av = [k]; S = None
        for x in args:
            if x == 'i': env['i'] = ex.fresh('i', 64, st); av.append(env['i'])
            if x == 's':
                n = ex.fresh('n', 64, st); ex.add(st, ii(n) <= 64); r = ex.region(st, n, 'param', 'name', Cells({}, 'lazy')); av += [Ptr(r, 0), n]
        def post(st, kd, v):
            ex.prove(st, kd == 'ret', 'no exception other than format_error')
            if kd != 'ret': return
            got = {}; evs = st.ghost.get(('ev',), ())
            for e in evs: got[e[0]] = e[1]
            for key, w, label in spec(env, ii(k)):
                if key not in got: ex.fail(st, label); continue
                g = got[key]
                ex.prove(st, B(g) == w if z3.is_bool(w) or isinstance(w, bool) else Eq(g, w), label)
        return av, post, Templates([], bounds=[('k', k, 0)], small=False)
    return Task(fn, fn, s, contracts=mons(env))
def sauto(e, k): return [(0, k, 'the automatic index is the number of indices handed out so far'), (1, False, 'automatic numbering is on'), (2, k + 1, 'next_arg_id advances by one'), (3, k + 1, 'current_arg_id follows'), (4, False, 'automatic numbering stays on')]
def smanual(e, k): return [(0, ii(e['i']) < ii(e['n']), 'a manual index is accepted exactly when there is such an argument'), (1, True, 'a manual request turns automatic numbering off'), (2, False, 'no automatic index after a manual one'), (3, False, 'no automatic index after a manual one'), (4, True, 'a refused request leaves the state alone'), (5, ii(e['i']) < ii(e['n']), 'manual indices stay available')]
def senable(e, k): return smanual(e, k)[1:]
def sname(e, k): return [(0, e['has'], 'a name is accepted exactly when there is such an argument'), (1, False, 'a name does not turn automatic numbering off'), (2, k, 'a name takes no index'), (3, k + 1, 'numbering goes on')]
def field(text, manual):
    fn = 'h_field'; env = {}
    def s(ex, st):
        env['n'] = ex.fresh('nargs', 64, st); ex.add(st, ii(env['n']) < 1 << 40); env['has'] = ex.fresh('has', 1, st)
        k = ex.fresh('k', 64, st); ex.add(st, ii(k) < 1 << 40)
        cells = {}
        r = ex.region(st, len(text), 'param', 'text', Cells({}, 'lazy'))
        for j, ch in enumerate(text):
            x = rd(ex, st, r, j, 1); ex.add(st, bv(x, 8) == ord(ch))
        dig = len(text) - len(text.lstrip('0123456789')); idx = int(text[:dig]) if dig else None
        auto = dig == 0
        def post(st, kd, v):
            evs = st.ghost.get(('ev',), ()); got = {}
            for e in evs: got.setdefault(e[0], e[1])
            ex.prove(st, kd == 'ret', 'no exception other than format_error')
            if kd != 'ret': return
            want = idx if not auto else ii(k)
            good = (not manual) if auto else ii(env['n']) > idx
            ex.prove(st, B(got[0]) == good, 'a field is accepted exactly when its numbering is allowed')
            ex.prove(st, B(got[2]) == (manual or not auto), 'only a manual field turns automatic numbering off')
            if 10 in got: ex.prove(st, Eq(got[10], want), 'the field refers to the argument with that index'); ex.prove(st, good, 'a refused field reads no argument'); ex.prove(st, Eq(got[1], dig), 'reading stops behind the index')
            else: ex.prove(st, Not(bl(good)) if isinstance(good, bool) else z3.Not(good), 'an accepted field reads its argument')
            if auto and not manual: ex.prove(st, 3 in got and Eq(got[3], k + 1), 'each empty field takes the next index')
        return [k, manual, Ptr(r, 0), len(text)], post, Templates([], bounds=[('k', k, 0)], small=False)
    return Task('h_field/%s%s' % (text, '/manual' if manual else ''), fn, s, contracts=mons(env))
def number(manual):
    """a field number of any length: it denotes the number written, and a number that does not fit denotes no argument"""
    env = {}; I = z3.IntSort(); MAX = (1 << 64) - 1
    def s(ex, st):
        env['n'] = ex.fresh('nargs', 64, st); ex.add(st, ii(env['n']) < 1 << 40); env['has'] = ex.fresh('has', 1, st)
        k = 0
        d = ex.fresh('digits', 64, st); ex.add(st, z3.And(ii(d) >= 1, ii(d) < 1 << 40))
        ex.cnt += 1; VAL = z3.Function('VAL!%d' % ex.cnt, I, I); box = []
        def hook(e, t, o):
            o = ii(o); f = box[0]; key = ('dg', o.get_id())
            if key in t.seen: return
            t.seen.add(key); ex.keep.append(o)
            c = z3.BV2Int(f(o)) if not z3.is_int(f(o)) else f(o)
            ex.add(t, z3.Implies(z3.And(o >= 0, o < ii(d)), z3.And(z3.UGE(f(o), 48), z3.ULE(f(o), 57), VAL(o + 1) == VAL(o) * 10 + ii(B2I(f(o))) - 48, VAL(o) <= VAL(ii(d)), VAL(o + 1) <= VAL(ii(d)), VAL(o) >= 0)), 'u')
            ex.add(t, z3.Implies(o == ii(d), f(o) == 125), 'u')
        r, f = ex.newarray(st, 'text', Add(d, 1), 1, hook=hook, const=True); box.append(f)
        ex.add(st, VAL(0) == 0); hook(ex, st, 0); hook(ex, st, d)
        sat = lambda x: z3.If(x > MAX, IV(MAX), x)
        def extra(ctx, u):
            out = []; N, guard = u['N'], u['guard']
            for n in [n for n, rid in u['ptrs'] if rid == r] + u['ints64']:
                for i in u['ints64']:
                    if i == n: continue
                    def g(env_, n=n, i=i):
                        if env_.kind != 'back': hook(ex, env_.st, N(env_, n))
                        return ii(N(env_, i)) == sat(VAL(ii(N(env_, n))))
                    out.append(Cand('%s is the number up to %s' % (i, n), guard(g)))
            return out
        def post(st, kd, v):
            got = {}
            for e in st.ghost.get(('ev',), ()): got.setdefault(e[0], e[1])
            ex.prove(st, kd == 'ret', 'no exception other than format_error')
            if kd != 'ret': return
            w = VAL(ii(d)); good = w < ii(env['n'])
            ex.prove(st, B(got[0]) == good, 'a numbered field is accepted exactly when there is an argument with that number')
            ex.prove(st, B(got[2]), 'a numbered field turns automatic numbering off')
            if 10 in got: ex.prove(st, ii(got[10]) == w, 'the field refers to the argument with the number written'); ex.prove(st, Eq(got[1], d), 'reading stops behind the index')
            else: ex.prove(st, z3.Not(good), 'an accepted field reads its argument')
        return [k, manual, Ptr(r, 0), Add(d, 1)], post, Templates([], bounds=[('d', d, r)], small=False, lean=True, extra=extra)
    return Task('h_field/number' + ('/manual' if manual else ''), 'h_field', s, contracts=mons(env))
def tasks(tier):
    T = [task('h_auto', '', sauto), task('h_manual', 'i', smanual), task('h_enable', 'i', senable), task('h_name', 's', sname)]
    for t in ('}', ':x}', '0}', '7:', '13}', '907]'): T += [field(t, False), field(t, True)]
    return T + [number(False), number(True)]
