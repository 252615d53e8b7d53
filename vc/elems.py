"""Ghost model of container elements: for every memory region the verifier keeps which elements live where and what their value is.
0: no element (raw storage); 1: a moved-from element; >= 2: an element with that value.  Element operations are calls (harness/elem.hpp)
whose contracts check and update this state; the bytes themselves are never read."""
import z3
from .sym import *
from .specs import contract
from .ir import INT
DEAD, MOVED = 0, 1
class G:
    """ghost cell: the elements of one region, addressed by byte offset"""
    __slots__ = ('arr', 'rid')
    def __init__(s, arr, rid): s.arr = arr; s.rid = rid
    def havoc(s, ex, st):
        ex.cnt += 1
        return G(ABase(8, z3.Function('el_%d!%d' % (s.rid, ex.cnt), z3.IntSort(), z3.IntSort())), s.rid)
def default_ghost(k): return G(ABase(8, lambda o: IV(DEAD)), k[1]) if k[0] == 'el' else None
def key(rid): return ('el', rid)
def arr(ex, st, rid):
    g = st.ghost.get(key(rid))
    if g is None:
        g = st.ghost[key(rid)] = G(ABase(8, lambda o: IV(DEAD)), rid)
    return g.arr
def put(ex, st, rid, a): st.ghost[key(rid)] = G(a, rid)
def get(ex, st, p): return ii(arr(ex, st, p.r).sel(ex, st, p.o))
class Elems:
    def __init__(s, esz=8, stride=None):
        s.esz = esz; s.stride = stride or esz; s.store = {}     # region -> (lo, hi): the part that may hold elements
        s.ord = {}; s.bases = {}; s.base_of_size = {}; s.onless = None; s.lean = True; s.pm = True; s.ends = False
    def seq(s, ex, st, rid, n, name='x'):
        """region rid holds n elements of arbitrary values at its beginning, and raw storage behind them"""
        ex.cnt += 1; f = z3.Function('%s!%d' % (name, ex.cnt), z3.IntSort(), z3.IntSort()); e = s.esz
        def hook(x, t, o):
            o = ii(o); k = ('seq', f.name(), o.get_id())
            if k in t.seen: return
            t.seen.add(k); x.keep.append(o)
            inn = z3.And(o >= 0, o < e * ii(n), o % e == 0)
            x.add(t, z3.And(z3.Implies(inn, f(o) >= 1), z3.Implies(z3.Not(inn), f(o) == DEAD)), 'u')
        a = ABase(8, f, hook, name); st.ghost[key(rid)] = G(a, rid)
        return a
    def one(s, ex, st, v, name='e'):
        """a region holding one element of value v"""
        rid = ex.region(st, s.esz, 'param', name, Cells({}, 'undef'))
        st.ghost[key(rid)] = G(ABase(8, lambda o: z3.If(ii(o) == 0, ii(v), IV(DEAD))), rid)
        return rid
    def here(s, ex, st, p, what):
        p, r = ex.access(st, p, s.esz, what)
        if p.r in s.store: 
            lo, hi = s.store[p.r]
            ex.prove(st, And(ULE(lo, p.o), ULE(Add(p.o, s.esz), hi)), 'elements live in the storage for elements')
        return p
    def set(s, ex, st, p, v): put(ex, st, p.r, AStore(arr(ex, st, p.r), p.o, v))
    def contracts(s):
        LBL = dict(free='an element is constructed in free storage', live='only a live element is used')
        def src(ex, st, p):
            p = s.here(ex, st, p, 'load'); v = get(ex, st, p); ex.prove(st, v != DEAD, LBL['live']); return p, v
        def make(ex, st, a, ins):
            p = s.here(ex, st, a[0], 'store'); ex.prove(st, get(ex, st, p) == DEAD, LBL['free']); s.set(ex, st, p, ii(a[1]))
        def copy(ex, st, a, ins):
            q, v = src(ex, st, a[1]); p = s.here(ex, st, a[0], 'store'); ex.prove(st, get(ex, st, p) == DEAD, LBL['free']); s.set(ex, st, p, v)
        def move(ex, st, a, ins):
            q, v = src(ex, st, a[1]); p = s.here(ex, st, a[0], 'store'); ex.prove(st, get(ex, st, p) == DEAD, LBL['free']); s.set(ex, st, p, v); s.set(ex, st, q, IV(MOVED))
        def asgc(ex, st, a, ins):
            q, v = src(ex, st, a[1]); p, _ = src(ex, st, a[0]); s.set(ex, st, p, v)
        def asgm(ex, st, a, ins):
            q, v = src(ex, st, a[1]); p, _ = src(ex, st, a[0]); s.set(ex, st, p, v); s.set(ex, st, q, IV(MOVED))
        def dtor(ex, st, a, ins):
            p, _ = src(ex, st, a[0]); s.set(ex, st, p, IV(DEAD))
        def less(ex, st, a, ins):
            p, v = src(ex, st, a[0]); q, w = src(ex, st, a[1])
            if s.onless: s.onless(st, p); s.onless(st, q)
            return v < w
        def ptr(ex, st, a, ins): st.ghost[('ptr',)] = st.ghost.get(('ptr',), ()) + ((a[0], a[1]),)
        def num(ex, st, a, ins): st.ghost[('num',)] = st.ghost.get(('num',), ()) + ((a[0], a[1]),)
        def dele(ex, st, a, ins):
            p = a[0]
            if isinstance(p, Ptr) and p.r != 0 and not st.ghost.get(('freed', p.r)): s.all_dead(ex, st, p.r, 'no element is left in storage that is given back')
            if len(a) > 1 and isinstance(p, Ptr) and p.r != 0 and ins.a[0][1] in ('_ZdlPvm', '_ZdaPvm'): ex.prove(st, Eq(a[1], ex.regions[p.r].size), 'storage is given back with its size')
            return BUILTIN['_ZdlPv'](ex, st, a, ins)
        def new(ex, st, a, ins):
            p = BUILTIN['_Znwm'](ex, st, a, ins); arr(ex, st, p.r); return p
        return [contract('^vc_%s$' % n, f, 'monitor vc_' + n, trusted=False) for n, f in
                dict(make=make, copy=copy, move=move, asgc=asgc, asgm=asgm, dtor=dtor, less=less, ptr=ptr, num=num).items()] + [contract('^_Zd[la]Pvm?$', dele, 'operator delete'), contract('^_Zn[wa]m$', new, 'operator new (returns a fresh object of the requested size)')]
    def some(s, ex, name='o'):
        """an arbitrary element offset"""
        ex.cnt += 1; return z3.Int('%s!%d' % (name, ex.cnt)) * s.esz
    def all(s, ex, st, rid, lo, hi, f, label):
        o = s.some(ex); x = ii(arr(ex, st, rid).sel(ex, st, o))
        ex.prove(st, z3.Implies(z3.And(o >= ii(lo), o < ii(hi)), bl(f(o, x))), label)
    def all_dead(s, ex, st, rid, label):
        if key(rid) not in st.ghost: return
        o = s.some(ex); b = s.base(ex, rid); ex.prove(st, z3.Implies(z3.And(o >= b, o < ii(ex.regions[rid].size)), ii(arr(ex, st, rid).sel(ex, st, o)) == DEAD), label)
    def temps_dead(s, ex, st):
        """every temporary has been destroyed"""
        for g in list(st.ghost):
            if isinstance(g, tuple) and g[0] == 'el' and ex.regions[g[1]].kind == 'stack' and ex.regions[g[1]].size: s.all_dead(ex, st, g[1], 'every temporary is destroyed')
            if isinstance(g, tuple) and g[0] == 'el' and ex.regions[g[1]].kind == 'exc': pass
    # ---------------------------------------------------------------- invariant templates
    def ordered(s, ctx, a, b, x, y):
        """can the interval [x, y) between two fixed positions be non-empty?"""
        k = (ctx.key, a, b)
        if k not in s.ord: s.ord[k] = ctx.ex.feasible(ctx.est, ii(x) < ii(y))
        return s.ord[k]
    def base(s, ex, r):
        """where the elements of a region begin"""
        return s.bases.get(r, s.base_of_size.get(ex.regions[r].size if isc(ex.regions[r].size) else None, 0))
    def temp(s, ex, r): return ex.regions[r].kind == 'stack' and isc(ex.regions[r].size) and ex.regions[r].size <= s.stride
    def extra(s, bounds=(), shifts=(), also=None, wide=False, lvl=None):
        """candidates over the element arrays: on an interval between positions the code can name, the elements are those another
        (or the same) region had when the loop was entered, possibly displaced, or all raw, or all live.
        bounds: (name, offset from the first element); shifts: (name, displacement)"""
        e = s.stride; pm = s.pm and lvl != 0; lean = s.lean or lvl == 0 and s.lean is not None
        def ex_(ctx, u):
            ex = ctx.ex; res = []; N, NoVal = u['N'], u['NoVal']
            mods = [k[1][1] for k in ex.modset.get(ctx.key, ()) if k[0] == 'ghost' and isinstance(k[1], tuple) and k[1][0] == 'el']
            regs = [g[1] for g in ctx.est.ghost if isinstance(g, tuple) and g[0] == 'el' and not s.temp(ex, g[1]) and not ctx.est.ghost.get(('freed', g[1]))]
            src = [q for q in regs if not (isc(ex.regions[q].size) and ex.regions[q].size <= e)]
            ent = u['entry64']; guard = u['guard']
            terms = [('0', lambda env: IV(0))] + [('%s' % n, lambda env, v=v: ii(v)) for n, v in bounds]
            if s.ends: terms.append(('end', None))
            fixed = len(terms)
            ints = [n for n in u['ints64'] if not n.startswith('$')]
            P = lambda n, r: (lambda env, b=s.base(ex, r): z3.simplify(ii(N(env, n)) - b) if b else ii(N(env, n)))
            ptrs = [(n, r, P(n, r)) for n, r in u['ptrs'] if r != 0]
            for n, r in u['ptrs']:
                if r == 0 and ent(n) is not None: res.append(Cand('%s unchanged' % n, guard(lambda env, n=n: ii(N(env, n)) == ii(ent(n)))))
            for n in ints:
                terms.append(('%s*' % n, lambda env, n=n: e * ii(N(env, n))))
                for d in (-e, e) if wide else (): terms.append(('%s*%+d' % (n, d), lambda env, n=n, d=d: e * ii(N(env, n)) + d))
                for bn, b in bounds:
                    for d in (0, e): res.append(Cand('%s* >= %s%+d' % (n, bn, d), guard(lambda env, n=n, b=b, d=d: e * ii(N(env, n)) >= ii(b) + d)))
                    res.append(Cand('%s* <= %s' % (n, bn), guard(lambda env, n=n, b=b: e * ii(N(env, n)) <= ii(b))))
            for n, r, f in ptrs:
                t = '%s@%d' % (n, r); terms.append((t, f))
                for d in (-e, e) if pm or wide else (): terms.append(('%s%+d' % (t, d), lambda env, f=f, d=d: f(env) + d))
                res.append(Cand('%s is at a whole element' % n, guard(lambda env, f=f: f(env) % e == 0)))
                for bn, b in [('0', IV(0))] + list(bounds):
                    res.append(Cand('%s >= %s' % (n, bn), guard(lambda env, f=f, b=b: f(env) >= ii(b)))); res.append(Cand('%s <= %s' % (n, bn), guard(lambda env, f=f, b=b: f(env) <= ii(b))))
                for m in ints + [q for q, x, _ in ptrs if q != n]:
                    en, em = ent(n), ent(m)
                    if en is None or em is None: continue
                    k = e if m in ints else 1
                    for sg in (1, -1):
                        res.append(Cand('%s %+d*%s const' % (n, sg * k, m), guard(lambda env, n=n, m=m, en=en, em=em, k=k, sg=sg: ii(N(env, n)) + sg * k * ii(N(env, m)) == ii(en) + sg * k * ii(em))))
            sh = [('', IV(0))] + [('+%s' % n, ii(v)) for n, v in shifts]
            for r in mods:
                if s.temp(ex, r):
                    res.append(GCand('el%d: none' % r, r, None, None, lambda env, o, x: x == DEAD)); continue
                br = s.base(ex, r)
                if s.ends: top = z3.simplify(ii(ex.regions[r].size) - br); terms[fixed - 1] = ('end%d' % r, lambda env, top=top: top)
                for i, (a, fa) in enumerate(terms):
                    for j, (b, fb) in enumerate(terms):
                        if a == b or i < fixed and j < fixed and not s.ordered(ctx, a, b, fa(None), fb(None)): continue
                        lo = lambda env, f=fa, br=br: f(env) + br if br else f(env)
                        hi = lambda env, f=fb, br=br: f(env) + br if br else f(env)
                        if i < fixed and j < fixed and not s.wholes(a, b): continue
                        for q in src:
                            for sn, sv in sh:
                                if lean and q != r and sn: continue
                                def pr(env, o, x, q=q, sv=sv, br=br): return x == ii(ctx.est.ghost[key(q)].arr.sel(ex, env.st, z3.simplify(o + sv - br + s.base(ex, q))))
                                res.append(GCand('el%d[%s..%s) == el%d%s' % (r, a, b, q, sn), r, lo, hi, pr, s.esz))
                        res.append(GCand('el%d[%s..%s) none' % (r, a, b), r, lo, hi, lambda env, o, x: x == DEAD, s.esz))
                        if i == 0: res.append(GCand('el%d[%s..%s) live' % (r, a, b), r, lo, hi, lambda env, o, x: x != DEAD, s.esz))
                        if also:
                            for nm, f in also(ctx, r): res.append(GCand('el%d[%s..%s) %s' % (r, a, b, nm), r, lo, hi, f, s.esz))
            return res
        return ex_
    def wholes(s, a, b): return True

class GCand(Cand):
    """for every element offset o in [lo, hi) of region rid (all offsets when lo is None): pred(env, o, element)"""
    __slots__ = ('rid',)
    def __init__(s, label, rid, lo, hi, pred, esz=8):
        s.label = label; s.rid = rid
        def bounds(env):
            if lo is None: return None
            return ii(lo(env)), ii(hi(env))
        def ev(env):
            ex, st = env.ex, env.st
            g = st.ghost.get(key(rid))
            if g is None: return None
            a = g.arr
            try: bs = bounds(env)
            except Exception as x:
                if type(x).__name__ == 'NoVal': return None
                raise
            def guard(o): return z3.And(o >= bs[0], o < bs[1], o % esz == 0) if bs else z3.BoolVal(True)
            if env.kind == 'head':
                if not isinstance(a, ABase): return None
                old = a.hook
                def hook(ex_, t, o, a=a, old=old):
                    if old: old(ex_, t, o)
                    o = ii(o); k = ('gc', label, id(a), o.get_id())
                    if k in t.seen: return
                    t.seen.add(k); ex_.keep.append(o); ex_.keep.append(a)
                    ex_.add(t, z3.Implies(guard(o), bl(pred(Env(env.ctx, t, env.vals, 'head'), o, a.fn(o)))), 'u')
                a.hook = hook
                return True
            sk = env.__dict__.setdefault('sk', {}); k = esz if bs else 0       # one arbitrary offset for all candidates of a round
            if k not in sk: ex.cnt += 1; sk[k] = z3.Int('o!%d' % ex.cnt) * esz if bs else z3.Int('o!%d' % ex.cnt)
            o = sk[k]
            return z3.Implies(guard(o), bl(pred(env, o, ii(a.sel(ex, st, o)))))
        s.eval = ev
