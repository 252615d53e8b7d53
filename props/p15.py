"""P15: small_vector is a sequence; every element and every allocated block has exactly one life.  Ghost elements: vc/elems.py."""
from vc.run import Task
from vc.ir import PTR
from vc.sym import *
from vc.specs import *
from vc.elems import *
from vc.utfspec import Templates
SOURCES = {'m': dict(src='p15.cpp', flags=('-fsized-deallocation',))}
REPLAY = 'r15.cpp'; REPLAY_SRC = ['src/container.cpp']
CAP = dict(l=100003, s=2, z=0); B = 24
LEN, OOR = '_ZTISt12length_error', '_ZTISt12out_of_range'
BIG = 1 << 40
class Vec:
    """a small_vector object: mode 's' (elements in the buffer), 'd' (elements in an allocated block), '0' (raw storage)"""
    def __init__(v, ex, st, E, T, mode, nm):
        v.ex = ex; v.E = E; v.T = T; v.C = C = CAP[T]; v.mode = mode
        v.size = max(B + 8 * C, 32 if not C else 0)
        v.P = ex.region(st, v.size, 'param', nm, Cells({}, 'undef')); E.store[v.P] = (B, B + 8 * C); E.bases[v.P] = B
        st.ghost[key(v.P)] = G(ABase(8, lambda o: IV(DEAD)), v.P)
        v.n = IV(0); v.cap = IV(C); v.old = None
        if mode == '0': return
        c = st.mem[v.P]
        v.n = ii(ex.fresh('n', 64, st))
        if mode == 's':
            ex.add(st, v.n <= C); v.R = v.P; v.b = B
            if not C: v.n = IV(0)
            end = z3.simplify(B + 8 * v.n)
            ps = [Ptr(v.P, B), Ptr(v.P, end), Ptr(v.P, B + 8 * C)] if C else [NULL] * 3
        else:
            v.cap = ii(ex.fresh('cap', 64, st)); ex.add(st, And(v.cap >= max(C, 1), v.cap <= BIG, v.n <= v.cap)); v.b = 0
            v.R = ex.region(st, z3.simplify(8 * v.cap), 'heap', 'block_' + nm, Cells({}, 'undef')); st.ghost[('heap', v.R)] = True
            ps = [Ptr(v.R, 0), Ptr(v.R, z3.simplify(8 * v.n)), Ptr(v.R, z3.simplify(8 * v.cap))]
        for i, q in enumerate(ps): c.d[8 * i] = (8, q)
        v.n0, v.cap0 = v.n, v.cap
        # elements of the region where they live
        ex.cnt += 1; f = z3.Function('%s!%d' % (nm, ex.cnt), z3.IntSort(), z3.IntSort()); n = v.n; b = v.b
        def hook(x, t, o):
            o = ii(o); k = ('seq', f.name(), o.get_id())
            if k in t.seen: return
            t.seen.add(k); x.keep.append(o); inn = z3.And(o >= b, o < b + 8 * n, o % 8 == 0)
            x.add(t, z3.And(z3.Implies(inn, f(o) >= 1), z3.Implies(z3.Not(inn), f(o) == DEAD)), 'u')
        a = ABase(8, f, hook, nm); st.ghost[key(v.R)] = G(a, v.R)
        v.old = lambda st, o, a=a, b=b: ii(a.sel(ex, st, z3.simplify(ii(o) + b)))      # by offset from the first element
    def holds(v, st, n, f, why, cap=None):
        """the representation is valid and the elements are f(0), f(8), ... f(8(n-1))"""
        ex = v.ex; C = v.C; ps = [ex.load(st, Ptr(v.P, 8 * i), PTR) for i in range(3)]
        if not all(isinstance(p, Ptr) for p in ps) or len({p.r for p in ps}) != 1: ex.fail(st, why + ': the three pointers designate one storage'); return
        r = ps[0].r; st.ghost[('owned', r)] = st.ghost.get(('owned', r), 0) + 1
        v.now = ps
        if r == v.P or r == 0:
            if C: ex.prove(st, r == v.P and And(Eq(ps[0].o, B), Eq(ps[2].o, B + 8 * C)), why + ': the static buffer is used as a whole'); b = B
            else: ex.prove(st, r == 0 and And(Eq(ps[0].o, 0), Eq(ps[2].o, 0), Eq(ps[1].o, 0)), why + ': no storage'); b = 0
            if not C: ex.prove(st, ii(n) == 0, why + ': size'); return
        else:
            ok = ex.regions[r].kind == 'heap' and not st.ghost.get(('freed', r)) and st.ghost[('owned', r)] == 1
            ex.prove(st, ok and And(Eq(ps[0].o, 0), ii(ps[2].o) == ii(ex.regions[r].size)), why + ': the block is allocated, alive and its own'); b = 0
            E = v.E; E.all(ex, st, v.P, B, B + 8 * C, lambda o, x: x == DEAD, why + ': nothing in the static buffer')
        ex.prove(st, And(ii(ps[1].o) == b + 8 * ii(n), ii(ps[1].o) <= ii(ps[2].o)), why + ': size')
        ex.prove(st, ii(ps[2].o) - ii(ps[0].o) >= 8 * C, why + ': the static capacity is available')
        if cap is not None: ex.prove(st, ii(ps[2].o) - ii(ps[0].o) >= 8 * ii(cap), why + ': capacity')
        E = v.E
        E.all(ex, st, r, b, b + 8 * ii(n), lambda o, x: x == ii(f(z3.simplify(o - b))), why + ': elements')
        E.all(ex, st, r, b + 8 * ii(n), ii(ps[2].o), lambda o, x: x == DEAD, why + ': nothing behind the end')
    def valid(v, st, why):
        """some valid state"""
        ex = v.ex; ps = [ex.load(st, Ptr(v.P, 8 * i), PTR) for i in range(3)]
        if not all(isinstance(p, Ptr) for p in ps) or len({p.r for p in ps}) != 1: ex.fail(st, why + ': the three pointers designate one storage'); return
        n = z3.simplify((ii(ps[1].o) - ii(ps[0].o)) / 8); r = ps[0].r; b = ii(ps[0].o)
        v.holds(st, n, lambda o: arr(ex, st, r).sel(ex, st, z3.simplify(b + o)), why)
        v.E.all(ex, st, r, b, b + 8 * n, lambda o, x: x != DEAD, why + ': live elements') if r else None
    def same(v, st, why): v.holds(st, v.n, lambda o: v.old(st, o), why)
def is_throw(ex, v, ti): return ti in ex.ti_bases(v[0])
def mk(op, T, m1, m2=None, alias=None):
    fn = 'h_%s_%s' % (op, T); C = CAP[T]
    def s(ex, st):
        E = Elems(); ex.contracts = E.contracts(); ex.ghost_default = default_ghost; E.lean = None if op.startswith('append') else True; E.ends = True; E.base_of_size = {max(B + 8 * C, 32 if not C else 0): B}
        V = Vec(ex, st, E, T, m1, 'p'); P = Ptr(V.P, 0)
        W = V if m2 == 'self' else Vec(ex, st, E, T, m2, 'q') if m2 else None
        bs = ([('n', 8 * V.n)] if m1 != '0' else []) + ([('m', 8 * W.n)] if W and W is not V else [])
        def val(nm):
            x = ex.fresh(nm, 64, st); ex.add(st, ii(x) >= 2); return ii(x)
        def tm(more=(), sh=(), also=None):
            return [Templates([], bounds=[], extra=E.extra(bs + [(a, ii(b)) for a, b in more], sh, also, w > 1, w), small=False) for w in (0, 1, 2)]
        def done(st):
            E.temps_dead(ex, st)
            for g in list(st.ghost):
                if isinstance(g, tuple) and g[0] == 'heap' and not st.ghost.get(('freed', g[1])): ex.prove(st, st.ghost.get(('owned', g[1])) == 1, 'every block is owned by one vector or was given back')
        def nothrow(st, k):
            ex.prove(st, k == 'ret', 'no exception'); return k == 'ret'
        def elems(name='src'):
            m = ii(ex.fresh('len', 64, st)); ex.add(st, m <= BIG); r = ex.region(st, z3.simplify(8 * m), 'param', name, Cells({}, 'undef'))
            a = E.seq(ex, st, r, m, name); return r, m, (lambda st, o: ii(a.sel(ex, st, z3.simplify(ii(o))))), a
        if op in ('default', 'alloc'):
            def post(st, k, v):
                if not nothrow(st, k): return
                V.holds(st, IV(0), lambda o: 0, 'empty'); done(st)
            return [P], post, tm()
        if op in ('range', 'il', 'assign', 'assignil', 'assignrange', 'assignin', 'append', 'appendin'):
            r, m, f, a = elems()
            def post(st, k, v):
                if not nothrow(st, k): return
                n0 = V.n if op.startswith('append') else IV(0)
                V.holds(st, n0 + m, lambda o: z3.If(ii(o) < 8 * n0, V.old(st, o), f(st, ii(o) - 8 * n0)) if op.startswith('append') else f(st, o), 'the elements of the range' if not op.startswith('append') else 'the elements, then those of the range')
                E.all(ex, st, r, 0, 8 * m, lambda o, x: x == f(st, o), 'the range is unchanged'); done(st)
            sh = [('-n', -8 * V.n)] if op.startswith('append') else []
            return [P, Ptr(r, 0), m if op in ('il', 'assignil') else Ptr(r, z3.simplify(8 * m))], post, tm([('len', 8 * m)], sh)
        if op in ('copy', 'copyassign'):
            def post(st, k, v):
                if not nothrow(st, k): return
                if W is V: V.same(st, 'unchanged')
                else: V.holds(st, W.n, lambda o: W.old(st, o), 'the elements of the other vector'); W.same(st, 'the other vector is unchanged')
                if op == 'copyassign': ex.prove(st, isinstance(v, Ptr) and v.r == V.P and Eq(v.o, 0), 'returns the vector')
                done(st)
            return [P, Ptr(W.P, 0)], post, tm()
        if op in ('move', 'moveassign'):
            def post(st, k, v):
                if not nothrow(st, k): return
                V.holds(st, W.n, lambda o: W.old(st, o), 'the elements of the other vector')
                if W is not V: W.valid(st, 'the other vector stays valid')
                if op == 'moveassign': ex.prove(st, isinstance(v, Ptr) and v.r == V.P and Eq(v.o, 0), 'returns the vector')
                done(st)
            return [P, Ptr(W.P, 0)], post, tm()
        if op in ('swap', 'fswap'):
            def post(st, k, v):
                if not nothrow(st, k): return
                if W is V: V.same(st, 'unchanged')
                else: V.holds(st, W.n, lambda o: W.old(st, o), 'the elements of the other vector'); W.holds(st, V.n, lambda o: V.old(st, o), 'and vice versa')
                done(st)
            return [P, Ptr(W.P, 0)], post, tm()
        if op == 'dtor':
            def post(st, k, v):
                if not nothrow(st, k): return
                E.all(ex, st, V.P, B, B + 8 * C, lambda o, x: x == DEAD, 'every element is destroyed')
                if m1 == 'd': ex.prove(st, bool(st.ghost.get(('freed', V.R))), 'the block is given back')
                done(st)
            return [P], post, tm()
        if op in ('reserve', 'shrink'):
            n = ii(ex.fresh('want', 64, st)) if op == 'reserve' else None
            def post(st, k, v):
                if k == 'throw': ex.prove(st, op == 'reserve' and n > T63 // 8 - 1, 'an exception only when the size is absurd'); ex.prove(st, not is_throw(ex, v, OOR), 'kind of exception')
                V.holds(st, V.n, lambda o: V.old(st, o), 'the elements are unchanged', n if k == 'ret' and op == 'reserve' else None)
                if op == 'shrink' and m1 == 'd' and k == 'ret':
                    q = getattr(V, 'now', None)
                    if q: ex.prove(st, z3.If(V.n <= C, IV(1 if q[0].r in (V.P, 0) else 0), z3.If(ii(q[2].o) == ii(q[1].o), IV(1), IV(0))) == 1, 'the capacity shrinks to what is needed')
                done(st)
            return [P] + ([n] if n is not None else []), post, tm()
        if op == 'clear':
            def post(st, k, v):
                if not nothrow(st, k): return
                V.holds(st, IV(0), lambda o: 0, 'empty', V.cap); done(st)
            return [P], post, tm()
        if op == 'pop':
            ex.add(st, V.n > 0)
            def post(st, k, v):
                if not nothrow(st, k): return
                V.holds(st, V.n - 1, lambda o: V.old(st, o), 'without the last', V.cap); done(st)
            return [P], post, tm()
        if op in ('at', 'cat'):
            i = ii(ex.fresh('i', 64, st))
            def post(st, k, v):
                ex.prove(st, (i >= V.n) == (k == 'throw'), 'an exception exactly when there is no such element')
                if k == 'throw': ex.prove(st, is_throw(ex, v, OOR), 'the exception is out_of_range')
                else: ex.prove(st, isinstance(v, Ptr) and v.r == V.R and ii(v.o) == V.b + 8 * i, 'element i')
                V.same(st, 'unchanged'); done(st)
            return [P, i], post, tm()
        if op in ('look', 'size'):
            i = ii(ex.fresh('i', 64, st))
            if op == 'look': ex.add(st, i < V.n)
            def post(st, k, v):
                if not nothrow(st, k): return
                ps = dict(st.ghost.get(('ptr',), ())); ns = dict(st.ghost.get(('num',), ())); b = V.b; e = b + 8 * V.n
                w = {2: b, 3: b, 4: b, 5: b, 6: b, 7: e, 8: e, 9: e} if op == 'size' else {0: b + 8 * i, 1: b + 8 * i, 10: b, 11: b, 12: e - 8, 13: e - 8, 14: e - 8, 15: e - 8, 16: e - 8, 17: b, 18: b, 19: b}
                if op == 'size' and m1 == 's' and not C: w = {x: 0 for x in w}
                for sl, o in w.items():
                    q = ps.get(sl); ex.prove(st, isinstance(q, Ptr) and q.r in (V.R, 0 if not C else V.R) and Eq(q.o, o), 'access %d reaches the element' % sl)
                if op == 'size':
                    for sl, o in {0: V.n, 1: V.n, 2: z3.If(V.n == 0, IV(1), IV(0)), 3: V.cap, 4: IV(C), 5: IV(1 if m1 == 'd' else 0)}.items(): ex.prove(st, sl in ns and ii(ns[sl]) == o, 'size and capacity')
                V.same(st, 'unchanged'); done(st)
            return [P, i], post, tm()
        if op in ('resize', 'resizev'):
            m = ii(ex.fresh('count', 64, st)); ex.add(st, m <= BIG); e = None
            if op == 'resize': v0 = IV(2); args = [P, m]
            elif alias: j = ii(ex.fresh('j', 64, st)); ex.add(st, j < V.n); v0 = V.old(st, 8 * j); args = [P, m, Ptr(V.R, z3.simplify(V.b + 8 * j))]
            else: v0 = val('v'); e = E.one(ex, st, v0); args = [P, m, Ptr(e, 0)]
            def post(st, k, v):
                if not nothrow(st, k): return
                V.holds(st, m, lambda o: z3.If(ii(o) < 8 * V.n, V.old(st, o), v0), 'count elements')
                if e is not None: ex.prove(st, get(ex, st, Ptr(e, 0)) == v0, 'the argument is unchanged')
                done(st)
            return args, post, tm([('count', 8 * m)], also=lambda ctx, r: [('== v', lambda env, o, x: x == v0)])
        back = op in ('emplaceback', 'pushc', 'pushm'); e = None
        i = V.n if back else ii(ex.fresh('i', 64, st))
        if not back: ex.add(st, i <= V.n)
        if op in ('emplace', 'emplaceback'): v0 = val('v'); arg = v0
        elif alias: j = ii(ex.fresh('j', 64, st)); ex.add(st, j < V.n); v0 = V.old(st, 8 * j); arg = Ptr(V.R, z3.simplify(V.b + 8 * j))
        else: v0 = val('v'); e = E.one(ex, st, v0); arg = Ptr(e, 0)
        def post(st, k, v):
            if not nothrow(st, k): return
            V.holds(st, V.n + 1, lambda o: z3.If(ii(o) < 8 * i, V.old(st, o), z3.If(ii(o) == 8 * i, v0, V.old(st, ii(o) - 8))), 'the element inserted at its position')
            if v is not None:
                q = getattr(V, 'now', [NULL])[0]
                ex.prove(st, isinstance(v, Ptr) and v.r == q.r and ii(v.o) == ii(q.o) + 8 * i, 'the result designates it')
            if e is not None: ex.prove(st, get(ex, st, Ptr(e, 0)) == (v0 if op in ('insertc', 'pushc') else IV(MOVED)), 'the argument is copied, or moved from')
            done(st)
        return [P] + ([] if back else [i]) + [arg], post, tm([('i', 8 * i)] if not back else [], [('-1', -8), ('+1', 8)] if not back else [])
    return Task(fn + '/' + m1 + (m2 if m2 and m2 != 'self' else '') + ('/self' if alias or m2 == 'self' else ''), fn, s)
def tasks(tier):
    T = []
    for t in 'lsz':
        for op in ('default', 'alloc', 'range', 'il'): T.append(mk(op, t, '0'))
        for m in 'sd':
            for op in ('copy', 'move'): T.append(mk(op, t, '0', m))
            for op in 'dtor assign assignil assignrange append reserve shrink clear resize resizev emplace insertc insertm emplaceback pushc pushm at cat size'.split(): T.append(mk(op, t, m))
            for op in ('copyassign', 'moveassign', 'swap', 'fswap'):
                for m2 in 'sd': T.append(mk(op, t, m, m2))
            for op in ('copyassign', 'swap'): T.append(mk(op, t, m, 'self'))
            if m == 'd' or CAP[t]:
                for op in ('pop', 'look'): T.append(mk(op, t, m))
                for op in ('resizev', 'insertc', 'pushc'): T.append(mk(op, t, m, None, 'self'))
    return T
ASSUMPTIONS = ['the operations of the element type do not throw and memory is available', 'static capacities 0, 2 and 100003 stand for every static capacity (it is a template argument)', 'ranges given to append and assign are not part of the vector itself, and their size is known (appending from a range of unknown size is a loop over emplace_back and not under contract)']
