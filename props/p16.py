"""P16: fixed_vector is a bounded sequence.  Element lifetimes and values are ghost state (vc/elems.py)."""
from vc.run import Task
from vc.sym import *
from vc.specs import *
from vc.elems import *
from vc.utfspec import Templates
SOURCES = {'m': dict(src='p16.cpp', flags=('-fsized-deallocation',))}
REPLAY = 'r16.cpp'; REPLAY_SRC = ['src/container.cpp']
CAP = dict(l=1000003, m=5, s=1)
def vec(ex, st, E, T, n, name):
    """a valid fixed_vector holding n arbitrary elements"""
    C = CAP[T]
    rid = ex.region(st, 8 * C + 8, 'param', name, Cells({8 * C: (8, n)} if n is not None else {}, 'undef'))
    E.store[rid] = (0, 8 * C)
    if n is None: st.ghost[key(rid)] = G(ABase(8, lambda o: IV(DEAD)), rid); return rid, None
    ex.add(st, ii(n) <= C)
    return rid, E.seq(ex, st, rid, n, name)
def size(ex, st, T, rid): return ii(rd(ex, st, rid, 8 * CAP[T], 8))
def is_throw(ex, v, ti): return ti in ex.ti_bases(v[0])
LEN, OOR = '_ZTISt12length_error', '_ZTISt12out_of_range'
def same(ex, st, E, T, rid, old, n, why):
    ex.prove(st, size(ex, st, T, rid) == ii(n), why + ': size'); E.all(ex, st, rid, 0, 8 * CAP[T], lambda o, x: x == ii(old.sel(ex, st, o)), why + ': elements')
def content(ex, st, E, T, rid, n, f, why):
    """exactly n elements, the one at offset o having value f(o)"""
    ex.prove(st, And(size(ex, st, T, rid) == ii(n), ii(n) <= CAP[T]), why + ': size')
    E.all(ex, st, rid, 0, 8 * ii(n), lambda o, x: x == ii(f(o)), why + ': elements')
    E.all(ex, st, rid, 8 * ii(n), 8 * CAP[T], lambda o, x: x == DEAD, why + ': nothing behind the end')
def gone(ex, st, E, T, rid, why): E.all(ex, st, rid, 0, 8 * CAP[T], lambda o, x: x == DEAD, why)
def mk(op, T, alias=None):
    fn = 'h_%s_%s' % (op, T); C = CAP[T]
    def s(ex, st):
        E = Elems(); ex.contracts = E.contracts(); ex.ghost_default = default_ghost; B = []; SH = []
        n = ex.fresh('n', 64, st)
        def val(nm):
            v = ex.fresh(nm, 64, st); ex.add(st, ii(v) >= 2); return v
        def done(st): E.temps_dead(ex, st)
        def tm(b=(), sh=(), also=None):
            return [Templates([], bounds=[(x, v) for x, v in b], extra=E.extra([(x, 8 * ii(v)) for x, v in b] + [('end', IV(8 * C))], sh, also, w), small=False) for w in (False, True)]
        def nothrow(st, k):
            ex.prove(st, k == 'ret', 'no exception'); return k == 'ret'
        if op == 'default':
            P, _ = vec(ex, st, E, T, None, 'p')
            def post(st, k, v):
                if not nothrow(st, k): return
                content(ex, st, E, T, P, IV(0), lambda o: 0, 'empty'); done(st)
            return [Ptr(P, 0)], post, tm()
        if op in ('copy', 'move'):
            P, _ = vec(ex, st, E, T, None, 'p'); Q, old = vec(ex, st, E, T, n, 'q')
            def post(st, k, v):
                if not nothrow(st, k): return
                content(ex, st, E, T, P, n, lambda o: old.sel(ex, st, o), 'the elements of the other vector')
                if op == 'copy': same(ex, st, E, T, Q, old, n, 'the other vector is unchanged')
                else:
                    m = size(ex, st, T, Q); ex.prove(st, m <= C, 'the other vector stays valid: size')
                    E.all(ex, st, Q, 0, 8 * C, lambda o, x: (x != DEAD) == (o < 8 * m), 'the other vector stays valid: elements')
                done(st)
            return [Ptr(P, 0), Ptr(Q, 0)], post, tm([('n', n)])
        if op == 'fill':
            P, _ = vec(ex, st, E, T, None, 'p'); v0 = val('v'); e = E.one(ex, st, v0)
            def post(st, k, v):
                ex.prove(st, (ii(n) > C) == (k == 'throw'), 'an exception exactly when the capacity is exceeded')
                if k == 'throw':
                    ex.prove(st, is_throw(ex, v, LEN), 'the exception is length_error'); gone(ex, st, E, T, P, 'no element is left behind')
                else: content(ex, st, E, T, P, n, lambda o: v0, 'n copies')
                done(st)
            def also(ctx, r): return [('== v', lambda env, o, x: x == ii(v0))]
            return [Ptr(P, 0), n, Ptr(e, 0)], post, tm([('n', n), ('C', C)], also=also)
        P, old = vec(ex, st, E, T, n, 'p')
        if op == 'dtor':
            def post(st, k, v):
                if not nothrow(st, k): return
                gone(ex, st, E, T, P, 'every element is destroyed'); done(st)
            return [Ptr(P, 0)], post, tm([('n', n)])
        if op == 'clear':
            def post(st, k, v):
                if not nothrow(st, k): return
                content(ex, st, E, T, P, IV(0), lambda o: 0, 'empty'); done(st)
            return [Ptr(P, 0)], post, tm([('n', n)])
        if op in ('at', 'cat'):
            i = ex.fresh('i', 64, st)
            def post(st, k, v):
                ex.prove(st, (ii(i) >= ii(n)) == (k == 'throw'), 'an exception exactly when there is no such element')
                if k == 'throw': ex.prove(st, is_throw(ex, v, OOR), 'the exception is out_of_range')
                else: ex.prove(st, And(v.r == P, Eq(v.o, Mul(i, 8))), 'element i')
                same(ex, st, E, T, P, old, n, 'unchanged'); done(st)
            return [Ptr(P, 0), i], post, tm()
        if op in ('look', 'size'):
            i = ex.fresh('i', 64, st)
            if op == 'look': ex.add(st, ii(i) < ii(n))
            def post(st, k, v):
                if not nothrow(st, k): return
                ps = dict(st.ghost.get(('ptr',), ())); ns = dict(st.ghost.get(('num',), ()))
                N = 8 * ii(n)
                w = {2: 0, 3: 0, 4: 0, 5: 0, 6: 0, 7: N, 8: N, 9: N}
                if op == 'look': w.update({0: 8 * ii(i), 1: 8 * ii(i), 10: 0, 11: 0, 12: N - 8, 13: N - 8})
                for sl, o in w.items():
                    q = ps.get(sl); ex.prove(st, isinstance(q, Ptr) and q.r == P and Eq(q.o, o), 'access %d reaches the element' % sl)
                if op == 'size':
                    for sl, o in {0: ii(n), 1: ii(n), 3: IV(C), 4: IV(C)}.items(): ex.prove(st, sl in ns and ii(ns[sl]) == o, 'size and capacity')
                    ex.prove(st, ii(ns[2]) == z3.If(ii(n) == 0, IV(1), IV(0)), 'empty')
                same(ex, st, E, T, P, old, n, 'unchanged'); done(st)
            return [Ptr(P, 0)] + [i], post, tm()
        if op == 'pop':
            ex.add(st, ii(n) > 0)
            def post(st, k, v):
                if not nothrow(st, k): return
                content(ex, st, E, T, P, ii(n) - 1, lambda o: old.sel(ex, st, o), 'without the last'); done(st)
            return [Ptr(P, 0)], post, tm()
        back = op in ('emplace_back', 'pushc', 'pushm')
        if back: i = n
        else:
            i = ex.fresh('i', 64, st); ex.add(st, ii(i) <= ii(n))
        if op in ('emplace', 'emplace_back'): v0 = val('v'); arg = v0; e = None
        elif alias == 'self':
            j = ex.fresh('j', 64, st); ex.add(st, ii(j) < ii(n)); arg = Ptr(P, Mul(j, 8)); v0 = ii(old.sel(ex, st, 8 * ii(j))); e = None
        else: v0 = val('v'); e = E.one(ex, st, v0); arg = Ptr(e, 0)
        def post(st, k, v):
            ex.prove(st, (ii(n) >= C) == (k == 'throw'), 'an exception exactly when the capacity is exceeded')
            if k == 'throw':
                ex.prove(st, is_throw(ex, v, LEN), 'the exception is length_error'); same(ex, st, E, T, P, old, n, 'unchanged')
                if e is not None: ex.prove(st, get(ex, st, Ptr(e, 0)) == ii(v0), 'the argument is unchanged')
            else:
                I = 8 * ii(i)
                content(ex, st, E, T, P, ii(n) + 1, lambda o: z3.If(o < I, ii(old.sel(ex, st, o)), z3.If(o == I, ii(v0), ii(old.sel(ex, st, o - 8)))), 'the element inserted at its position')
                if v is not None: ex.prove(st, isinstance(v, Ptr) and v.r == P and Eq(v.o, I), 'the result designates it')
                if e is not None: ex.prove(st, get(ex, st, Ptr(e, 0)) == (ii(v0) if op in ('insertc', 'pushc') else IV(MOVED)), 'the argument is copied, or moved from')
            done(st)
        args = [Ptr(P, 0)] + ([] if back else [i]) + [arg]
        return args, post, tm([('n', n), ('i', i), ('n+1', ii(n) + 1)], [('-1', -8), ('+1', 8)])
    return Task(fn + ('/' + alias if alias else ''), fn, s)
OPS = 'default copy move fill dtor at cat look size clear emplace insertc insertm emplace_back pushc pushm pop'.split()
def tasks(tier):
    T = []
    for t in 'lms':
        for op in OPS: T.append(mk(op, t))
        for op in ('insertc', 'pushc'): T.append(mk(op, t, 'self'))
    return T
ASSUMPTIONS = ['the operations of the element type do not throw', 'capacities 1, 5 and 1000003 stand for every capacity (it is a template argument)', 'preconditions asserted by the class: an iterator points into the vector; pop_back, front and back need an element']
