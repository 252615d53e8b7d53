"""P17: fixed_flat_map is a finite map with unique, sorted keys.  Element lifetimes and values are ghost state (vc/elems.py)."""
from vc.run import Task
from vc.sym import *
from vc.specs import *
from vc.elems import *
from vc.utfspec import Templates
SOURCES = {'m': dict(src='p17.cpp', flags=('-fsized-deallocation',))}
REPLAY = 'r17.cpp'; REPLAY_SRC = ['src/container.cpp']
C = 100003
LEN, OOR = '_ZTISt12length_error', '_ZTISt12out_of_range'
def is_throw(ex, v, ti): return ti in ex.ti_bases(v[0])
class Map:
    """a valid map of n associations: keys strictly increasing (instantiated at every pair of keys that is looked at)"""
    def __init__(m, ex, st, E, n):
        m.n = n; m.E = E; m.ex = ex
        m.P = ex.region(st, 16 * C + 8, 'param', 'p', Cells({16 * C: (8, n)}, 'undef')); E.store[m.P] = (0, 16 * C)
        ex.add(st, ii(n) <= C); m.old = E.seq(ex, st, m.P, 2 * ii(n), 'kv'); m.hook = m.old.hook
        E.onless = lambda st, p: m.key(st, p.o) if p.r == m.P else None
    def key(m, st, o):
        """the key at offset o; strictly increasing keys, instantiated for every pair asked for here"""
        o = ii(o); x = m.ex; f = m.old.fn; r = ii(m.old.sel(x, st, o))
        K = ('keep', 'keys', m.P); ks = st.ghost.get(K, ())
        if any(o.eq(q) for q in ks): return r
        st.ghost[K] = ks + (o,); x.keep.append(o)
        for q in ks:
            d = z3.simplify(o - q)
            if z3.is_int_value(d) and d.as_long() % 16: continue
            iskey = z3.And(o % 16 == 0, q % 16 == 0, o >= 0, q >= 0, o < 16 * ii(m.n), q < 16 * ii(m.n))
            x.add(st, z3.Implies(iskey, z3.And((f(o) < f(q)) == (o < q), (f(o) == f(q)) == (o == q))), 'u')
        return r
    def size(m, st): return ii(rd(m.ex, st, m.P, 16 * C, 8))
def mk(op, T, alias=None):
    fn = 'h_%s_%s' % (op, T)
    def s(ex, st):
        E = Elems(stride=16); ex.contracts = E.contracts(); ex.ghost_default = default_ghost
        n = ex.fresh('n', 64, st); k0 = ex.fresh('k', 64, st); ex.add(st, ii(k0) >= 2)
        m = Map(ex, st, E, n); P = m.P; old = m.old; N = 16 * ii(n)
        if alias == 'self':
            i = ex.fresh('i', 64, st); ex.add(st, ii(i) < ii(n)); kp = Ptr(P, Mul(i, 16)); kv = m.key(st, 16 * ii(i))
        else: kr = E.one(ex, st, k0, 'key'); kp = Ptr(kr, 0); kv = ii(k0)
        def extra(ctx, u):
            res = E.extra([('n', N), ('n+1', N + 16), ('end', IV(16 * C))], [('-1', -16), ('+1', 16)] if op != 'dtor' else [], None, False)(ctx, u)
            guard, Nn = u['guard'], u['N']; pos = []
            ptrs = [q for q, r in u['ptrs'] if r == P]
            for q in ptrs: pos.append((q, lambda env, q=q: ii(Nn(env, q))))
            for q in u['ints64']:
                if q.startswith('$'): continue
                pos.append(('%s*' % q, lambda env, q=q: 16 * ii(Nn(env, q))))
                for p in ptrs: pos.append(('%s+%s*' % (p, q), lambda env, p=p, q=q: ii(Nn(env, p)) + 16 * ii(Nn(env, q))))
                for p in u['ints64']:
                    if p != q and not p.startswith('$'): pos.append(('%s*+%s*' % (p, q), lambda env, p=p, q=q: 16 * (ii(Nn(env, p)) + ii(Nn(env, q)))))
            for nm, f in pos:
                res += [Cand('%s <= n' % nm, guard(lambda env, f=f: f(env) <= N)), Cand('%s is at a whole element' % nm, guard(lambda env, f=f: f(env) % 16 == 0)),
                        Cand('key before %s is less' % nm, guard(lambda env, f=f: z3.Implies(f(env) > 0, m.key(env.st, z3.simplify(f(env) - 16)) < kv))),
                        Cand('key at %s is not less' % nm, guard(lambda env, f=f: z3.Implies(f(env) < N, m.key(env.st, z3.simplify(f(env))) >= kv)))]
            return res
        tm = Templates([], bounds=[('n', n), ('N', N)], extra=extra, small=False)
        def same(st, why='the map is unchanged'):
            ex.prove(st, m.size(st) == ii(n), why + ': size'); E.all(ex, st, P, 0, 16 * C, lambda o, x: x == ii(old.sel(ex, st, o)), why + ': elements')
        def done(st, keyalive=True):
            E.temps_dead(ex, st)
            if alias is None: ex.prove(st, get(ex, st, Ptr(kr, 0)) == kv, 'the key argument is unchanged')
        def nothrow(st, k):
            ex.prove(st, k == 'ret', 'no exception'); return k == 'ret'
        def absent(st, why): 
            ex.cnt += 1; j = z3.Int('j!%d' % ex.cnt) * 16; x = m.key(st, j); ex.prove(st, z3.Implies(z3.And(j >= 0, j < N), x != kv), why)
        if op == 'default':
            Q = ex.region(st, 16 * C + 8, 'param', 'q', Cells({}, 'undef')); E.store[Q] = (0, 16 * C); st.ghost[key(Q)] = G(ABase(8, lambda o: IV(DEAD)), Q)
            def post(st, k, v):
                if not nothrow(st, k): return
                ex.prove(st, ii(rd(ex, st, Q, 16 * C, 8)) == 0, 'empty'); E.all(ex, st, Q, 0, 16 * C, lambda o, x: x == DEAD, 'empty: elements'); done(st)
            return [Ptr(Q, 0)], post, tm
        if op == 'dtor':
            def post(st, k, v):
                if not nothrow(st, k): return
                E.all(ex, st, P, 0, 16 * C, lambda o, x: x == DEAD, 'every element is destroyed'); done(st)
            return [Ptr(P, 0)], post, tm
        if op == 'size':
            def post(st, k, v):
                if not nothrow(st, k): return
                ps = dict(st.ghost.get(('ptr',), ())); ns = dict(st.ghost.get(('num',), ()))
                for sl, o in {0: 0, 1: 0, 2: N, 3: N}.items(): ex.prove(st, sl in ps and ps[sl].r == P and Eq(ps[sl].o, o), 'begin and end')
                for sl, o in {0: ii(n), 1: z3.If(ii(n) == 0, IV(1), IV(0)), 2: IV(C)}.items(): ex.prove(st, sl in ns and ii(ns[sl]) == o, 'size, empty and max_size')
                same(st); done(st)
            return [Ptr(P, 0)], post, tm
        def is_elem(st, v, d=0):
            ex.prove(st, isinstance(v, Ptr) and v.r == P and And(ii(v.o) >= d, ii(v.o) < N, (ii(v.o) - d) % 16 == 0), 'the result designates an association'); return z3.simplify(ii(v.o) - d)
        if op in ('at', 'cat'):
            def post(st, k, v):
                if k == 'throw':
                    ex.prove(st, is_throw(ex, v, OOR), 'the exception is out_of_range'); absent(st, 'an exception only when the key is absent')
                else:
                    o = is_elem(st, v, 8); ex.prove(st, m.key(st, o) == kv, 'the value of the key')
                same(st); done(st)
            return [Ptr(P, 0), kp], post, tm
        base = op[1:] if op[0] == 'h' else op
        if base in ('find', 'cfind', 'contains'):
            def post(st, k, v):
                if not nothrow(st, k): return
                if base == 'contains':
                    b = bl(v) if type(v) is not bool else z3.BoolVal(v)
                    ex.cnt += 1; j = z3.Int('j!%d' % ex.cnt) * 16; x = m.key(st, j)
                    ex.prove(st, z3.Implies(z3.And(z3.Not(b), j >= 0, j < N), x != kv), 'not contained only when the key is absent')
                    # witness: some position the search looked at
                    ks = st.ghost.get(('keep', 'keys', P), ())
                    ex.prove(st, z3.Implies(b, z3.Or(*[z3.And(q >= 0, q < N, q % 16 == 0, m.key(st, q) == kv) for q in ks] or [z3.BoolVal(False)])), 'contained only when the key is present')
                else:
                    isend = z3.simplify(ii(v.o) == N)
                    ex.prove(st, isinstance(v, Ptr) and v.r == P and And(ii(v.o) >= 0, ii(v.o) <= N, ii(v.o) % 16 == 0), 'the result is an iterator')
                    x = m.key(st, ii(v.o)); ex.prove(st, z3.Implies(z3.Not(isend), x == kv), 'found: the association of the key')
                    ex.cnt += 1; j = z3.Int('j!%d' % ex.cnt) * 16; x = m.key(st, j)
                    ex.prove(st, z3.Implies(z3.And(isend, j >= 0, j < N), x != kv), 'end() only when the key is absent')
                same(st); done(st)
            return [Ptr(P, 0), kp], post, tm
        if base in ('lower', 'clower'):
            def post(st, k, v):
                if not nothrow(st, k): return
                ex.prove(st, isinstance(v, Ptr) and v.r == P and And(ii(v.o) >= 0, ii(v.o) <= N, ii(v.o) % 16 == 0), 'the result is an iterator')
                ex.cnt += 1; j = z3.Int('j!%d' % ex.cnt) * 16; x = m.key(st, j)
                for o in (ii(v.o), ii(v.o) - 16): m.key(st, z3.simplify(o))
                ex.prove(st, z3.Implies(z3.And(j >= 0, j < N), (x < kv) == (j < ii(v.o))), 'the first association whose key is not less')
                same(st); done(st)
            return [Ptr(P, 0), kp], post, tm
        # insertion
        v0 = ex.fresh('v', 64, st); ex.add(st, ii(v0) >= 2); R = ex.region(st, 1, 'param', 'inserted', Cells({}, 'undef'))
        if op == 'try': arg = v0; vr = None
        elif alias == 'val':
            i = ex.fresh('i', 64, st); ex.add(st, ii(i) < ii(n)); vr = None; arg = Ptr(P, Add(Mul(i, 16), 8)); v0 = m.key(st, 16 * ii(i) + 8)
        else: vr = E.one(ex, st, v0, 'value'); arg = Ptr(vr, 0)
        assign = op.startswith('assign')
        def post(st, k, v):
            if k == 'throw':
                ex.prove(st, is_throw(ex, v, LEN), 'the exception is length_error'); ex.prove(st, ii(n) >= C, 'an exception only when the map is full')
                absent(st, 'an exception only when the key is absent'); same(st)
                if vr is not None: ex.prove(st, get(ex, st, Ptr(vr, 0)) == ii(v0), 'the argument is unchanged')
                return done(st)
            ex.prove(st, isinstance(v, Ptr) and v.r == P, 'the result is an iterator')
            q = ii(v.o); ins = bl(rd(ex, st, R, 0, 1) != 0); cur = lambda o: ii(arr(ex, st, P).sel(ex, st, o))
            ex.prove(st, And(q >= 0, q % 16 == 0, q < z3.If(ins, N + 16, N)), 'the result designates an association')
            ex.prove(st, m.size(st) == z3.If(ins, ii(n) + 1, ii(n)), 'size'); ex.prove(st, m.size(st) <= C, 'never more than the capacity')
            o = E.some(ex); before = ii(old.sel(ex, st, o)); shifted = ii(old.sel(ex, st, z3.simplify(o - 16))); now = cur(o)
            ex.prove(st, z3.Implies(z3.And(o >= 0, o < q), now == before), 'the associations in front are unchanged')
            ex.prove(st, z3.Implies(z3.And(ins, o >= q + 16, o < N + 16), now == shifted), 'the associations behind are unchanged')
            ex.prove(st, z3.Implies(z3.And(z3.Not(ins), o >= 0, o < N, o != q + 8), now == before), 'no other association changes')
            ex.prove(st, cur(q) == kv, 'the association has the key')
            at8 = cur(z3.simplify(q + 8)); old8 = ii(old.sel(ex, st, z3.simplify(q + 8)))
            ex.prove(st, z3.Implies(ins, at8 == ii(v0)), 'a new association has the value')
            ex.prove(st, z3.Implies(z3.Not(ins), at8 == (ii(v0) if assign else old8)), 'the value is replaced' if assign else 'the value is not replaced')
            ex.cnt += 1; j = z3.Int('j!%d' % ex.cnt) * 16; oj = m.key(st, j); m.key(st, q)
            m.key(st, z3.simplify(q - 16))
            ex.prove(st, z3.Implies(z3.And(ins, j >= 0, j < N), oj != kv), 'inserted only when the key is absent')
            ex.prove(st, z3.Implies(z3.And(ins, j >= 0, j < N), (oj < kv) == (j < q)), 'the keys stay sorted')
            E.all(ex, st, P, 16 * m.size(st), 16 * C, lambda o, x: x == DEAD, 'nothing behind the end')
            if vr is not None: ex.prove(st, get(ex, st, Ptr(vr, 0)) == (z3.If(z3.Or(ins, assign), IV(MOVED), ii(v0)) if op[-1] == 'm' else ii(v0)), 'the argument is copied, moved from, or unused')
            done(st)
        return [Ptr(P, 0), kp, arg, Ptr(R, 0)], post, tm
    return Task(fn + ('/' + alias if alias else ''), fn, s)
LOOK = 'at cat find cfind contains lower clower'.split()
def tasks(tier):
    T = [mk(op, t) for t in 'ln' for op in ['default', 'dtor', 'size'] + LOOK + 'assignc assignm tryc trym try'.split()]
    T += [mk('h' + op, 'l') for op in LOOK[2:]]
    T += [mk(op, t, 'self') for t in 'ln' for op in ('find', 'assignc', 'tryc')] + [mk(op, 'l', 'val') for op in ('assignc', 'tryc')]
    return T
ASSUMPTIONS = ['the operations of the element types do not throw', 'the comparison is the order of the key values', 'capacity 100003 stands for every capacity (it is a template argument)']
