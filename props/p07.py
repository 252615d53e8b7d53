"""P07: comparison and search agree with the code point sequences."""
import os
from vc.run import Task, Lemma
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
SOURCES = {'m': dict(src='p07.cpp')}
REPLAY = 'r07.cpp'; REPLAY_SRC = ['src/utf/codepoint.cpp', 'src/utf/string.cpp', 'src/utf/stralgo.cpp']
ENC = dict([('c', 1), ('8', 1), ('16', 2), ('32', 4), ('w', 4)])
I = z3.IntSort(); B = z3.BoolSort()
class Pair:
    """specification functions over a pair of strings, all defined by recursion and instantiated where the proof mentions them:
    CMP(o1,o2)  three-way lexicographic order of the code points from o1 and from o2
    E2(x,y,z)   the code units from x (first string) and from y up to z (second string) are the same
    FIND(o)     the first code point position at or after o where `match` holds, or the end"""
    def __init__(s, ex, st, a, b=None, mk=None):
        s.ex = ex; s.H = H = UStr(ex, st, 'h', a)
        s.Q = Q = UStr(ex, st, 'q', b) if b else None
        ex.cnt += 1; k = ex.cnt
        s.CMP = z3.Function('CMP!%d' % k, I, I, I); s.E = z3.Function('E2!%d' % k, I, I, I, B); s.F = z3.Function('FIND!%d' % k, I, I)
        s.match = mk
    def find(s, st, o, define=True):
        H = s.H; o = ii(o); t = s.F(o)
        key = ('fi', o.get_id())
        if key in st.seen or not define: return t
        st.seen.add(key); s.ex.keep.append(o); H.inst(st, o)
        g = z3.And(o >= 0, o <= ii(H.n), H.bd(o))
        nx = ii(Add(o, H.ln(o)))
        s.ex.add(st, z3.Implies(g, t == z3.If(o >= ii(H.n), ii(H.n), z3.If(s.match(s, st, o), o, s.F(nx)))), 'u')
        s.ex.add(st, z3.Implies(g, z3.And(t >= o, t <= ii(H.n))), 'u')
        return t
    def cmp(s, st, a, b, define=True):
        H, Q = s.H, s.Q; a, b = ii(a), ii(b)
        key = ('cmp', a.get_id(), b.get_id())
        t = s.CMP(a, b)
        if key in st.seen or not define: return t
        st.seen.add(key); s.ex.keep += [a, b]
        H.inst(st, a); Q.inst(st, b)
        x, y = H.cp(a), Q.cp(b)
        d = z3.If(a == ii(H.n), z3.If(b == ii(Q.n), IV(0), IV(-1)), z3.If(b == ii(Q.n), IV(1), z3.If(z3.ULT(x, y), IV(-1), z3.If(z3.UGT(x, y), IV(1), s.CMP(ii(Add(a, H.ln(a))), ii(Add(b, Q.ln(b))))))))
        s.ex.add(st, z3.Implies(z3.And(a >= 0, a <= ii(H.n), H.bd(a), b >= 0, b <= ii(Q.n), Q.bd(b)), t == d), 'u')
        return t
    def eq(s, st, x, y, z, define=True):
        x, y, z = ii(x), ii(y), ii(z)
        t = s.E(x, y, z)
        key = ('e2', x.get_id(), y.get_id(), z.get_id())
        if key in st.seen or not define: return t
        st.seen.add(key); s.ex.keep += [x, y, z]
        e = s.H.esz
        s.ex.add(st, z3.Implies(z3.And(y >= 0, y <= z, z <= ii(s.Q.n), x >= 0, x + z - y <= ii(s.H.n)),
                 t == z3.Or(y == z, z3.And(s.H.at(x) == s.Q.at(y), s.E(ii(Add(x, e)), ii(Add(y, e)), z)))), 'u')
        return t
    def occ(s, st, a):
        return z3.And(ii(s.H.n) - ii(a) >= ii(s.Q.n), s.eq(st, a, 0, s.Q.n))
def memcmps(cur):
    def cmpf(scale):
        def f(ex, st, a, ins):
            P = cur[0]; p, q, n = a; n = Mul(n, scale)
            r = ex.fresh('memcmp', 32, st)
            if isc(n) and n == 0: return 0
            if p.r == P.Q.rid and q.r == P.H.rid: p, q = q, p
            if not (p.r == P.H.rid and q.r == P.Q.rid): raise Unsupported('memcmp of other objects')
            z = Add(q.o, n)
            ex.prove(st, Or(Eq(n, 0), And(ULE(0, p.o), ULE(Add(p.o, n), P.H.n), ULE(0, q.o), ULE(z, P.Q.n))), 'memory-safety: memcmp stays inside both strings')
            ex.add(st, (bv(r, 32) == 0) == z3.Or(ii(n) == 0, P.eq(st, p.o, q.o, z)))
            return r
        return f
    return [contract('^(memcmp|bcmp|__builtin_memcmp)$', cmpf(1), 'memcmp: 0 exactly when the bytes are equal'), contract('^wmemcmp$', cmpf(4), 'wmemcmp: 0 exactly when the units are equal')]
def truth(v): return v if isinstance(v, bool) else (bool(v) if isc(v) else (v if z3.is_bool(v) else v != 0))
def task(kind, a, b=None):
    fn = 'h_%s_%s' % (kind, a) + ('_' + b if b else '')
    e1 = ENC[a]; e2 = ENC[b or a]
    cur = [None]; two = not kind.endswith('c') 
    def s(ex, st):
        mk = None; c = None
        if kind in ('has', 'find', 'findp'): mk = lambda P, st, o: P.occ(st, o)
        if kind in ('hasc', 'findc', 'swc', 'ewc'): 
            c = ex.fresh('c', 32, st); ex.add(st, scalar(c)); mk = lambda P, st, o: P.H.cp(o) == c
        P = Pair(ex, st, e1, e2 if two else None, mk); cur[0] = P; H, Q = P.H, P.Q
        bounds = [('n', H.n, H.rid), ('units', H.units, H.rid)]; args = [H.ptr(), H.units]
        if two: bounds += [('m', Q.n, Q.rid), ('munits', Q.units, Q.rid)]; args += [Q.ptr(), Q.units]
        else: args.append(c)
        A = None
        if kind.startswith('find'):
            k = ex.fresh('pos', 64, st); args.append(k); bounds.append(('pos', k, 0))
            # the start position as an offset: the k-th code point if there is one, else the end
            A = H.nth(st, z3.If(k < H.total(), k, H.total()), 'A'); bounds.append(('A', A, H.rid))
            if e1 > 1: bounds.append(('Au', H.nthu, H.rid))
            H.inst(st, A)
        cur.append(A)
        def found(ex_, st2, a_, ins): 
            p = a_[0]
            if not isinstance(p, Ptr) or p.r != H.rid: ex.fail(st2, 'the result is a position in the string'); return None
            st2.ghost[('found',)] = p
            return None
        ctr[0] = found
        start = A if A is not None else IV(0)
        def extra(ctx, u):
            out = []; N, guard = u['N'], u['guard']
            hp = [(n, 1) for n, r in u['ptrs'] if r == H.rid] + [(n, e1) for n in u['ints64']]
            qp = [(n, 1) for n, r in u['ptrs'] if Q is not None and r == Q.rid] + [(n, e2) for n in u['ints64']]
            if mk:
                for n, sc in hp:
                    def f(env, n=n, sc=sc):
                        return P.find(env.st, Mul(N(env, n), sc), env.kind != 'back') == P.find(env.st, start)
                    out.append(Cand('FIND(%s) == FIND(start)' % n, guard(f)))
            if kind in ('cmp', 'cmpv', 'eq', 'eqv', 'lt') :
                for n, sc in hp:
                    for m, sm in qp:
                        def f(env, n=n, m=m, sc=sc, sm=sm): return P.cmp(env.st, Mul(N(env, n), sc), Mul(N(env, m), sm), env.kind != 'back') == P.cmp(env.st, 0, 0)
                        out.append(Cand('CMP(%s,%s) == CMP(0,0)' % (n, m), guard(f)))
            if two and e1 == e2:
                # comparison loops over code units: from the pointers that are live at the loop
                hs = {'start': 0}; qs = {'start': 0}
                for rn, v in ctx.est.frames[-1].regs.items():
                    if isinstance(v, Ptr) and v.o is not None:
                        if v.r == H.rid and not any(samev(v.o, x) for x in hs.values()): hs[rn] = v.o
                        if v.r == Q.rid and not any(samev(v.o, x) for x in qs.values()): qs[rn] = v.o
                for n, r in u['ptrs']:
                    for m, r2 in u['ptrs']:
                        if r == H.rid and r2 == Q.rid:
                            def f(env, n=n, m=m): return P.eq(env.st, N(env, n), N(env, m), Q.n, env.kind != 'back') == P.eq(env.st, u['entry64'](n), u['entry64'](m), Q.n)
                            out.append(Cand('E2(%s,%s)' % (n, m), guard(f)))
                for i in u['ints64']:
                    for hk, ho in list(hs.items())[:6]:
                        for qk, qo in list(qs.items())[:3]:
                            def f(env, i=i, ho=ho, qo=qo):
                                d = Mul(N(env, i), e1); return P.eq(env.st, Add(ho, d), Add(qo, d), Q.n, env.kind != 'back') == P.eq(env.st, ho, qo, Q.n)
                            out.append(Cand('E2(%s+%s,%s+%s)' % (hk, i, qk, i), guard(f)))
            return out
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            if k != 'ret': return
            if kind.startswith('find'):
                p = st.ghost.get(('found',))
                if p is None: ex.fail(st, 'the result is a position in the string'); return
                P.find(st, p.o); ex.prove(st, Eq(p.o, z3.If(ii(p.o) >= 0, P.find(st, A), IV(-1))), 'find returns the first position at or after the start where it occurs, or the end')
            elif kind in ('cmp', 'cmpv'):
                want = P.cmp(st, 0, 0); r = bv(v, 32)
                ex.prove(st, z3.And((r < 0) == (want < 0), (r == 0) == (want == 0)), 'compare() is the lexicographic order of the code points')
            elif kind in ('eq', 'eqv') and a != b and b is not None:
                ex.prove(st, truth(v) == (P.cmp(st, 0, 0) == 0), '== holds exactly when the code points are the same')
            elif kind in ('eq', 'eqv'):
                ex.prove(st, Eq(truth(v), z3.And(ii(H.n) == ii(Q.n), P.occ(st, 0))), '== holds exactly when the code units are the same')
            elif kind == 'lt': ex.prove(st, truth(v) == (P.cmp(st, 0, 0) < 0), '< is the lexicographic order of the code points')
            elif kind == 'sw': ex.prove(st, Eq(truth(v), P.occ(st, 0)), 'starts_with')
            elif kind == 'ew': ex.prove(st, Eq(truth(v), z3.And(ii(H.n) >= ii(Q.n), P.eq(st, ii(H.n) - ii(Q.n), 0, Q.n))), 'ends_with')
            elif kind == 'swc': ex.prove(st, Eq(truth(v), z3.And(ii(H.n) > 0, H.cp(IV(0)) == c)), 'starts_with(code point)')
            elif kind == 'ewc':
                g = z3.Or(*[z3.And(ii(H.n) >= d, H.lead(Add(H.n, -d)), H.ln(Add(H.n, -d)) == d, H.cp(ii(Add(H.n, -d))) == c) for d in ((1, 2, 3, 4) if e1 == 1 else (2, 4) if e1 == 2 else (4,))])
                for d in range(1, 5): H.inst(st, Add(H.n, -d)) if d % e1 == 0 else None
                ex.prove(st, Eq(truth(v), g), 'ends_with(code point)')
            elif kind in ('has', 'hasc'):
                w = P.find(st, 0) != ii(H.n)
                if kind == 'has': w = z3.Or(w, ii(Q.n) == 0)
                ex.prove(st, Eq(truth(v), w), 'contains tells exactly whether it occurs')
        T = lambda **k: Templates([H] + ([Q] if two else []), bounds=bounds, small=False, extra=extra, **k)
        return args, post, [T(lean=True, counts=kind.startswith('find'))] + ([T()] if not os.environ.get('VERIF_STAGE1') else [])
    ctr = [None]
    return Task(fn, fn, s, contracts=memcmps(cur) + [contract('^vc_find$', lambda ex, st, a, ins: ctr[0](ex, st, a, ins), 'monitor: find', trusted=False)])
def lemmas():
    """code unit equality is code point equality: for well-formed strings in one encoding, by strong induction along the strings"""
    def gen(e):
        def g():
            def mkS(nm):
                S = UStr.__new__(UStr); S.esz = e; S.n = z3.Int('n' + nm); S.units = S.n; S.f = z3.Function('f' + nm, I, WSORT(e)); S.cntf = z3.Function('c' + nm, I, I); return S
            H, Q = mkS('h'), mkS('q')
            E = z3.Function('E', I, I, B); PRE = z3.Function('PRE', I, I, B); CMP = z3.Function('CMP', I, I, I)
            o, p = z3.Ints('o p'); m = Q.n
            al = lambda x: x % e == 0 if e > 1 else z3.BoolVal(True)
            L = (1, 2, 3, 4) if e == 1 else (2, 4) if e == 2 else (4,)
            us = range(0, 4, e)
            wf = lambda S, x: z3.And(*[z3.And(*S.wf(x + d)) for d in range(0, 4 + e, e)])
            at = lambda S, x: z3.And(x >= 0, x <= S.n, al(x), al(S.n), S.bd(x))
            Ed = lambda x, y: E(x, y) == z3.Or(y == m, z3.And(H.f(x) == Q.f(y), E(x + e, y + e)))
            fit = lambda x, y: H.n - x >= m - y
            PREd = lambda x, y: PRE(x, y) == z3.Or(y == m, z3.And(x < H.n, H.cp(x) == Q.cp(y), PRE(x + H.ln(x), y + Q.ln(y))))
            CMPd = lambda x, y: CMP(x, y) == z3.If(x == H.n, z3.If(y == m, IV(0), IV(-1)), z3.If(y == m, IV(1), z3.If(z3.ULT(H.cp(x), Q.cp(y)), IV(-1), z3.If(z3.UGT(H.cp(x), Q.cp(y)), IV(1), CMP(x + H.ln(x), y + Q.ln(y))))))
            P = lambda x, y: z3.Implies(z3.And(at(H, x), at(Q, y)), PRE(x, y) == z3.And(fit(x, y), E(x, y)))
            C = lambda x, y: z3.Implies(z3.And(at(H, x), at(Q, y)), (CMP(x, y) == 0) == z3.And(PRE(x, y), H.n - x == m - y))
            hyp = z3.And(H.n >= 0, m >= 0, at(H, o), at(Q, p), wf(H, o), wf(Q, p), *[Ed(o + d, p + d) for d in us])
            out = []
            same = z3.And(*[z3.Implies(z3.And(d < H.ln(o)), H.f(o + d) == Q.f(p + d)) for d in us])
            out.append(('equal code points have equal units', z3.Implies(z3.And(hyp, o < H.n, p < m, H.cp(o) == Q.cp(p)), z3.And(H.ln(o) == Q.ln(p), same))))
            out.append(('equal leading units give equal lengths', z3.Implies(z3.And(hyp, o < H.n, p < m, H.f(o) == Q.f(p)), H.ln(o) == Q.ln(p))))
            out.append(('equal units give equal code points', z3.Implies(z3.And(hyp, o < H.n, p < m, same), H.cp(o) == Q.cp(p))))
            out.append(('the next start is a boundary', z3.Implies(z3.And(hyp, o < H.n), at(H, o + H.ln(o)))))
            for d in L:
                out.append(('prefix by code points is prefix by units: step, %d' % d, z3.Implies(z3.And(hyp, o < H.n, H.ln(o) == d, PREd(o, p), P(o + d, p + d), z3.Implies(z3.And(p < m, H.cp(o) == Q.cp(p)), z3.And(H.ln(o) == Q.ln(p), same)), z3.Implies(z3.And(p < m, H.f(o) == Q.f(p)), H.ln(o) == Q.ln(p)), z3.Implies(z3.And(p < m, same), H.cp(o) == Q.cp(p))), P(o, p))))
                out.append(('compare()==0 is equality: step, %d' % d, z3.Implies(z3.And(hyp, o < H.n, H.ln(o) == d, PREd(o, p), CMPd(o, p), C(o + d, p + d), z3.Implies(z3.And(p < m, H.cp(o) == Q.cp(p)), H.ln(o) == Q.ln(p)), z3.Implies(z3.And(p < m), at(Q, p + Q.ln(p)))), C(o, p))))
            out.append(('prefix: at the end of the first string', z3.Implies(z3.And(hyp, o == H.n, PREd(o, p)), P(o, p))))
            out.append(('compare: at the end of the first string', z3.Implies(z3.And(hyp, o == H.n, PREd(o, p), CMPd(o, p)), C(o, p))))
            out.append(('a matching suffix starts at a code point', z3.Implies(z3.And(hyp0(H, Q, o), p == 0, m > 0, H.n >= m, al(H.n), al(m), o == H.n - m, z3.And(*Q.wf(IV(0))), Ed(o, IV(0)), E(o, IV(0))), H.bd(o))))
            return out
        return g
    def hyp0(H, Q, o): return z3.BoolVal(True)
    return [Lemma('lemma/units-codepoints-utf%d' % (8 * e), gen(e)) for e in (1, 2, 4)]
def tasks(tier):
    T = []
    for a in ENC:
        for b in ENC: T += [task('cmp', a, b), task('eq', a, b)]
        T += [task(k, a) for k in 'cmpv eqv lt sw ew swc ewc has hasc find findp findc'.split()]
    return T + lemmas() + ustr_lemmas()
