"""P09: padding and precision of characters and strings."""
from vc.run import Task, Lemma
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
from vc.emit import *
SOURCES = {'m': dict(src='p09.cpp', keep=KEEP + (WIDTH,), drop=DROP)}
REPLAY = 'r09.cpp'; REPLAY_SRC = ['src/%s.cpp' % x for x in 'core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general'.split()]
ENC = (('c', 1), ('8', 1), ('16', 2), ('32', 4), ('w', 4))
def nm(ex, st, n, t):
    ex.cnt += 1; q = z3.Int('%s!%d' % (n, ex.cnt)); ex.add(st, q == t, 'u'); return q
def split(ex, st, al, W, used, deflt=1):
    """(left, pad): the padding max(0, width - used), divided by the alignment; the odd cell goes to the right"""
    pad = nm(ex, st, 'pad', z3.If(W > used, W - used, IV(0))); a = z3.If(al == 0, BV(deflt, 8), al)
    return nm(ex, st, 'left', z3.If(a == 1, IV(0), z3.If(a == 2, pad / 2, pad))), pad
def params(ex, st):
    w = ex.fresh('width', 64, st); pr = ex.fresh('prec', 64, st); fill = ex.fresh('fill', 32, st); al = ex.fresh('align', 8, st); sg = ex.fresh('sign', 8, st)
    z = ex.fresh('zero', 1, st); alt = ex.fresh('alt', 1, st)
    ex.add(st, z3.And(scalar(fill), z3.ULE(al, 3), z3.ULE(sg, 3)))
    return w, pr, fill, al, [w, pr, fillarg(ex, st, fill), al, sg, z, alt]
def tcp(t, e, ty):
    box = {}
    out = Out(e, lambda ex, st, p: z3.If(ii(p) == box['L'], box['v'], box['fill']))
    fn = 'h_cp_' + t
    def s(ex, st):
        v = ex.fresh('v', 32, st); ex.add(st, scalar(v)); w, pr, fill, al, args = params(ex, st)
        L, pad = split(ex, st, al, ii(w), wid(ex, st, v))
        box.update(fill=z3.If(fill == 0, BV(32, 32), fill), v=v, L=L); out.start(st)
        def post(st, k, v_):
            ex.prove(st, k == 'ret', 'no exception')
            if k == 'ret': ex.prove(st, ii(st.ghost[POS]) == pad + 1, 'the whole text is written')
        return [fillarg(ex, st, v)] + args + [ty], post, Templates([], bounds=[('left', L), ('pad', pad), ('right', pad - L)], small=False)
    return Task(fn + ('/c' if ty else ''), fn, s, contracts=out.contracts() + [width_contract()])
class Widths:
    """W(o): the total width of the code points before offset o (W(0) = 0, W(o + len) = W(o) + width of the code point at o)"""
    def __init__(s, ex, st, S):
        s.S = S; s.W = z3.Function('W!%d' % ex.cnt, z3.IntSort(), z3.IntSort()); ex.cnt += 1; s.anc = []; s.ex = ex
        ex.add(st, s.W(IV(0)) == 0); old = S.inst
        def inst(t, o, old=old):
            old(t, o); o = ii(o); k = ('W', o.get_id(), S.rid)
            if k in t.seen: return
            t.seen.add(k); ex.keep.append(o)
            c = S.cp(o); n = ii(S.n)
            f = [z3.Implies(z3.And(S.inb(o), S.bd(o)), s.W(o + S.ln(o)) == s.W(o) + wid(ex, t, c)), z3.Implies(z3.And(o >= 0, o <= n, S.bd(o)), z3.And(s.W(o) >= 0, s.W(o) <= 2 * o))]
            for a in s.anc: f += [z3.Implies(z3.And(o >= 0, o <= n, S.bd(o), S.bd(a), a >= 0, a <= n), z3.And(z3.Implies(o < a, s.W(o) + wid(ex, t, c) <= s.W(a)), z3.Implies(o >= a, s.W(o) >= s.W(a))))]
            g = z3.And(*f)
            ex.add(t, z3.Implies(o % S.esz == 0, g) if S.esz > 1 and not aligned(o, S.esz) else g, 'u')
        S.inst = inst
def lemma_widths():
    I = z3.IntSort(); o, a, w = z3.Ints('o a w'); W = z3.Function('W', I, I); v = z3.BitVec('v', 32)
    return [('the width of an ASCII character is 1', z3.Implies(z3.ULT(v, 0x80), wid_def(v) == 1)), ('the width of a code point is 1 or 2', z3.And(wid_def(v) >= 1, wid_def(v) <= 2)),
            ('0 <= W(o) <= 2 o: step (a code point has at least one unit)', z3.Implies(z3.And(W(o) >= 0, W(o) <= 2 * o, w >= 1, w <= 2, a >= 1, W(o + a) == W(o) + w), z3.And(W(o + a) >= 0, W(o + a) <= 2 * (o + a)))),
            ('W is monotone: step', z3.Implies(z3.And(W(o) <= W(a), w >= 1, W(a + 4) == W(a) + w), W(o) <= W(a + 4)))]
def tstr(t, e, ty):
    box = {}
    fn = 'h_str_' + t
    out = Out(e, lambda ex, st, p: box['fill'])
    cs = out.contracts()
    def put(ex, st, a, ins):
        p = ii(st.ghost[POS]); L, O, S = box['L'], box['O'], box['S']; o = Mul(Sub(p, L), e); S.inst(st, o)
        u = bv(a[-1], e * 8); f = z3.Extract(e * 8 - 1, 0, box['fill'])
        one = z3.ULT(box['fill'], 0x80) if e == 1 else z3.ULT(box['fill'], 0x10000)
        if e == 4: one = z3.BoolVal(True)
        ex.prove(st, z3.If(z3.And(p >= L, p < L + O / e if e > 1 else p < L + O), u == S.at(o), z3.And(one, u == f)), out.label); st.ghost[POS] = Add(p, 1); return None
    def putcp(ex, st, a, ins, old=cs[1][1]):
        p = ii(st.ghost[POS]); L, O = box['L'], box['O']
        ex.prove(st, z3.Or(p < L, p >= L + O / e), out.label)
        return old(ex, st, a, ins)
    cs = [contract(r'^vc_emit(8|16|32)$', put, cs[0][1].label), contract(KEEP[0], putcp, cs[1][1].label, trusted=False)]
    def s(ex, st):
        ex.timeout = 20000
        S = UStr(ex, st, 's', e); w, pr, fill, al, args = params(ex, st)
        WS = Widths(ex, st, S); O = ex.fresh('cut', 64, st); O = ii(O); n = ii(S.n)
        ex.add(st, z3.And(O >= 0, O <= n, S.bd(O))); S.mono(st, O); S.mono(st, S.n)
        WS.anc = [O]; S.inst(st, IV(0)); S.inst(st, O); S.inst(st, S.n)
        P = ii(pr)
        # the longest prefix that fits the precision (0: no limit)
        ex.add(st, z3.If(P == 0, O == n, z3.And(WS.W(O) <= P, z3.Or(O == n, WS.W(O) + wid(ex, st, S.cp(O)) > P))))
        for q in (IV(0), O, n):
            k = ('Wx', q.get_id()); st.seen.discard(('W', q.get_id(), S.rid)); S.inst(st, q)
        L, pad = split(ex, st, al, ii(w), WS.W(O))
        box.update(fill=z3.If(fill == 0, BV(32, 32), fill), S=S, L=L, O=O); out.start(st)
        def extra(ctx, u):
            res = []; N, guard, NoVal = u['N'], u['guard'], u['NoVal']
            pos = [(n_, 1) for n_, r in u['ptrs'] if r == S.rid] + [(n_, e) for n_ in u['ints64'] if not n_.startswith('$')]
            for n_, sc in pos:
                def K(env, n_=n_, sc=sc):
                    x = ii(N(env, n_)); x = x * sc if sc > 1 else x
                    if not isc(x): x = z3.simplify(x)
                    S.inst(env.st, x); return x
                res.append(Cand('%s <= cut' % n_, guard(lambda env, K=K: K(env) <= O)))
                for m in u['ints64']:
                    if m == n_ or m.startswith('$'): continue
                    res.append(Cand('%s = W(%s)' % (m, n_), guard(lambda env, K=K, m=m: ii(N(env, m)) == WS.W(K(env)))))
            for n_ in [x for x in u['ints64'] if not x.startswith('$')] + [x for x, r in u['ptrs']]:
                en, e0 = u['entry64'](n_), u['entry64']('$pos') if '$pos' in u['ints64'] else None
                if en is None or e0 is None: continue
                for c in sorted({1, e}):
                    for sg in (1, -1): res.append(Cand('%d*$pos %s %s const' % (c, '-+'[sg < 0], n_), guard(lambda env, n_=n_, c=c, sg=sg, en=en, e0=e0: c * (ii(N(env, '$pos')) - ii(e0)) == sg * (ii(N(env, n_)) - ii(en)))))
            return res
        def post(st, k, v_):
            ex.prove(st, k == 'ret', 'no exception')
            if k == 'ret': ex.prove(st, ii(st.ghost[POS]) == pad + O / e, 'the whole text is written')
        return [S.ptr(), S.units] + args + [ty], post, [Templates([S], bounds=[('left', L), ('pad', pad), ('right', pad - L), ('n', S.n), ('units', S.units), ('prec', pr)], extra=extra, small=False, lean=l, counts=not l) for l in (True, False)]
    return Task(fn + ('/s' if ty else ''), fn, s, contracts=cs + [width_contract()])
def tbool(t, e):
    box = {}
    def item(ex, st, p):
        q = ii(p) - box['L']; c = box['fill']
        for i in reversed(range(5)):
            ch = z3.If(box['v'], BV(ord('true '[i]), 32), BV(ord('false'[i]), 32))
            c = z3.If(z3.And(q == i, i < box['k']), ch, c)
        return c
    out = Out(e, item); fn = 'h_bool_' + t
    def s(ex, st):
        v = ex.fresh('v', 1, st); w, pr, fill, al, args = params(ex, st); n = z3.If(bl(v), IV(4), IV(5))
        k = nm(ex, st, 'used', z3.If(z3.And(ii(pr) != 0, ii(pr) < n), ii(pr), n))
        L, pad = split(ex, st, al, ii(w), k)
        box.update(fill=z3.If(fill == 0, BV(32, 32), fill), v=bl(v), L=L, k=k); out.start(st)
        def post(st, kd, v_):
            ex.prove(st, kd == 'ret', 'no exception')
            if kd == 'ret': ex.prove(st, ii(st.ghost[POS]) == pad + k, 'the whole text is written')
        return [v] + args + [0], post, Templates([], bounds=[('left', L), ('pad', pad), ('right', pad - L), ('used', k)], small=False)
    wc = lambda ex, st, a, ins: z3.If(z3.ULT(ldcp(ex, st, a[0]), 0x80), IV(1), wid(ex, st, ldcp(ex, st, a[0])))
    return Task(fn, fn, s, unroll=8, contracts=out.contracts() + [contract(WIDTH, wc, width_contract()[1].label, trusted=False)])
def twidth():
    def s(ex, st):
        v = ex.fresh('v', 32, st); ex.add(st, scalar(v))
        def post(st, k, r):
            ex.prove(st, k == 'ret', 'no exception')
            if k == 'ret': ex.prove(st, ii(r) == wid_def(v), 'the width is 2 for the wide code points, otherwise 1')
        return [fillarg(ex, st, v)], post, Templates([])
    return Task('estimate_width', '_ZNK7papilio3utf9codepoint14estimate_widthEv', s, unroll=40)
def tasks(tier):
    T = [twidth(), Lemma('lemma/widths', lemma_widths)]
    for t, e in ENC: T += [tcp(t, e, 0), tstr(t, e, 0)]
    T += [tbool('c', 1), tbool('w', 4)]
    return T + [tcp('c', 1, ord('c')), tstr('c', 1, ord('s'))] + ustr_lemmas()
