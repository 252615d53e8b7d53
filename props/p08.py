"""P08: integers are formatted exactly as their specification says."""
from vc.run import Task, Lemma
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
from vc.emit import *
SOURCES = {'m': dict(src='p08.cpp', keep=KEEP + (WIDTH,), drop=DROP)}
REPLAY = 'r08.cpp'; REPLAY_SRC = ['src/%s.cpp' % x for x in 'core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general'.split()]
UD = {b: z3.Function('UD%d' % b, z3.BitVecSort(32), z3.BitVecSort(32)) for b in (2, 8, 10, 16)}
UR = {b: z3.Function('UR%d' % b, z3.BitVecSort(32), z3.BitVecSort(32)) for b in (2, 8, 10, 16)}
def divfacts(b, x, q, r): return z3.And(z3.ULT(r, b), z3.ULE(q, x), z3.Implies(z3.ULT(x, b), z3.And(q == 0, r == x)), z3.Implies(z3.UGE(x, b), q != 0))
def divhook(ex, st, op, a, b, w):
    """32-bit division by a constant base: quotient and remainder of the magnitudes (lemma/division)"""
    if w != 32 or not isc(b) or b not in UD or isc(a): return None
    def ud(x):
        k = ('ud', b, x.get_id())
        if k not in st.seen: st.seen.add(k); ex.keep.append(x); ex.add(st, divfacts(b, x, UD[b](x), UR[b](x)), 'u')
        return UD[b](x), UR[b](x)
    if op in ('udiv', 'urem'): return ud(a)[op == 'urem']
    n = a < 0; x = z3.If(n, -a, a); q, r = ud(x); y = r if op == 'srem' else q
    return z3.If(n, -y, y)
def lemma_div():
    x = z3.BitVec('x', 32); out = []
    for b in (2, 8, 10, 16):
        B = BV(b, 32); ax = z3.If(x < 0, -x, x); q, r = z3.UDiv(x, B), z3.URem(x, B)
        out.append(('base %d: quotient and remainder' % b, divfacts(b, x, q, r)))
        out.append(('base %d: signed quotient' % b, x / B == z3.If(x < 0, -z3.UDiv(ax, B), z3.UDiv(ax, B))))
        out.append(('base %d: signed remainder' % b, z3.SRem(x, B) == z3.If(x < 0, -z3.URem(ax, B), z3.URem(ax, B))))
    return out
class Digits:
    """the digits of the magnitude: R(0) = |v|, R(k+1) = R(k) / base, the k-th digit from the right is R(k) mod base;
    there are ND of them: ND >= 1 is the first k with R(k) = 0"""
    def __init__(s, ex, st, v, w, sgnd, base, upper):
        s.ex = ex; s.base = base; s.upper = upper; s.w = w; s.sg = sgnd
        ex.cnt += 1; s.id = ex.cnt
        s.big = w == 64
        so = z3.IntSort() if s.big else z3.BitVecSort(32)
        s.R = z3.Function('R!%d' % ex.cnt, z3.IntSort(), so)
        if s.big:
            sv = ii(signed(v)) if sgnd else ii(v); s.neg = sv < 0; s.A = z3.If(s.neg, -sv, sv)
        else:
            x = bv(v, w)
            x = (z3.SignExt(32 - w, x) if sgnd else z3.ZeroExt(32 - w, x)) if w < 32 else x
            s.neg = x < 0 if sgnd else z3.BoolVal(False); s.A = z3.If(s.neg, -x, x) if sgnd else x
        s.lim = []; m = (1 << w - 1) if sgnd else (1 << w) - 1
        while m: s.lim.append(m); m //= base
        s.ND = z3.Int('ND!%d' % ex.cnt)
        ex.add(st, z3.And(s.R(IV(0)) == s.A, s.ND >= 1, s.ND <= len(s.lim), s.z(s.R(s.ND))), 'u')      # ND exists: R(len(lim)) = 0, lemma/limits
        s.inst(st, IV(0)); s.inst(st, s.ND - 1)
    def z(s, r): return r == 0
    def div(s, r): return r / s.base if s.big else UD[s.base](r)
    def mod(s, r): return r % s.base if s.big else UR[s.base](r)
    def le(s, a, b): return a <= b if s.big else z3.ULE(a, b)
    def inst(s, st, k):
        k = ii(k); key = ('dig', s.id, k.get_id())
        if key in st.seen: return
        st.seen.add(key); s.ex.keep.append(k)
        r = s.R(k)
        f = [s.R(k + 1) == s.div(r), z3.Implies(z3.And(k >= 1, k < s.ND), z3.Not(s.z(r))), z3.Implies(z3.And(k >= 0, k + 1 < s.ND), z3.Not(s.z(s.R(k + 1))))]
        f += [r >= 0] if s.big else [divfacts(s.base, r, s.div(r), s.mod(r))]
        s.ex.add(st, z3.Implies(k >= 0, z3.And(*f)), 'u')
    def ch(s, k):
        """the k-th digit from the right as a 32-bit character"""
        d = s.mod(s.R(ii(k)))
        if s.big: d = z3.If(d == 0, BV(0, 32), BV(s.base - 1, 32)) if s.base == 2 else z3.Int2BV(d, 32)
        return z3.If(z3.ULT(d, 10), 48 + d, (65 if s.upper else 97) + d - 10) if s.base > 10 else 48 + d
    def limit(s, k):
        e = IV(0) if s.big else BV(0, 32)
        for i in reversed(range(len(s.lim))): e = z3.If(k == i, IV(s.lim[i]) if s.big else BV(s.lim[i], 32), e)
        return e
def task(fn, w, sgnd, esz, ty):
    box = {}
    base = {'d': 10, 'x': 16, 'X': 16, 'o': 8, 'b': 2, 'B': 2, '0': 10}[ty]
    def item(ex, st, p):
        D = box['D']; p = ii(p)
        k = D.ND - 1 - (p - box['d0']); D.inst(st, k)
        e = box['fill']
        e = z3.If(p < box['d0'] + D.ND, D.ch(k), e)
        e = z3.If(p < box['d0'], BV(48, 32), e)
        if base != 10:
            e = z3.If(z3.And(box['alt'], p < box['p0'] + box['pre']), z3.If(p == box['p0'], BV(48, 32), BV(ord({'o': '0'}.get(ty, ty)), 32)), e)
        e = z3.If(p < box['p0'], z3.If(D.neg, BV(45, 32), z3.If(box['sign'] == 1, BV(43, 32), BV(32, 32))), e)
        return z3.If(p < box['L'], box['fill'], e)
    out = Out(esz, item)
    def s(ex, st):
        ex.divhook = divhook; ex.timeout = 20000
        v = ex.fresh('v', w, st); width = ex.fresh('width', 64, st); fill = ex.fresh('fill', 32, st); al = ex.fresh('align', 8, st); sg = ex.fresh('sign', 8, st)
        z = ex.fresh('zero', 1, st); alt = ex.fresh('alt', 1, st)
        ex.add(st, z3.And(scalar(fill), z3.ULE(al, 3), z3.ULE(sg, 3)))
        D = Digits(ex, st, v, w, sgnd, base, ty in 'XB'); box['D'] = D; ND = D.ND
        W = ii(width); I = lambda c, a, b: z3.If(c, IV(a) if isc(a) else a, IV(b) if isc(b) else b)
        sl = I(z3.Or(sg == 1, sg == 3, D.neg), 1, 0); pre = I(alt, {10: 0, 8: 1}.get(base, 2), 0)
        used = ND + sl + pre; pad = I(W > used, W - used, 0)
        zz = z3.And(z, al == 0)
        L = I(z3.Or(zz, al == 1), 0, I(al == 2, pad / 2, pad)); Z = I(zz, pad, 0); Rr = pad - L - Z
        def nm(n, t):
            x = z3.Int('%s!%d' % (n, ex.cnt)); ex.add(st, x == t, 'u'); return x
        L, Z, Rr, pad, pre = nm('left', L), nm('zeros', Z), nm('right', Rr), nm('pad', pad), nm('pre', pre)
        box.update(fill=z3.If(fill == 0, BV(32, 32), fill), sign=sg, alt=alt, pre=pre, L=L, p0=nm('p0', L + sl), d0=nm('d0', L + sl + pre + Z))
        out.start(st)
        def extra(ctx, u):
            res = []; N, guard, NoVal = u['N'], u['guard'], u['NoVal']
            pos = [(n, 1) for n in u['ints64'] if not n.startswith('$')] + [(n, esz) for n, r in u['ptrs']]
            rids = [k[1] for k in ex.modset.get(ctx.key, ()) if k[0] == 'arr']
            for n, sc in pos:
                def K(env, n=n, sc=sc):
                    x = ii(N(env, n)); x = x / sc if sc > 1 else x
                    if not isc(x): x = z3.simplify(x)
                    D.inst(env.st, x); return x
                res += [Cand('%s < ND' % n, guard(lambda env, K=K: K(env) < ND)),
                        Cand('R(%s) <= R(0)' % n, guard(lambda env, K=K: D.le(D.R(K(env)), D.A))),
                        Cand('R(%s) <= limit' % n, guard(lambda env, K=K: D.le(D.R(K(env)), D.limit(K(env))))),
                        Cand('%s = 0 or R(%s) != 0' % (n, n), guard(lambda env, K=K: z3.Or(K(env) == 0, z3.Not(D.z(D.R(K(env)))))))]
                def before(env, K=K):
                    k = K(env); D.inst(env.st, k - 1); return z3.Or(k == 0, z3.Not(D.z(D.R(k - 1))))
                res.append(Cand('%s = 0 or R(%s - 1) != 0' % (n, n), guard(before)))
                for b in u['bools']:
                    def bv_(env, b=b):
                        if env[b] is None or env[b] is UNDEF: raise NoVal()
                        return bl(env[b])
                    for t in (True, False):
                        res += [Cand('%s%s => %s < ND' % ('' if t else '!', b, n), guard(lambda env, K=K, t=t, f=bv_: z3.Implies(f(env) == t, K(env) < ND))),
                                Cand('%s%s => %s = ND' % ('' if t else '!', b, n), guard(lambda env, K=K, t=t, f=bv_: z3.Implies(f(env) == t, K(env) == ND)))]
                for m in (u['ints64'] if D.big else u['small']):
                    if m == n or m.startswith('$'): continue
                    def g(env, K=K, m=m):
                        x = env[m]
                        if x is None or x is UNDEF: raise NoVal()
                        r = D.R(K(env))
                        if D.big: return (ii(signed(x)) if sgnd else ii(x)) == z3.If(D.neg, -r, r)
                        x = bv(x, ctx.vars[m].size())
                        if x.size() < 32: x = z3.SignExt(32 - x.size(), x) if sgnd else z3.ZeroExt(32 - x.size(), x)
                        return x == z3.If(D.neg, -r, r)
                    res.append(Cand('%s = +-R(%s)' % (m, n), guard(g)))
                for rid in rids:
                    if ex.regions[rid].kind != 'stack': continue
                    res.append(FCand('digits in %d up to %s' % (rid, n), rid, esz, lambda env, K=K: (IV(0), K(env)),
                        lambda env, j, x: (D.inst(env.st, j), bv(x, esz * 8) == (D.ch(j) if esz == 4 else z3.Extract(esz * 8 - 1, 0, D.ch(j))))[1]))
            return res
        def post(st, k, v_):
            ex.prove(st, k == 'ret', 'no exception')
            if k != 'ret': return
            ex.prove(st, ii(st.ghost[POS]) == box['d0'] + ND + Rr, 'the whole text is written')
        return [v, width, fillarg(ex, st, fill), al, sg, z, alt, ord(ty) if ty != '0' else 0], post, Templates([], bounds=[('left', L), ('right', Rr), ('zeros', Z), ('digits', ND)], extra=extra, small=False)
    return Task('%s/%s' % (fn, ty), fn, s, contracts=out.contracts())
def ctask(fn, w, sgnd, esz):
    """presentation type c: the code point with that value, padded on the right by default; an exception when there is none"""
    box = {}
    def item(ex, st, p): return z3.If(ii(p) == box['L'], box['v'], box['fill'])
    out = Out(esz, item)
    def s(ex, st):
        v = ex.fresh('v', w, st); width = ex.fresh('width', 64, st); fill = ex.fresh('fill', 32, st); al = ex.fresh('align', 8, st); sg = ex.fresh('sign', 8, st)
        z = ex.fresh('zero', 1, st); alt = ex.fresh('alt', 1, st)
        ex.add(st, z3.And(scalar(fill), z3.ULE(al, 3), z3.ULE(sg, 3)))
        if w == 64: y = z3.BitVec('v64!%d' % ex.cnt, 64); v = B2I(y); ok = z3.ULE(y, 0x10FFFF); y = X(31, 0, y)
        else:
            y = (z3.SignExt(32 - w, v) if sgnd else z3.ZeroExt(32 - w, v)) if w < 32 else v
            ok = z3.ULE(y, 0x10FFFF)
        c = y
        ex.add(st, z3.Implies(ok, scalar(c)))       # surrogates are no characters
        W = ii(width); pad = z3.If(W > wid(ex, st, c), W - wid(ex, st, c), IV(0))
        def nm(n, t):
            q = z3.Int('%s!%d' % (n, ex.cnt)); ex.add(st, q == t, 'u'); return q
        L = nm('left', z3.If(al == 1, IV(0), z3.If(al == 2, pad / 2, z3.If(al == 3, pad, IV(0)))))
        pad = nm('pad', pad)
        box.update(fill=z3.If(fill == 0, BV(32, 32), fill), v=c, L=L)
        out.start(st)
        def post(st, k, v_):
            if k == 'throw':
                ex.prove(st, z3.Not(ok), 'an exception only when no code point has that value')
                ex.prove(st, '_ZTIN7papilio12format_errorE' in ex.ti_bases(v_[0]), 'the exception is format_error'); return
            ex.prove(st, ok, 'an exception when no code point has that value')
            ex.prove(st, ii(st.ghost[POS]) == pad + 1, 'the whole text is written')
        return [v, width, fillarg(ex, st, fill), al, sg, z, alt, ord('c')], post, Templates([], bounds=[('left', L), ('pad', pad), ('right', pad - L)], small=False)
    return Task('%s/c' % fn, fn, s, contracts=out.contracts() + [width_contract()])
def tasks(tier):
    A = '0dxXobBc'; T = []
    for fn, w, sg, esz, q in (('h_i64_c', 64, True, 1, A), ('h_i32_c', 32, True, 1, A), ('h_u64_c', 64, False, 1, A), ('h_u32_c', 32, False, 1, A), ('h_i64_16', 64, True, 2, 'Xdc'), ('h_i32_w', 32, True, 4, 'dbc'), ('h_u64_w', 64, False, 4, 'oX'),
                              ('h_i16_c', 16, True, 1, 'dxc'), ('h_u8_c', 8, True, 1, 'dbc')):
        T += [ctask(fn, w, sg, esz) if t == 'c' else task(fn, w, sg, esz, t) for t in (A if tier == 'thorough' else q)]
    return T + [Lemma('lemma/division', lemma_div)]
