"""Specification theory of code-unit strings: boundaries, code points, counts.

A UStr describes a symbolic buffer of n bytes holding well-formed UTF-8/16/32.
`bd`, `lead`, `ln`, `cp` are *defined* by formulas over the buffer contents;
`cnt(off)` (number of code points that start before byte offset off) is an
uninterpreted function given by its recursive definition, instantiated at the
terms the proof mentions.  Offsets are byte offsets."""
import z3
from .sym import *

def u8(x): return z3.ZeroExt(24, x)

def signed(v):
    v = ii(v)
    return z3.If(v < IV(1 << 63), v, v - IV(1 << 64))
def aligned(o, e):
    """syntactic: o is a multiple of e"""
    if isc(o): return o % e == 0
    k = o.decl().kind()
    if z3.is_int_value(o): return o.as_long() % e == 0
    if k == z3.Z3_OP_MUL: return any(z3.is_int_value(o.arg(i)) and o.arg(i).as_long() % e == 0 for i in range(o.num_args()))
    if k == z3.Z3_OP_ADD: return all(aligned(o.arg(i), e) for i in range(o.num_args()))
    return False

class UStr:
    def __init__(s, ex, st, name, esz, n=None, wf=True, const=True, maxlen=1 << 40):
        """n: number of *code units* (BV64) or None for a fresh one"""
        s.ex = ex; s.name = name; s.esz = esz; s.wellformed = wf
        if n is None:
            n = ex.fresh('n_' + name, 64, st)
            ex.add(st, n <= IV(maxlen))
        s.units = n
        s.n = Mul(n, esz)
        s.rid, s.f = ex.newarray(st, name, s.n, esz, hook=lambda e, t, o: s.inst(t, o), const=const)
        s.cntf = z3.Function('cnt_%s!%d' % (name, ex.cnt), z3.IntSort(), z3.IntSort())
        ex.cnt += 1
        s.keep = []
        ex.add(st, s.cntf(IV(0)) == 0)
        s.inst(st, 0)
        s.inst(st, s.n)
    def ptr(s, off=0): return Ptr(s.rid, off)
    # ------------------------------------------------ definitions
    def at(s, o): return s.f(ii(o))
    def inb(s, o): return z3.And(ii(o) >= 0, ii(o) < ii(s.n))
    def is_lead(s, u):
        if s.esz == 1: return (u & 0xC0) != 0x80
        if s.esz == 2: return (u & 0xFC00) != 0xDC00
        return z3.BoolVal(True)
    def lead(s, o): return s.is_lead(s.at(o))
    def bd(s, o):
        o = ii(o)
        b = z3.Or(o == ii(s.n), z3.And(s.inb(o), s.lead(o)))
        if s.esz > 1: b = z3.And(b, o % s.esz == 0)
        return b
    def lenof(s, u):
        if s.esz == 1:
            return z3.If(z3.ULT(u, 0x80), IV(1), z3.If(z3.ULT(u, 0xE0), IV(2), z3.If(z3.ULT(u, 0xF0), IV(3), IV(4))))
        if s.esz == 2: return z3.If((u & 0xFC00) == 0xD800, IV(4), IV(2))
        return IV(4)
    def ln(s, o):
        """bytes occupied by the code point starting at o"""
        return s.lenof(s.at(o))
    def cp(s, o):
        u = s.at(o)
        if s.esz == 1:
            a, b, c, d = [u8(s.at(Add(o, k))) for k in range(4)]
            return z3.If(z3.ULT(u, 0x80), a,
                   z3.If(z3.ULT(u, 0xE0), ((a & 0x1F) << 6) | (b & 0x3F),
                   z3.If(z3.ULT(u, 0xF0), ((a & 0xF) << 12) | ((b & 0x3F) << 6) | (c & 0x3F),
                         ((a & 7) << 18) | ((b & 0x3F) << 12) | ((c & 0x3F) << 6) | (d & 0x3F))))
        if s.esz == 2:
            a, b = z3.ZeroExt(16, u), z3.ZeroExt(16, s.at(Add(o, 2)))
            return z3.If((u & 0xFC00) == 0xD800, BV(0x10000, 32) + (((a & 0x3FF) << 10) | (b & 0x3FF)), a)
        return u
    def cnt(s, st, o):
        s.inst(st, o)
        return s.cntf(ii(o))
    def total(s): return s.cntf(ii(s.n))
    def mono(s, st, o):
        """lemma: cnt is strictly increasing on code point boundaries.  Instantiated for o against every offset the proof mentions"""
        if not hasattr(s, 'anchors'): s.anchors = []
        s.anchors.append(ii(o)); s.inst(st, o)
    def nth(s, st, k, name='o'):
        """a skolem boundary with k code points before it (k <= total; lemma: it exists)"""
        u = s.ex.fresh(name, 64, st)
        o = ii(Mul(u, s.esz)); s.nthu = u
        s.ex.add(st, z3.And(o >= 0, o <= ii(s.n), s.bd(o), s.cntf(o) == ii(k)))
        s.mono(st, o)
        return o
    # ------------------------------------------------ instances of the definitional axioms / well-formedness
    def inst(s, st, o):
        o = ii(o)
        for a in getattr(s, 'anchors', ()):
            key = ('m', s.rid, o.get_id(), a.get_id())
            if key in st.seen or o.eq(a): continue
            st.seen.add(key); s.ex.keep.append(o)
            s.ex.add(st, z3.Implies(z3.And(o >= 0, o <= ii(s.n), s.bd(o), a >= 0, a <= ii(s.n), s.bd(a)), z3.And((s.cntf(o) < s.cntf(a)) == (o < a), (s.cntf(o) == s.cntf(a)) == (o == a))), 'u')
        key = ('u', s.rid, o.get_id())
        if key in st.seen: return
        st.seen.add(key); s.ex.keep.append(o)
        e = s.esz; n = ii(s.n)
        fs = []
        for d in range(0, 4 if e == 1 else 2 if e == 2 else 1):
            p = ii(Add(o, d * e)); q = ii(Add(o, (d + 1) * e))
            fs.append(z3.Implies(z3.And(p >= 0, p < n), s.cntf(q) == s.cntf(p) + z3.If(s.lead(p), IV(1), IV(0))))
        inr = z3.And(o >= 0, o <= n)
        fs.append(z3.Implies(inr, z3.And(s.cntf(o) <= o, s.cntf(o) >= 0, s.cntf(o) <= s.cntf(n))))
        prev = ii(Add(o, -e))
        fs.append(z3.Implies(z3.And(o >= e, o <= n), s.cntf(o) == s.cntf(prev) + z3.If(s.lead(prev), IV(1), IV(0))))
        if s.wellformed:
            if e == 4: fs.append(z3.Implies(z3.And(o >= 0, o <= n), s.cntf(o) * 4 == o))
            # lemmas (by induction, see lemma tasks): 0 < o <= n => 1 <= cnt(o);  lead(o), o < n => cnt(o) < cnt(n)
            fs.append(z3.Implies(z3.And(o > 0, o <= n), s.cntf(o) >= 1))
            fs.append(z3.Implies(z3.And(s.inb(o), s.lead(o)), s.cntf(o) < s.cntf(n)))
            fs += s.wf(o)
        f = z3.And(*fs)
        if e > 1 and not aligned(o, e): f = z3.Implies(o % e == 0, f)
        s.ex.add(st, f, 'u')
    def wf(s, o):
        n = ii(s.n); f = s.at; e = s.esz
        inb = s.inb(o)
        if e == 4:
            u = f(o)
            return [z3.Implies(inb, z3.And(z3.ULE(u, 0x10FFFF), z3.Or(z3.ULT(u, 0xD800), z3.UGT(u, 0xDFFF))))]
        if e == 2:
            u = f(o); nx = Add(o, 2); pv = Add(o, -2)
            hi = (u & 0xFC00) == 0xD800; lo = (u & 0xFC00) == 0xDC00
            return [z3.Implies(z3.And(inb, hi), z3.And(ii(nx) < n, (f(nx) & 0xFC00) == 0xDC00)),
                    z3.Implies(z3.And(inb, lo), z3.And(o >= 2, (f(pv) & 0xFC00) == 0xD800))]
        b0, b1, b2, b3 = f(o), f(Add(o, 1)), f(Add(o, 2)), f(Add(o, 3))
        def tr(b): return (b & 0xC0) == 0x80
        def rng(b, lo, hi): return z3.And(z3.UGE(b, lo), z3.ULE(b, hi))
        def at_bd(k): return z3.Or(ii(Add(o, k)) == n, z3.And(ii(Add(o, k)) < n, z3.Not(tr(f(Add(o, k))))))
        ok = z3.Or(z3.And(z3.ULT(b0, 0x80), at_bd(1)),
                   z3.And(rng(b0, 0xC2, 0xDF), tr(b1), at_bd(2)),
                   z3.And(z3.Or(z3.And(b0 == 0xE0, rng(b1, 0xA0, 0xBF)),
                                z3.And(z3.Or(rng(b0, 0xE1, 0xEC), rng(b0, 0xEE, 0xEF)), tr(b1)),
                                z3.And(b0 == 0xED, rng(b1, 0x80, 0x9F))), tr(b2), at_bd(3)),
                   z3.And(z3.Or(z3.And(b0 == 0xF0, rng(b1, 0x90, 0xBF)),
                                z3.And(rng(b0, 0xF1, 0xF3), tr(b1)),
                                z3.And(b0 == 0xF4, rng(b1, 0x80, 0x8F))), tr(b2), tr(b3), at_bd(4)))
        p1, p2, p3 = f(Add(o, -1)), f(Add(o, -2)), f(Add(o, -3))
        return [z3.Implies(z3.And(inb, z3.Not(tr(b0))), ok),
                z3.Implies(z3.And(inb, tr(b0)),
                    z3.And(o >= 1,
                      z3.Or(z3.And(z3.Not(tr(p1)), z3.UGE(p1, 0xC0)),
                        z3.And(tr(p1), o >= 2, z3.Or(z3.And(z3.Not(tr(p2)), z3.UGE(p2, 0xE0)),
                          z3.And(tr(p2), o >= 3, z3.Not(tr(p3)), z3.UGE(p3, 0xF0)))))))]

def ustr_lemmas():
    """The facts about cnt that UStr.inst instantiates, proved from the recursive definition of cnt and from
    well-formedness by induction on the offset (base and step obligations), per encoding."""
    from .run import Lemma
    def gen(e):
        def g():
            I = z3.IntSort(); f = z3.Function('f', I, WSORT(e)); c = z3.Function('c', I, I); n = z3.Int('n'); o, q, k = z3.Ints('o q k')
            class S: pass
            S = UStr.__new__(UStr); S.esz = e; S.n = n; S.units = n; S.f = f; S.cntf = c
            al = lambda x: x % e == 0 if e > 1 else z3.BoolVal(True)
            step = lambda p: z3.Implies(z3.And(p >= 0, p < n), c(p + e) == c(p) + z3.If(S.lead(p), IV(1), IV(0)))
            D = z3.And(n >= 0, al(n), c(IV(0)) == 0)
            at = lambda x: z3.And(x >= 0, x <= n, al(x))
            imp = lambda *a: z3.Implies(z3.And(D, *a[:-1]), a[-1])
            out = []
            P = lambda x: z3.And(c(x) >= 0, c(x) <= x)
            out += [('0<=cnt<=offset: base', imp(P(IV(0)))), ('0<=cnt<=offset: step', imp(at(o), o < n, P(o), step(o), P(o + e)))]
            M = lambda x, y: c(x) <= c(y)
            out += [('cnt is monotone: base', imp(at(o), M(o, o))), ('cnt is monotone: step', imp(at(o), at(q), o <= q, q < n, M(o, q), step(q), M(o, q + e)))]
            wf = z3.And(*S.wf(IV(0)))
            out += [('the first unit is a lead', imp(n > 0, wf, S.lead(IV(0))))]
            out += [('cnt >= 1 after the first unit', imp(at(o), o > 0, o >= e, step(IV(0)), wf, M(IV(e), o), c(o) >= 1))]
            out += [('a lead is counted', imp(at(o), o < n, S.lead(o), step(o), M(o + e, n), c(o) < c(n)))]
            out += [('code point starts with equal counts coincide', imp(at(o), at(q), o < q, q < n, o + e <= q, S.lead(o), S.lead(q), step(o), M(o + e, q), c(o) != c(q)))]
            out += [('cnt is strictly increasing after a code point start', imp(at(o), at(q), o < q, o + e <= q, S.lead(o), step(o), M(o + e, q), c(o) < c(q)))]
            out += [('aligned offsets differ by a whole unit', imp(at(o), at(q), o < q, o + e <= q))]
            w = z3.Function('w', I, I, I)
            E = lambda x, y: z3.And(at(y), y < x, S.lead(y), c(y) == k)
            out += [('the k-th code point exists: base', imp(k >= 0, z3.Not(k < c(IV(0))))),
                    ('the k-th code point exists: step', imp(at(o), o < n, k >= 0, k < c(o + e), step(o), z3.Implies(k < c(o), E(o, q)), E(o + e, z3.If(k < c(o), q, o))))]
            if e == 4: out += [('UTF-32: cnt(4k) == k: base', imp(c(IV(0)) * 4 == 0)), ('UTF-32: cnt(4k) == k: step', imp(at(o), o < n, c(o) * 4 == o, step(o), c(o + 4) * 4 == o + 4))]
            return out
        return g
    return [Lemma('lemma/cnt-utf%d' % (8 * e), gen(e)) for e in (1, 2, 4)]

class Templates:
    """Generic invariant templates.  They speak about *positions* (any loop variable read as a
    position in a string, optionally displaced by a small counter) and *counters* (any loop
    variable read as a number); no variable of the code is named."""
    def __init__(s, strs=(), bounds=(), extra=None, small=True, consts=(), tails=False, signed=False, lean=False, counts=True, low=False):
        s.low = low; s.signed = signed; s.lean = lean; s.counts = counts
        s.strs = list(strs); s.bounds = list(bounds); s.extra = extra; s.small = small; s.consts = list(consts); s.tails = tails
    def bnds(s, n, ptrs):
        """bounds that make sense for n: an entry may name the regions it speaks about"""
        r = dict(ptrs).get(n)
        for b in s.bounds:
            if len(b) == 2 or r is None or r == b[2]: yield b[:2]
    def __call__(s, ctx):
        ex = ctx.ex
        out = []
        ints64 = []; small = []; ptrs = []; bools = []
        for n, v in ctx.vars.items():
            if isinstance(v, (Ptr,)): ptrs.append((n, v.r))
            elif isinstance(v, PInt): ptrs.append((n, v.r))
            elif isinstance(v, list) or v is UNDEF: pass
            elif isc(v): pass
            elif z3.is_bool(v): bools.append(n)
            elif z3.is_int(v): ints64.append(n)
            elif z3.is_bv(v):
                small.append(n)
        W = {n: (64 if z3.is_int(ctx.vars[n]) else ctx.vars[n].size()) for n in ints64 + small}
        def num(env, n):
            v = env[n]
            if v is None or v is UNDEF: return None
            if isinstance(v, (Ptr, PInt)): return v.o
            return v
        def num64(env, n):
            v = num(env, n)
            if v is None: return None
            if isc(v): return int(v)
            return ii(v)
        def entry(n):
            if n in ctx.entry: v = ctx.entry[n]
            elif n in ctx.gh: v = ctx.gh[n][1]
            else: v = ctx.cells[ctx.cellname[n]][0]
            if isinstance(v, (Ptr, PInt)): return v.o
            return v
        def entry64(n):
            v = entry(n)
            if v is None or v is UNDEF: return None
            if isc(v): return int(v)
            return ii(v)
        def C(label, f): out.append(Cand(label, f))
        def guard(f):
            def g(env):
                try: return f(env)
                except NoVal: return None
            return g
        class NoVal(Exception): pass
        def N(env, n):
            v = num64(env, n)
            if v is None: raise NoVal()
            return v
        def ent(f):
            try: return f(ctx.env_entry(ctx.est))
            except NoVal: return None
        alln = ints64 + [p for p, _ in ptrs]
        reg = dict(ptrs)
        apart = lambda n, m: n in reg and m in reg and reg[n] != reg[m]
        # plain numeric facts
        for n in alln + small:
            e = entry64(n)
            if n in small and e is not None and not isc(e):
                C('%s == init' % n, lambda env, n=n, e=entry(n): Eq(env[n], e) if env[n] is not None and env[n] is not UNDEF else None); continue
            if e is not None:
                C('%s == init' % n, guard(lambda env, n=n, e=e: Eq(N(env, n), e)))
                C('%s >= init' % n, guard(lambda env, n=n, e=e: ULE(e, N(env, n))))
                C('%s <= init' % n, guard(lambda env, n=n, e=e: ULE(N(env, n), e)))
            if s.signed and n not in small and e is not None:
                C('signed %s <= init' % n, guard(lambda env, n=n, e=e: signed(N(env, n)) <= signed(e)))
                C('signed %s >= init' % n, guard(lambda env, n=n, e=e: signed(N(env, n)) >= signed(e)))
                C('signed %s <= 0' % n, guard(lambda env, n=n: signed(N(env, n)) <= 0))
                C('signed %s >= 0' % n, guard(lambda env, n=n: signed(N(env, n)) >= 0))
                for bn, b in [x[:2] for x in s.bounds]:
                    C('signed %s <= %s' % (n, bn), guard(lambda env, n=n, b=b: signed(N(env, n)) <= signed(b)))
                    C('signed %s >= %s' % (n, bn), guard(lambda env, n=n, b=b: signed(N(env, n)) >= signed(b)))
            for bn, b in s.bnds(n, ptrs) if n not in small else ():
                C('%s <= %s' % (n, bn), guard(lambda env, n=n, b=b: ULE(N(env, n), b)))
        for n in ints64:
            C('%s <= 4' % n, guard(lambda env, n=n: ULE(N(env, n), 4)))
        for n in small:
            for k in range(0, 5):
                C('%s <= %d' % (n, k), guard(lambda env, n=n, k=k: ULE(N(env, n), k)))
        for n in bools:
            C('%s' % n, lambda env, n=n: bl(env[n]) if env[n] is not None else None)
            C('!%s' % n, lambda env, n=n: Not(env[n]) if env[n] is not None else None)
        for i, n in enumerate(alln if not s.lean else ()):
            for m in alln[i + 1:]:
                en, em = entry64(n), entry64(m)
                if en is None or em is None or apart(n, m): continue
                C('%s - %s const' % (n, m), guard(lambda env, n=n, m=m, en=en, em=em: Eq(Sub(N(env, n), N(env, m)), Sub(en, em))))
                C('%s + %s const' % (n, m), guard(lambda env, n=n, m=m, en=en, em=em: Eq(Add(N(env, n), N(env, m)), Add(en, em))))
                for k in (2, 4):
                    C('%s - %d*%s const' % (n, k, m), guard(lambda env, n=n, m=m, en=en, em=em, k=k: Eq(Sub(N(env, n), Mul(N(env, m), k)), Sub(en, Mul(em, k)))))
                    C('%s - %d*%s const' % (m, k, n), guard(lambda env, n=n, m=m, en=en, em=em, k=k: Eq(Sub(N(env, m), Mul(N(env, n), k)), Sub(em, Mul(en, k)))))
        for n in alln if not s.lean else ():
            for m in alln:
                if n == m or apart(n, m): continue
                C('%s <= %s' % (n, m), guard(lambda env, n=n, m=m: ULE(N(env, n), N(env, m))))
        # positions
        def per(S):
            pos = []       # (label, fn(env)->offset term)
            for n, r in ptrs:
                if r == S.rid:
                    pos.append((n, lambda env, n=n: N(env, n), [n]))
                elif r != 0: continue
            for n in ints64:
                pos.append((n + '*%d' % S.esz if S.esz > 1 else n, lambda env, n=n: Mul(N(env, n), S.esz), [n]))
            base = list(pos)
            for n, r in ptrs if S.esz > 1 else ():
                if r == S.rid: C('%s: %s is at a whole unit' % (S.name, n), guard(lambda env, n=n: (N(env, n) % S.esz) == 0))
            for lb, f, vs in base:
                for m in small + ints64:
                    if m in vs: continue
                    def lf(env, f=f, m=m):
                        o = f(env); S.inst(env.st, o)
                        return Implies(And(ULE(0, o), ULT(o, S.n)), Eq(S.ln(o), Mul(N(env, m), S.esz)))
                    C('%s: ln(%s) == %s' % (S.name, lb, m), guard(lf))
                for m in ints64 if s.low else ():
                    if m in vs: continue
                    def ll(env, f=f, m=m):
                        o = f(env); S.inst(env.st, o)
                        return Implies(And(ULE(0, o), ULT(o, S.n)), Eq(S.ln(o), Mul(N(env, m) % 256, S.esz)))
                    C('%s: ln(%s) == low byte of %s' % (S.name, lb, m), guard(ll))
                for m in small if not s.lean or s.counts else ():
                    pos.append(('%s+%s' % (lb, m), lambda env, f=f, m=m: Add(f(env), Mul(N(env, m), S.esz)), vs + [m]))
                for m in ints64 if not s.lean else ():
                    if m in vs: continue
                    pos.append(('%s+%s*' % (lb, m), lambda env, f=f, m=m: Add(f(env), Mul(N(env, m), S.esz)), vs + [m]))
            for lb, f, vs in pos:
                def bdf(env, f=f):
                    o = f(env); S.inst(env.st, o); return S.bd(o)
                C('%s: %s <= n' % (S.name, lb), guard(lambda env, f=f: And(ULE(0, f(env)), ULE(f(env), S.n))))
                C('%s: bd(%s)' % (S.name, lb), guard(bdf))
                # counters
                for z in ints64 if s.counts else ():
                    if z in vs: continue
                    ez = entry64(z)
                    if ez is None: continue
                    e0 = ent(f)
                    if e0 is None: continue
                    def cf(env, f=f, z=z, ez=ez, e0=e0, sg=1):
                        o = f(env)
                        S.inst(env.st, o); S.inst(env.st, e0)
                        d = Sub(N(env, z), ez)
                        a = S.cntf(ii(o)); b = S.cntf(ii(e0))
                        return a == ii(Add(b, d)) if sg > 0 else a == ii(Sub(b, d))
                    C('%s: cnt(%s) ~ +%s' % (S.name, lb, z), guard(cf))
                    C('%s: cnt(%s) ~ -%s' % (S.name, lb, z), guard(lambda env, cf=cf: cf(env, sg=-1)))
                    if s.signed:
                        def cs(env, f=f, z=z, ez=ez, e0=e0, sg=1):
                            o = f(env); S.inst(env.st, o); S.inst(env.st, e0)
                            d = signed(N(env, z)) - signed(ez)
                            return S.cntf(ii(o)) == S.cntf(ii(e0)) + (d if sg > 0 else -d)
                        C('%s: cnt(%s) ~ +signed %s' % (S.name, lb, z), guard(cs))
                        C('%s: cnt(%s) ~ -signed %s' % (S.name, lb, z), guard(lambda env, cs=cs: cs(env, sg=-1)))
            if s.tails and S.esz == 1:
                for lb, f, vs in base:
                    for m in small:
                        for c in (2, 3, 4):
                            def tf(env, f=f, m=m, c=c):
                                o = f(env)
                                return Implies(Eq(env[m], c, W[m]), And(*[Not(S.lead(Add(o, d))) for d in range(1, c)]))
                            C('%s: %s==%d => tail(%s)' % (S.name, m, c, lb), guard(tf))
                        for z in ints64:
                            ez = entry64(z)
                            if z in vs or ez is None: continue
                            e0 = ent(f)
                            if e0 is None: continue
                            def t1(env, f=f, m=m, z=z, ez=ez, e0=e0):
                                o = f(env); S.inst(env.st, o); S.inst(env.st, e0)
                                d = ii(Add(S.cntf(ii(e0)), Sub(N(env, z), ez)))
                                return Implies(And(ULT(o, S.n), Or(Not(S.lead(o)), Eq(env[m], 0, W[m]))), S.cntf(ii(o)) == d)
                            def t2(env, f=f, m=m, z=z, ez=ez, e0=e0):
                                o = f(env); S.inst(env.st, o); S.inst(env.st, e0)
                                d = ii(Add(S.cntf(ii(e0)), Sub(N(env, z), ez)))
                                return Implies(And(ULT(o, S.n), S.lead(o), Not(Eq(env[m], 0, W[m]))), S.cntf(ii(o)) + 1 == d)
                            C('%s: trail(%s) or !%s => cnt ~ %s' % (S.name, lb, m, z), guard(t1))
                            C('%s: lead(%s) and %s => cnt ~ %s-1' % (S.name, lb, m, z), guard(t2))
                        for bn, b in [x[:2] for x in s.bounds]:
                            C('%s: lead(%s) and %s => < %s' % (S.name, lb, m, bn), guard(lambda env, f=f, m=m, b=b: Implies(And(S.lead(f(env)), Not(Eq(env[m], 0, W[m]))), ULT(f(env), b))))
            # guarded forms for small counters:  m == c  =>  ...
            if s.small:
                for lb, f, vs in base:
                    for m in small + bools:
                        vals = range(0, 5) if m in small else (True, False)
                        for c in vals:
                            for d in range(0, 4 if S.esz == 1 else 2):
                                def gf(env, f=f, m=m, c=c, d=d):
                                    mv = env[m]
                                    if mv is None or mv is UNDEF: return None
                                    g = Eq(mv, c, W.get(m, 64)) if m in W else (bl(mv) if c else Not(mv))
                                    o = Add(f(env), d * S.esz); S.inst(env.st, o)
                                    return Implies(g, S.bd(o))
                                C('%s: %s==%s => bd(%s+%d)' % (S.name, m, c, lb, d), guard(gf))
                                for z in ints64:
                                    if z in vs: continue
                                    ez = entry64(z)
                                    if ez is None: continue
                                    e0 = ent(f)
                                    if e0 is None: continue
                                    def gc(env, f=f, m=m, c=c, d=d, z=z, ez=ez, e0=e0):
                                        mv = env[m]
                                        if mv is None or mv is UNDEF: return None
                                        g = Eq(mv, c, W.get(m, 64)) if m in W else (bl(mv) if c else Not(mv))
                                        o = Add(f(env), d * S.esz); S.inst(env.st, o); S.inst(env.st, e0)
                                        return Implies(g, S.cntf(ii(o)) == ii(Add(S.cntf(ii(e0)), Sub(N(env, z), ez))))
                                    C('%s: %s==%s => cnt(%s+%d) ~ +%s' % (S.name, m, c, lb, d, z), guard(gc))
                                    if m in bools or (S.esz == 2 and c < 2):
                                        def gd(env, f=f, m=m, c=c, d=d, z=z, ez=ez, e0=e0):
                                            mv = env[m]
                                            if mv is None or mv is UNDEF: return None
                                            g = Eq(mv, c, W[m]) if m in W else (bl(mv) if c else Not(mv))
                                            o = Add(f(env), d * S.esz); S.inst(env.st, o); S.inst(env.st, e0)
                                            return Implies(g, S.cntf(ii(o)) == ii(Add(S.cntf(ii(e0)), Sub(N(env, z), ez))) + 1)
                                        C('%s: %s==%s => cnt(%s+%d) ~ +%s+1' % (S.name, m, c, lb, d, z), guard(gd))
        for S in s.strs: per(S)
        if s.extra: out += s.extra(ctx, dict(ints64=ints64, small=small, ptrs=ptrs, bools=bools, N=N, guard=guard, entry64=entry64, NoVal=NoVal))
        return out
