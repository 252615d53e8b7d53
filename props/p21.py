"""P21: indexing and slicing through an accessor never leaves the range."""
from vc.run import Task
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
from vc import emit
from props.p03 import uniq
SOURCES = {'m': dict(src='p21.cpp', drop=emit.DROP, keep=(r'_ZN7papilio23basic_invalid_attributeI.*C[12]E.*',))}
REPLAY = 'r21.cpp'; REPLAY_SRC = ['src/%s.cpp' % x for x in 'core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general'.split()]
E = 12; MAXN = 1 << 40; NPOS = T63 - 1
KINDS = ('none', 'elem', 'span', 'size', 'bool')
def mons():
    def m(tag):
        def h(ex, st, a, ins):
            st.ghost[('ev',)] = st.ghost.get(('ev',), ()) + ((tag,) + tuple(a),); return None
        return contract('^vc_%s$' % tag, h, 'monitor vc_' + tag, trusted=False)
    return [m(k) for k in KINDS] + [contract('^_ZN7papilio23basic_invalid_attributeI.*C[12]E', lambda ex, st, a, ins: None, 'construction of the exception object basic_invalid_attribute')]
sg = lambda x: z3.If(x < IV(T63), x, x - IV(T64))
def rng(ex, st, kind):
    """-> (region of the elements, number of elements, leading arguments)"""
    n = ex.fresh('n', 64, st); ex.add(st, ii(n) <= MAXN)
    if kind == 'vb':
        w = ex.fresh('words', 64, st); off = ex.fresh('off', 32, st)
        ex.add(st, z3.And(ii(w) <= MAXN, z3.ULT(off, 64)))
        # n == 64 * whole words + bits of the last one
        ex.add(st, ii(n) == ii(w) * 64 + ii(B2I(z3.ZeroExt(32, off))))
        nw = z3.If(off == 0, ii(w), ii(w) + 1)
        r, f = ex.newarray(st, 'words', Mul(nw, 8), 8, const=True)
        o = ex.region(st, 40, 'param', 'vector<bool>', Cells({}, 'lazy'))
        S = lambda k, v, t: ex.store(st, Ptr(o, k), v, t)
        S(0, Ptr(r, 0), ir.PTR); S(8, BV(0, 32), I32); S(16, Ptr(r, Mul(w, 8)), ir.PTR); S(24, off, I32); S(32, Ptr(r, Mul(nw, 8)), ir.PTR)
        return r, n, [Ptr(o, 0)], f
    r = ex.region(st, Mul(n, E), 'param', 'elements', Cells({}, 'lazy'))
    if kind == 'v':
        cap = ex.fresh('cap', 64, st); ex.add(st, z3.And(ii(cap) >= ii(n), ii(cap) <= MAXN))
        r = ex.region(st, Mul(cap, E), 'param', 'elements', Cells({}, 'lazy'))
        o = ex.region(st, 24, 'param', 'vector', Cells({}, 'lazy'))
        for k, v in ((0, 0), (8, Mul(n, E)), (16, Mul(cap, E))): ex.store(st, Ptr(o, k), Ptr(r, v), ir.PTR)
        return r, n, [Ptr(o, 0)], None
    return r, n, [Ptr(r, 0), n], None
def one(ex, st, k, v):
    ex.prove(st, k == 'ret', 'no exception')
    if k != 'ret': return None
    ev = st.ghost.get(('ev',), ())
    ex.prove(st, len(ev) == 1, 'exactly one argument is produced')
    return ev[0] if len(ev) == 1 else None
def index(kind):
    def s(ex, st):
        r, n, args, f = rng(ex, st, kind); i = ex.fresh('i', 64, st)
        x = z3.If(sg(i) < 0, sg(i) + ii(n), sg(i)); inside = z3.And(x >= 0, x < ii(n))
        def post(st, k, v):
            e = one(ex, st, k, v)
            if e is None: return
            if e[0] == 'none': ex.prove(st, z3.Not(inside), 'an index inside the range is not reported as missing'); return
            ex.prove(st, inside, 'an index outside the range is reported as missing')
            if kind == 'vb':
                ex.prove(st, e[0] == 'bool', 'the argument is the element')
                w = I2B(ii(rd(ex, st, r, 8 * (x / 64), 8)), 64)
                ex.prove(st, bl(e[1]) == (B2I(w & (BV(1, 64) << I2B(x % 64, 64))) != 0), 'the argument is the addressed element (bit x%64 of word x/64)')
            else:
                ex.prove(st, e[0] == 'elem' and isinstance(e[1], Ptr) and e[1].r == r, 'the argument is the element')
                if e[0] == 'elem' and isinstance(e[1], Ptr): ex.prove(st, ii(e[1].o) == x * E, 'the argument is the addressed element')
        return args + [i], post, None
    return Task('h_index_' + kind, 'h_index_' + kind, s, contracts=mons())
def slice_(kind):
    def s(ex, st):
        r, n, args, f = rng(ex, st, kind); a = ex.fresh('a', 64, st); b = ex.fresh('b', 64, st); N = ii(n)
        cl = lambda x: z3.If(x < 0, IV(0), z3.If(x > N, N, x))
        neg = lambda x: z3.If(sg(x) < 0, sg(x) + N, sg(x))
        lo = cl(neg(a)); hi = cl(neg(b))
        def post(st, k, v):
            e = one(ex, st, k, v)
            if e is None: return
            if e[0] == 'none': ex.prove(st, lo >= hi, 'nothing only when the slice is empty'); return
            ex.prove(st, lo < hi, 'an empty slice yields nothing')
            ok = e[0] == 'span' and isinstance(e[1], Ptr) and e[1].r == r
            ex.prove(st, ok, 'the argument is a part of the range')
            if ok:
                ex.prove(st, ii(e[1].o) == lo * E, 'the slice starts at its first element'); ex.prove(st, ii(e[2]) == hi - lo, 'the slice has the elements between its ends')
        return args + [a, b], post, None
    return Task('h_slice_' + kind, 'h_slice_' + kind, s, contracts=mons())
def tuple_(m):
    def s(ex, st):
        r = ex.region(st, m * E, 'param', 'tuple', Cells({}, 'lazy')); i = ex.fresh('i', 64, st)
        x = z3.If(sg(i) < 0, sg(i) + m, sg(i)); inside = z3.And(x >= 0, x < m)
        def post(st, k, v):
            e = one(ex, st, k, v)
            if e is None: return
            if e[0] == 'none': ex.prove(st, z3.Not(inside), 'an index inside the tuple is not reported as missing'); return
            ex.prove(st, inside, 'an index outside the tuple is reported as missing')
            ok = e[0] == 'elem' and isinstance(e[1], Ptr) and e[1].r == r
            ex.prove(st, ok, 'the argument is the element')
            # std::tuple of this ABI stores its elements last first, std::pair first first
            if ok: ex.prove(st, ii(e[1].o) == (x * E if m == 2 else (m - 1 - x) * E), 'the argument is the addressed element')
        return [Ptr(r, 0), i], post, None
    return Task('h_tuple_%d' % m, 'h_tuple_%d' % m, s, contracts=mons())
def attr(kind):
    def s(ex, st):
        r, n, args, f = rng(ex, st, kind)
        k = ex.fresh('k', 64, st); ex.add(st, ii(k) <= MAXN)
        t, g = ex.newarray(st, 'name', k, 1, const=True)
        def post(st, kd, v):
            same = And(Eq(k, 4), *[g(IV(j)) == ord(ch) for j, ch in enumerate('size')])
            evs = st.ghost.get(('ev',), ())
            if kd == 'throw':
                ex.prove(st, Not(same), 'the attribute size exists'); ex.prove(st, any('invalid_attribute' in x for x in ex.ti_bases(v[0])), 'the exception is invalid_attribute'); return
            ex.prove(st, same, 'every other attribute is refused')
            ok = len(evs) == 1 and evs[0][0] == 'size'
            ex.prove(st, ok, 'the size is reported')
            if ok: ex.prove(st, ii(evs[0][1]) == ii(n), 'the size is the number of elements')
        return args + [Ptr(t, 0), k], post, Templates([], bounds=[('k', k)])
    return Task('h_attr_' + kind, 'h_attr_' + kind, s, contracts=mons())
def str_(kind):
    """the accessor of strings: the range is the sequence of code points"""
    cur = [None]
    def view(ex, st, a, ins):
        S, lo, hi = cur[0]; p, n = a; st.ghost[('ev',)] = st.ghost.get(('ev',), ()) + (('str',),)
        ex.prove(st, Eq(Eq(n, 0), lo >= hi), 'an empty slice is an empty string')
        if isinstance(p, Ptr) and p.r == S.rid:
            z = Add(p.o, n); S.mono(st, p.o); S.mono(st, z); g = lambda f: Implies(Not(Eq(n, 0)), f)
            ex.prove(st, g(And(ULE(0, p.o), ULE(z, S.n))), 'the slice lies inside the string')
            ex.prove(st, g(And(S.bd(p.o), Eq(S.cntf(ii(p.o)), lo))), 'the slice starts at its first code point')
            ex.prove(st, g(And(S.bd(z), Eq(S.cntf(ii(z)), hi))), 'the slice ends behind its last code point')
        else: ex.prove(st, Eq(n, 0), 'the slice lies inside the string')
        return None
    def s(ex, st):
        S = UStr(ex, st, 's', 1); T = S.total(); args = [S.ptr(), S.units]; bounds = [('n', S.n)]
        S.mono(st, S.n); S.mono(st, 0); extra = []
        if kind == 'attr':
            k = ex.fresh('k', 64, st); ex.add(st, ii(k) <= MAXN); t, g = ex.newarray(st, 'name', k, 1, const=True); args += [Ptr(t, 0), k]; bounds += [('k', k)]
        else:
            a = ex.fresh('a', 64, st); args += [a]; bounds += [('a', a), ('|a|', z3.If(a < IV(T63), a, IV(T64) - a)), ('~a', z3.If(a < IV(T63), a, IV(T64) - a - 1))]
            if kind == 'slice': b = ex.fresh('b', 64, st); args += [b]; bounds += [('b', b), ('|b|', z3.If(b < IV(T63), b, IV(T64) - b))]
        cl = lambda x: z3.If(x < 0, IV(0), z3.If(x > T, T, x)); neg = lambda x: z3.If(sg(x) < 0, sg(x) + T, sg(x))
        if kind == 'slice': cur[0] = (S, cl(neg(a)), cl(neg(b)))
        def post(st, kd, v):
            ev = st.ghost.get(('ev',), ())
            if kind == 'attr':
                w = {nm: And(Eq(k, len(nm)), *[g(IV(j)) == ord(ch) for j, ch in enumerate(nm)]) for nm in ('length', 'size')}
                if kd == 'throw': ex.prove(st, Not(Or(*w.values())), 'the attributes length and size exist'); ex.prove(st, any('invalid_attribute' in x for x in ex.ti_bases(v[0])), 'the exception is invalid_attribute'); return
                ok = len(ev) == 1 and ev[0][0] == 'size'; ex.prove(st, ok, 'a number is reported')
                if ok: ex.prove(st, Or(And(w['length'], Eq(ev[0][1], T)), And(w['size'], Eq(ev[0][1], S.n))), 'length is the number of code points, size the number of code units')
                return
            ex.prove(st, kd == 'ret', 'no exception')
            if kd == 'ret': ex.prove(st, len(ev) == 1, 'exactly one argument is produced')
        return args, post, Templates([S], bounds=bounds, small=False, signed=kind == 'slice', low=kind == 'slice')
    C = mons() + [contract('^vc_str$', view, 'monitor vc_str', trusted=False)]
    return Task('h_%s_st' % kind, 'h_%s_st' % kind, s, contracts=C)
def stridx(rev):
    """element i of a string, counted from the front or (index -1-i) from the end"""
    cur = [None]
    def cpm(ex, st, a, ins):
        S, has, o = cur[0]; p, n = a; st.ghost[('ev',)] = st.ghost.get(('ev',), ()) + (('cp',),)
        bs = [bv(rd(ex, st, p.r, Add(p.o, k), 1), 8) for k in range(4)]; ln = z3.Int2BV(S.ln(o), 32)
        for k in range(1, 5): ex.prove(st, z3.Implies(z3.And(has, S.ln(o) == k), z3.And(bv(n, 32) == k, *[bs[j] == S.at(Add(o, j)) for j in range(k)])), 'the argument is the addressed code point')
        ex.prove(st, z3.Implies(z3.Not(has), z3.And(bv(n, 32) == 1, bs[0] == 0)), 'an index outside the string yields U+0000')
        return None
    def s(ex, st):
        S = UStr(ex, st, 's', 1); a = ex.fresh('a', 64, st); i = IV(M64) - a if rev else a; ex.add(st, i < IV(T63)); o = ex.fresh('o', 64, st); S.inst(st, o)
        has = i < S.total(); k = S.total() - 1 - i if rev else i
        ex.add(st, z3.Implies(has, z3.And(ii(o) >= 0, ii(o) < ii(S.n), S.bd(o), S.cntf(ii(o)) == k)))
        uniq(ex, st, S, o); cur[0] = (S, has, o)
        def post(st, kd, v):
            ex.prove(st, kd == 'ret', 'no exception')
            if kd == 'ret': ex.prove(st, len(st.ghost.get(('ev',), ())) == 1, 'exactly one argument is produced')
        return [S.ptr(), S.units, a if rev else i], post, Templates([S], bounds=[('n', S.n), ('i', i), ('o', o)])
    return Task('h_index_st/' + ('reverse' if rev else 'forward'), 'h_index_st', s, contracts=mons() + [contract('^vc_cp$', cpm, 'monitor vc_cp', trusted=False)])
def tasks(tier):
    return [index(k) for k in ('sc', 'sm', 'rg', 'v', 'vb')] + [slice_(k) for k in ('sc', 'sm', 'rg', 'v')] + [tuple_(m) for m in (1, 2, 3, 5)] + [attr(k) for k in ('sc', 'sm', 'rg', 'v', 'vb')] + [stridx(False), stridx(True)] + [str_(k) for k in ('slice', 'attr')] + ustr_lemmas()
