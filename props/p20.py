"""P20: escaped output denotes exactly the original text."""
from vc.run import Task, Lemma
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
from vc.emit import *
import re
FMT = r'_ZN7papilio21format_context_traits.*9format_toI.*'
SOURCES = {'m': dict(src='p20.cpp', keep=KEEP + (WIDTH,), drop=(FMT, r'.*vformat_to.*'))}
REPLAY = 'r20.cpp'; REPLAY_SRC = ['src/%s.cpp' % x for x in 'core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general'.split()]
ENC = (('c', 1), ('8', 1), ('16', 2), ('32', 4), ('w', 4))
SUB = ('sub',)                                     # 1: the backslash of a two-character escape has been written
TWO = {9: 't', 10: 'n', 13: 'r', 92: '\\'}
def needs(v, q): return z3.Or(z3.ULT(v, 32), v == 92, v == ord(q))
def esc2(v, q):
    """the second character of the two-character escape of v, 0: there is none"""
    r = BV(0, 32)
    for a, c in list(TWO.items()) + [(ord(q), q)]: r = z3.If(v == a, BV(ord(c), 32), r)
    return r
def w32(c, e): u = bv(c, e * 8); return z3.ZeroExt(32 - 8 * e, u) if e < 4 else u
def replacement(ex, st, a, e):
    """format_to(ctx, literal, values...): the literal is decoded here; the output must be \\u{hex} or \\x{hex}; -> value, is it \\u"""
    n, p, vals = a[1], a[2], a[3:]
    if not isc(n) or not isinstance(p, Ptr): raise Unsupported('format string that is not a literal')
    t = []
    for i in range(n):
        u = ex.load(st, Ptr(p.r, Add(p.o, i * e)), I8 if e == 1 else I16 if e == 2 else I32)
        if not isc(u):
            u = z3.simplify(bv(u, 8 * e))
            if not z3.is_bv_value(u): raise Unsupported('format string that is not a literal')
            u = u.as_long()
        t.append(chr(u))
    t = ''.join(t); m = re.fullmatch(r'(.*?)\{(0?):x\}(.*)', re.sub(r'\{\{|\}\}(?!\})', lambda k: '\ue000' if k[0] == '{{' else '\ue001', t), re.S)
    out = [x.replace('\ue000', '{').replace('\ue001', '}') for x in (m[1], m[3])] if m and not re.search('[{}]', m[1] + m[3]) else None
    ex.prove(st, out is not None and out[1] == '}' and out[0] in ('\\u{', '\\x{'), 'a hexadecimal escape is written as \\u{...} or \\x{...} (format string %r)' % t)
    return ex.load(st, vals[0], I32), out[0] == '\\u{'
TXT = 'every unit written is the next one of the escaped text'; HEX = 'a hexadecimal escape has the value of the character it stands for'
FT = 'format_to(ctx, literal, value) writes the literal text with the replacement field replaced by the value in hexadecimal (stated by P08, P10 and P11)'
def strtask(kind, t, e, wf=True):
    fn = 'h_%s_%s' % (kind, t); box = {}
    def cur(ex, st):
        S = box['S']; o = ii(st.ghost[POS]); S.inst(st, o); return S, o
    def put(ex, st, a, ins):
        S, o = cur(ex, st); u = w32(a[-1], e); first = S.at(o); v = z3.ZeroExt(32 - 8 * e, first) if e < 4 else first
        nd = z3.And(S.bd(o), needs(v, '"')) if e == 1 or wf else needs(v, '"')
        sub = ii(st.ghost[SUB]) == 1; start = z3.And(u == 92, nd)
        rest = z3.And(z3.Not(nd), u == v) if wf else z3.And(z3.Not(nd), u == v, z3.Not(lone(S, o)))
        ex.prove(st, z3.And(o < ii(S.n), o >= 0, z3.If(sub, u == esc2(v, '"'), z3.If(start, esc2(v, '"') != 0, rest))), TXT)
        if ex.must(st, sub): nx = 0
        elif ex.must(st, z3.Not(sub)) and (ex.must(st, start) or ex.must(st, z3.Not(start))): nx = 1 if ex.must(st, start) else 0
        else: nx = z3.If(z3.And(z3.Not(sub), start), IV(1), IV(0))
        st.ghost[SUB] = nx; st.ghost[POS] = (o if nx else Add(o, e)) if isc(nx) else z3.If(nx == 1, o, Add(o, e)); return None
    def lone(S, o):
        # not part of a valid character
        u = S.at(o); n = ii(S.n)
        if e == 2:
            hi = (u & 0xFC00) == 0xD800; lo = (u & 0xFC00) == 0xDC00
            return z3.Or(z3.And(hi, z3.Or(o + 2 >= n, (S.at(o + 2) & 0xFC00) != 0xDC00)), z3.And(lo, z3.Or(o < 2, (S.at(o - 2) & 0xFC00) != 0xD800)))
        tr = lambda b: (b & 0xC0) == 0x80
        def complete(p):
            x = S.at(p); t = lambda k: z3.And(p + k < n, tr(S.at(p + k)))
            return z3.Or(z3.ULT(x, 0x80), z3.And(z3.UGE(x, 0xC0), z3.ULT(x, 0xE0), t(1)), z3.And(z3.UGE(x, 0xE0), z3.ULT(x, 0xF0), t(1), t(2)), z3.And(z3.UGE(x, 0xF0), z3.ULT(x, 0xF8), t(1), t(2), t(3)))
        ok = z3.And(z3.Not(tr(u)), complete(o))
        for d in (1, 2, 3): ok = z3.Or(ok, z3.And(o >= d, *[tr(S.at(o - j)) for j in range(d)], z3.Not(tr(S.at(o - d))), d < S.ln(o - d), complete(o - d)))
        return z3.Not(ok)
    def hexd(ex, st, a, ins):
        S, o = cur(ex, st); first = S.at(o); v = z3.ZeroExt(32 - 8 * e, first) if e < 4 else first
        val, ok = replacement(ex, st, a, e); val = bv(val, 32); ok = z3.BoolVal(ok)
        ctl = z3.And(needs(v, '"'), esc2(v, '"') == 0)
        bad = z3.BoolVal(False) if wf else lone(S, o)
        ex.prove(st, z3.And(st.ghost[SUB] == 0, o < ii(S.n), o >= 0, z3.Or(z3.And(ctl, ok), z3.And(bad, z3.Not(ok))), val == v), HEX)
        st.ghost[POS] = Add(o, e); return None
    cs = [contract(r'^vc_emit(8|16|32)$', put, 'output iterator: each assignment appends exactly the assigned code unit'),
          contract(FMT, hexd, FT), width_contract()]
    def putcp(ex, st, a, ins):
        S, o = cur(ex, st); v = ldcp(ex, st, a[0])
        ex.prove(st, z3.And(st.ghost[SUB] == 0, o < ii(S.n), o >= 0, S.bd(o), z3.Not(needs(S.cp(o), '"')), v == S.cp(o)), TXT); st.ghost[POS] = Add(o, S.ln(o)); return UNDEF
    cs.append(contract(KEEP[0], putcp, 'codepoint::append_to_as: appends the encoding of the code point (proved in P01)', trusted=False))
    def s(ex, st):
        S = UStr(ex, st, 's', e, wf=wf); box['S'] = S; st.ghost[POS] = IV(0); st.ghost[SUB] = 0
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            if k == 'ret': ex.prove(st, And(st.ghost[SUB] == 0, Eq(st.ghost[POS], S.n)), 'the whole text is written')
        def extra(ctx, u):
            res = []; N, guard = u['N'], u['guard']
            if '$pos' not in u['ints64']: return res
            for n_, sc in [(x, 1) for x, r in u['ptrs'] if r == S.rid] + [(x, e) for x in u['ints64'] if x != '$pos']:
                if not wf:
                    def nb(env, n_=n_, sc=sc):
                        o = ii(N(env, n_)) * sc; S.inst(env.st, o)
                        if e == 1: return z3.Or(o < 0, o >= ii(S.n), z3.Not((S.at(o) & 0xC0) == 0x80), lone(S, o))
                        return z3.Not(z3.And(o >= 2, o < ii(S.n), (S.at(o) & 0xFC00) == 0xDC00, (S.at(o - 2) & 0xFC00) == 0xD800))
                    res.append(Cand('%s is not inside a pair' % n_, guard(nb)))
                res.append(Cand('$pos is at %s' % n_, guard(lambda env, n_=n_, sc=sc: ii(N(env, '$pos')) == ii(N(env, n_)) * sc)))
            return res
        return [S.ptr(), S.units], post, Templates([S], bounds=[('n', S.n), ('units', S.units)], small=False, lean=True, counts=False, extra=extra)
    return Task(fn + ('' if wf else '/any'), fn, s, contracts=cs)
def cptask(kind, t, e):
    fn = 'h_%s_%s' % (kind, t); box = {}
    def put(ex, st, a, ins):
        u = w32(a[-1], e); v = box['v']
        if st.ghost[SUB]: ex.prove(st, u == esc2(v, "'"), TXT); st.ghost[SUB] = 0; st.ghost[POS] = Add(st.ghost[POS], 1); return None
        ex.prove(st, z3.And(u == 92, esc2(v, "'") != 0), TXT); st.ghost[SUB] = 1; return None
    def hexd(ex, st, a, ins):
        v = box['v']; val, ok = replacement(ex, st, a, e); val = bv(val, 32); ok = z3.BoolVal(ok)
        ex.prove(st, z3.And(st.ghost[SUB] == 0, needs(v, "'"), esc2(v, "'") == 0, val == v, ok), HEX); st.ghost[POS] = Add(st.ghost[POS], 1); return None
    def putcp(ex, st, a, ins):
        v = box['v']; ex.prove(st, z3.And(st.ghost[SUB] == 0, z3.Not(needs(v, "'")), ldcp(ex, st, a[0]) == v), TXT); st.ghost[POS] = Add(st.ghost[POS], 1); return UNDEF
    cs = [contract(r'^vc_emit(8|16|32)$', put, 'output iterator: each assignment appends exactly the assigned code unit'),
          contract(FMT, hexd, FT), width_contract(),
          contract(KEEP[0], putcp, 'codepoint::append_to_as: appends the encoding of the code point (proved in P01)', trusted=False)]
    def s(ex, st):
        v = ex.fresh('v', 32, st); ex.add(st, scalar(v)); box['v'] = v; n = 1; st.ghost[POS] = IV(0); st.ghost[SUB] = 0
        args = [fillarg(ex, st, v)]
        if kind == 'cp': n = ex.fresh('k', 64, st); args.append(n)
        def post(st, k, v_):
            ex.prove(st, k == 'ret', 'no exception')
            if k == 'ret': ex.prove(st, And(st.ghost[SUB] == 0, Eq(st.ghost[POS], n)), 'the whole text is written, as often as asked for')
        return args, post, Templates([], bounds=[('k', n)], small=False)
    return Task(fn, fn, s, contracts=cs)
def tasks(tier):
    T = []
    for t, e in ENC:
        T += [strtask('str', t, e), strtask('fmt', t, e), cptask('cp', t, e), cptask('fmtcp', t, e)]
    T += [strtask('str', t, e, wf=False) for t, e in ENC if e < 4]
    return T + ustr_lemmas()
