"""P11: literal text and brace escapes are copied exactly; every brace that is neither is an error."""
from vc.run import Task
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
from vc.emit import *
from vc.ir import PTR
FIELD = r'_ZN7papilio17basic_interpreterI.*E(9exec_repl|11exec_script)ER.*'
SOURCES = {'m': dict(src='p11.cpp', keep=KEEP, drop=(FIELD,))}
REPLAY = 'r11.cpp'; REPLAY_SRC = ['src/%s.cpp' % x for x in 'core utf/codepoint utf/string utf/stralgo format locale container access os/posix os/general'.split()]
ENC = (('c', 1), ('8', 1), ('16', 2), ('32', 4), ('w', 4))
TXT = 'every unit written is the next one of the literal text'
def w32(c, e): u = bv(c, e * 8); return z3.ZeroExt(32 - 8 * e, u) if e < 4 else u
def task(kind, t, e, wf=True):
    fn = 'h_%s_%s' % (kind, t); box = {}
    def u32(S, o): u = S.at(o); return z3.ZeroExt(32 - 8 * e, u) if e < 4 else u
    def cur(ex, st):
        S = box['S']; o = ii(st.ghost[POS]); S.inst(st, o); S.inst(st, Add(o, e)); return S, o
    def esc(S, o, q):
        """a doubled brace q starts at o"""
        return z3.And(o >= 0, o + e < ii(S.n), u32(S, o) == q, u32(S, ii(Add(o, e))) == q)
    def brace(S, o): return z3.Or(u32(S, o) == 0x7B, u32(S, o) == 0x7D)
    def step(ex, st, S, o, one):
        d = one if ex.must(st, z3.Not(brace(S, o))) else 2 * e if ex.must(st, brace(S, o)) else z3.If(brace(S, o), IV(2 * e), ii(one))
        st.ghost[POS] = Add(o, d)
    def put(ex, st, a, ins):
        S, o = cur(ex, st); u = w32(a[-1], e)
        if wf:
            lit = z3.And(z3.Not(brace(S, o)), u == u32(S, o), S.ln(o) == e)
            ex.prove(st, z3.And(o >= 0, o < ii(S.n), S.bd(o), z3.Or(lit, z3.And(u == 0x7B, esc(S, o, 0x7B)), z3.And(u == 0x7D, esc(S, o, 0x7D)))), TXT)
            step(ex, st, S, o, IV(e))
        return None
    def putcp(ex, st, a, ins):
        S, o = cur(ex, st)
        if wf:
            v = ldcp(ex, st, a[0]); lit = z3.And(z3.Not(brace(S, o)), v == S.cp(o))
            ex.prove(st, z3.And(o >= 0, o < ii(S.n), S.bd(o), z3.Or(lit, z3.And(v == 0x7B, esc(S, o, 0x7B)), z3.And(v == 0x7D, esc(S, o, 0x7D)))), TXT)
            step(ex, st, S, o, S.ln(o))
        return UNDEF
    def field(ex, st, a, ins):
        """the contract of a replacement or script field: it is entered behind its opening, leaves the parse context at any later code point and writes whatever it writes"""
        S, o = cur(ex, st); script = 'exec_script' in ins.a[0][1]; o2 = ii(Add(o, e))
        if not wf: raise PathDead()
        ex.prove(st, z3.And(o >= 0, o2 < ii(S.n), S.bd(o), u32(S, o) == 0x7B, u32(S, o2) != 0x7B, (u32(S, o2) == 0x24) == script), 'a field begins with one opening brace, a script with the start symbol')
        here = z3.simplify(o2 + (e if script else 0)); c = st.mem[a[0].r]; found = []
        for k, (n, v) in sorted(c.d.items()):
            if e == 4 and isinstance(v, Ptr) and v.r == S.rid and k > 8 and ex.must(st, Eq(v.o, here)): found.append(k)
            if e < 4 and n == 8 and not isinstance(v, (Ptr, PInt)) and v is not UNDEF and (k - 8) in c.d and isinstance(c.d[k - 8][1], Ptr) and c.d[k - 8][1].r == S.rid and ex.must(st, ii(v) * e == here): found.append(k)
        if len(found) != 1: ex.prove(st, False, 'the parse context stands behind the opening of the field'); raise PathDead()
        k = found[0]; u = ex.fresh('q', 64, st); q = z3.simplify(ii(u) * e); S.inst(st, q)
        ex.add(st, z3.And(q >= here, q <= ii(S.n), S.bd(q)))
        if e == 4: ex.store(st, Ptr(a[0].r, k), Ptr(S.rid, q), PTR)
        else:
            ex.store(st, Ptr(a[0].r, k), u, I64); w = ex.fresh('l', 8, st); at = z3.If(q < ii(S.n), S.ln(q) / e, IV(0))
            ex.add(st, z3.BV2Int(w) == at); ex.store(st, Ptr(a[0].r, k + 8), w, I8)
        closed = z3.And(q < ii(S.n), u32(S, q) == 0x7D); t = st.fork()
        ex.add(st, closed); st.ghost[POS] = Add(q, e); ex.add(t, z3.Not(closed)); t.ghost[POS] = IV(-1)
        return Outcomes([(st, 'ret', None), (t, 'ret', None)])
    cs = [contract(r'^vc_emit(8|16|32)$', put, 'output iterator: each assignment appends exactly the assigned code unit'),
          contract('^' + FIELD, field, 'a replacement or script field reads from its opening to some later code point (what it writes is stated by other properties)'),
          contract(KEEP[0], putcp, 'codepoint::append_to_as: appends the encoding of the code point (proved in P01)', trusted=False)]
    def s(ex, st):
        S = UStr(ex, st, 's', e, wf=wf); box['S'] = S; st.ghost[POS] = IV(0)
        args = ex.region(st, 64, 'param', 'args', Cells({}, 'lazy'))
        def post(st, k, v):
            if not wf: return
            S, o = cur(ex, st)
            if k == 'ret': ex.prove(st, Eq(o, S.n), 'the whole text is written'); return
            ex.prove(st, any('format_error' in x for x in ex.ti_bases(v[0])), 'the exception is a format_error')
            if isc(o) and o == -1 or z3.is_int_value(o) and o.as_long() == -1: return      # a field that is not closed
            ex.prove(st, z3.And(o >= 0, o < ii(S.n), S.bd(o), brace(S, o), z3.Or(o + e == ii(S.n), z3.And(u32(S, o) == 0x7D, u32(S, ii(Add(o, e))) != 0x7D))), 'only an unpaired brace or a field that is not closed is an error')
        def extra(ctx, u):
            res = []; N, guard = u['N'], u['guard']
            if '$pos' not in u['ints64']: return res
            for n_, sc in [(x, 1) for x, r in u['ptrs'] if r == S.rid] + [(x, e) for x in u['ints64'] if x != '$pos']:
                res.append(Cand('$pos is at %s' % n_, guard(lambda env, n_=n_, sc=sc: ii(N(env, '$pos')) == ii(N(env, n_)) * sc)))
            return res
        return [S.ptr(), S.units, Ptr(args, 0)], post, Templates([S], bounds=[('n', S.n), ('units', S.units)], small=False, lean=True, counts=False, extra=extra)
    return Task(fn + ('' if wf else '/any'), fn, s, contracts=cs)
def tasks(tier):
    T = [task(k, t, e, wf) for wf in (True,) for k in ('run', 'vft') for t, e in ENC]
    return T
