"""P01: scalar values survive encoding and decoding."""
from vc.specs import *
from vc.utfspec import UStr
from vc.run import Task
SOURCES = {'': dict(src='p01.cpp', keep=(r'_ZNSt7__cxx1112basic_stringI.*(9push_back|7reserve)E',))}
REPLAY = 'r01.cpp'; REPLAY_SRC = ['src/utf/codepoint.cpp', 'src/utf/stralgo.cpp', 'src/utf/string.cpp']

def strpush():
    def h(ex, st, a, ins):
        st.ghost[('emit',)] = st.ghost.get(('emit',), ()) + (a[1],); return None
    def nop(ex, st, a, ins): return None
    def size(ex, st, a, ins): return ex.fresh('strsize', 64, st)
    return [contract(r'^_ZNSt7__cxx1112basic_stringI.*9push_backE', h, 'std::basic_string::push_back appends exactly its argument'),
            contract(r'^_ZNSt7__cxx1112basic_stringI.*7reserveE', nop, 'std::basic_string::reserve does not change the contents')]

def c_in(ex, st):
    c = ex.fresh('c', 32); ex.add(st, scalar(c)); return c

def bytes_task(fn):
    def s(ex, st):
        c = c_in(ex, st); o = out_region(ex, st, 8)
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            n = rd(ex, st, o, 4, 1); bs = enc8(c); L = enc8_len(c)
            ex.prove(st, Eq(bv(n, 8), X(7, 0, L), 8), 'size_bytes is the UTF-8 length')
            for i in range(4):
                e = st.mem[o].d.get(i)
                b = e[1] if e else 0
                ex.prove(st, z3.Implies(z3.UGT(L, i), Eq(bv(b, 8), bs[i], 8)), 'UTF-8 byte %d' % i)
        return [c, Ptr(o, 0)], post, None
    return Task(fn, fn, s, unroll=8)
def val_task(fn, spec, w):
    def s(ex, st):
        c = c_in(ex, st)
        def post(st, k, v): ex.prove(st, And(k == 'ret', Eq(bv(v, w), spec(c), w)), 'result')
        return [c], post, None
    return Task(fn, fn, s, unroll=8)
def from_task(fn, esz):
    def s(ex, st):
        c = c_in(ex, st); o = out_region(ex, st, 8); u = out_region(ex, st, 4, 'units')
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            n = bv(rd(ex, st, o, 4, 4), 32)
            if fn == 'h_from32':
                ex.prove(st, Eq(bv(rd(ex, st, o, 0, 4), 32), c, 32), 'scalar value'); ex.prove(st, Eq(n, enc8_len(c), 32), 'number of bytes processed')
            elif fn == 'h_fromw':
                ex.prove(st, Eq(bv(rd(ex, st, o, 0, 4), 32), c, 32), 'code unit'); ex.prove(st, Eq(n, 1, 32), 'one code unit')
            else:
                us = enc16(c); L = enc16_len(c)
                ex.prove(st, Eq(n, L, 32), 'number of code units'); ex.prove(st, Eq(bv(rd(ex, st, u, 0, 2), 16), us[0], 16), 'first unit')
                e = st.mem[u].d.get(2)
                ex.prove(st, z3.Implies(L == 2, Eq(bv(e[1] if e else 0, 16), us[1], 16)), 'second unit')
                ex.prove(st, Eq(bv(rd(ex, st, o, 0, 4), 32), enc8_len(c), 32), 'number of bytes processed')
        return [c, Ptr(o, 0)] + ([Ptr(u, 0)] if fn == 'h_from16' else []), post, None
    return Task(fn, fn, s, unroll=8)
def emit_task(fn, esz, string=False):
    def s(ex, st):
        c = c_in(ex, st); st.ghost[('emit',)] = ()
        sr = out_region(ex, st, 32, 'string', 'lazy')
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            us, L = enc(c, esz)
            prove_emitted(ex, st, us, L, esz * 8, 'emitted encoding')
        return [c] + ([Ptr(sr, 0)] if string else []), post, None
    return Task(fn, fn, s, unroll=8, contracts=[emit_list()] + strpush())
def dec_task(fn, esz):
    def s(ex, st):
        S = UStr(ex, st, 's', esz); o = out_region(ex, st, 8)
        ex.add(st, S.units >= 1)
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            ex.prove(st, Eq(bv(rd(ex, st, o, 0, 4), 32), S.cp(0), 32), 'decoded scalar value')
            n = rd(ex, st, o, 4, 4)
            ex.prove(st, Eq(Mul(ZExt(n, 32, 64), esz), S.ln(0)), 'code units consumed')
        return [S.ptr(), S.units, Ptr(o, 0)], post, None
    return Task(fn, fn, s, unroll=8)
def dec_empty(fn, esz):
    def s(ex, st):
        o = out_region(ex, st, 8); r, f = ex.newarray(st, 'buf', 0, esz)
        def post(st, k, v):
            ex.prove(st, And(k == 'ret', Eq(bv(rd(ex, st, o, 4, 4), 32), 0, 32)), 'nothing consumed from an empty buffer')
        return [Ptr(r, 0), 0, Ptr(o, 0)], post, None
    return Task(fn + '/empty', fn, s, unroll=8)
def dec16_any():
    """any two units: a high surrogate not followed by a low one is reported"""
    def s(ex, st):
        a, b = ex.fresh('a', 16), ex.fresh('b', 16); o = out_region(ex, st, 8)
        hi = (a & 0xFC00) == 0xD800; lo = (b & 0xFC00) == 0xDC00
        def post(st, k, v):
            if k == 'throw':
                ex.prove(st, z3.And(hi, z3.Not(lo)), 'exception only for an unpaired high surrogate')
                ex.prove(st, v[0] == '_ZTIN7papilio3utf17invalid_surrogateE', 'exception type invalid_surrogate'); return
            ex.prove(st, z3.Not(z3.And(hi, z3.Not(lo))), 'an unpaired high surrogate is reported')
            a32, b32 = z3.ZeroExt(16, a), z3.ZeroExt(16, b)
            ex.prove(st, Eq(bv(rd(ex, st, o, 0, 4), 32), z3.If(hi, 0x10000 + (((a32 & 0x3FF) << 10) | (b32 & 0x3FF)), a32), 32), 'decoded scalar value')
            ex.prove(st, Eq(bv(rd(ex, st, o, 4, 4), 32), z3.If(hi, BV(2, 32), BV(1, 32)), 32), 'code units consumed')
        return [a, b, Ptr(o, 0)], post, None
    return Task('h_dec16p', 'h_dec16p', s, unroll=8)
def dec16_alone():
    """a buffer that ends after a high surrogate is reported"""
    def s(ex, st):
        r, f = ex.newarray(st, 'buf', 2, 2); o = out_region(ex, st, 8)
        hi = (f(IV(0)) & 0xFC00) == 0xD800
        def post(st, k, v): ex.prove(st, hi if k == 'throw' else z3.Not(hi), 'truncated surrogate pair is reported')
        return [Ptr(r, 0), 1, Ptr(o, 0)], post, None
    return Task('h_dec16c32/truncated', 'h_dec16c32', s, unroll=8)
def cls(fn, w, spec, pre=None, rw=1):
    def s(ex, st):
        b = ex.fresh('b', w)
        if pre is not None: ex.add(st, pre(b))
        def post(st, k, v): ex.prove(st, Eq(bv(v, rw) if rw > 1 else bl(v), spec(b)), 'classification')
        return [b], post, None
    return Task(fn, fn, s)

def tasks(tier):
    T = [bytes_task('h_bytes'), bytes_task('h_bytes_assign'), val_task('h_c32', lambda c: c, 32), val_task('h_size', lambda c: X(7, 0, enc8_len(c)), 8),
         from_task('h_from32', 4), from_task('h_from16', 2), from_task('h_fromw', 4)]
    for f, e in (('h_emit8', 1), ('h_emitc', 1), ('h_emit16', 2), ('h_emit32', 4), ('h_emitw', 4)): T.append(emit_task(f, e))
    for f, e in (('h_app8', 1), ('h_appc', 1), ('h_app16', 2), ('h_app32', 4)): T.append(emit_task(f, e, True))
    for f, e in (('h_dec8', 1), ('h_decc', 1), ('h_dec16', 2), ('h_dec16c32', 2), ('h_dec32', 4), ('h_decw', 4), ('h_decwc32', 4)):
        T.append(dec_task(f, e)); T.append(dec_empty(f, e))
    T += [dec16_any(), dec16_alone(),
          cls('h_lead', 8, lambda b: (b & 0xC0) != 0x80), cls('h_trail', 8, lambda b: (b & 0xC0) == 0x80),
          cls('h_cnt', 8, lambda b: z3.If(z3.ULT(b, 0x80), BV(1, 8), z3.If(z3.ULT(b, 0xE0), BV(2, 8), z3.If(z3.ULT(b, 0xF0), BV(3, 8), BV(4, 8)))), lambda b: z3.And((b & 0xC0) != 0x80, z3.ULE(b, 0xF7)), 8),
          cls('h_hi', 16, lambda u: (u & 0xFC00) == 0xD800), cls('h_lo', 16, lambda u: (u & 0xFC00) == 0xDC00)]
    return T
