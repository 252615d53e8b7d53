"""The output side of a formatter: a ghost position in the expected text.  Every unit that reaches the output
iterator, and every code point that is appended, must be the next item of the expected text."""
import z3, re
from .sym import *
from .specs import *
KEEP = (r'_ZNK7papilio3utf9codepoint12append_to_asI.*',)
DROP = (r'.*append_hex_digits.*', r'.*vformat_to.*')
POS = ('pos',)
class Out:
    """item(ex, st, k): the k-th item of the expected text as a 32-bit code point; raw(k, c): optional extra way in which a unit matches"""
    def __init__(s, esz, item, label='the output is the expected text'): s.esz = esz; s.item = item; s.label = label
    def start(s, st): st.ghost[POS] = IV(0)
    def contracts(s):
        def put(ex, st, a, ins):
            p = st.ghost[POS]; w = s.item(ex, st, p); c = a[-1]
            u = bv(c, s.esz * 8); u32 = z3.ZeroExt(32 - s.esz * 8, u) if s.esz < 4 else u
            single = z3.ULT(u32, 0x80) if s.esz == 1 else z3.Or(z3.ULT(u32, 0xD800), z3.UGT(u32, 0xDFFF))
            ex.prove(st, z3.And(u32 == w, single), s.label); st.ghost[POS] = Add(p, 1); return None
        def putcp(ex, st, a, ins):
            p = st.ghost[POS]; w = s.item(ex, st, p); us, L = enc8(w), enc8_len(w)
            t = a[0]; bs = [bv(ex.load(st, Ptr(t.r, Add(t.o, i)), I8), 8) if i == 0 else None for i in range(4)]
            for i in range(1, 4): bs[i] = bv(ex.load(st, Ptr(t.r, Add(t.o, i)), I8), 8)
            ex.prove(st, z3.And(*[z3.Implies(z3.UGT(L, i), bs[i] == us[i]) for i in range(4)]), s.label); st.ghost[POS] = Add(p, 1)
            return UNDEF
        return [contract(r'^vc_emit(8|16|32)$', put, 'output iterator: each assignment appends exactly the assigned code unit'),
                contract(KEEP[0], putcp, 'codepoint::append_to_as: appends the encoding of the code point (proved in P01)', trusted=False)]
def fillarg(ex, st, fill):
    """a utf::codepoint object that holds the scalar value `fill` (0: the default object, all zero)"""
    r = ex.region(st, 4, 'param', 'fill', Cells({}, 'lazy')); us, L = enc8(fill), enc8_len(fill)
    for i in range(4):
        b = bv(rd(ex, st, r, i, 1), 8)
        ex.add(st, z3.And(z3.Implies(z3.UGT(L, i), b == us[i]), z3.Implies(fill == 0, b == 0)))
    return Ptr(r, 0)

WIDTH = r'_ZNK7papilio3utf9codepoint14estimate_widthEv'
WIDE = [(0x1100, 0x115F), (0x2329, 0x232A), (0x2E80, 0x303E), (0x3040, 0xA4CF), (0xAC00, 0xD7A3), (0xF900, 0xFAFF), (0xFE10, 0xFE19), (0xFE30, 0xFE6F),
        (0xFF00, 0xFF60), (0xFFE0, 0xFFE6), (0x1F300, 0x1F64F), (0x1F900, 0x1F9FF), (0x20000, 0x2FFFD), (0x30000, 0x3FFFD)]      # [format.string.std]
WID = z3.Function('width_of', z3.BitVecSort(32), z3.IntSort())
def wid_def(v): return z3.If(z3.Or(*[z3.And(z3.UGE(v, a), z3.ULE(v, b)) for a, b in WIDE]), IV(2), IV(1))
def wid(ex, st, v):
    k = ('wid', v.get_id())
    if k not in st.seen: st.seen.add(k); ex.keep.append(v); ex.add(st, z3.And(WID(v) >= 1, WID(v) <= 2), 'u')
    return WID(v)
def ldcp(ex, st, t):
    """the scalar value of the utf::codepoint object *t"""
    b = [bv(ex.load(st, Ptr(t.r, Add(t.o, i)), I8), 8) for i in range(4)]
    a, b, c, d = [z3.ZeroExt(24, x) for x in b]
    v = z3.If(z3.ULT(a, 0x80), a, z3.If(z3.ULT(a, 0xE0), ((a & 0x1F) << 6) | (b & 0x3F), z3.If(z3.ULT(a, 0xF0), ((a & 0xF) << 12) | ((b & 0x3F) << 6) | (c & 0x3F),
        ((a & 7) << 18) | ((b & 0x3F) << 12) | ((c & 0x3F) << 6) | (d & 0x3F))))
    return z3.simplify(v)
def width_contract():
    def f(ex, st, a, ins): return wid(ex, st, ldcp(ex, st, a[0]))
    return contract(WIDTH, f, 'codepoint::estimate_width: the display width of the code point (proved in P09)', trusted=False)
