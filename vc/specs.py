"""Shared specification vocabulary: UTF encodings of a scalar value, emission sinks, small helpers."""
import z3, re
from . import ir
from .sym import *
I8, I16, I32, I64 = ir.INT(8), ir.INT(16), ir.INT(32), ir.INT(64)

def scalar(c): return z3.And(z3.ULE(c, 0x10FFFF), z3.Not(z3.And(z3.UGE(c, 0xD800), z3.ULE(c, 0xDFFF))))
def X(hi, lo, v): return z3.Extract(hi, lo, v)
def enc8_len(c): return z3.If(z3.ULT(c, 0x80), BV(1, 32), z3.If(z3.ULT(c, 0x800), BV(2, 32), z3.If(z3.ULT(c, 0x10000), BV(3, 32), BV(4, 32))))
def b8(x): return X(7, 0, x)
def enc8(c):
    """-> list of 4 bytes (only the first enc8_len are meaningful)"""
    t = lambda k: b8((z3.LShR(c, 6 * k) & 0x3F) | 0x80)
    lt80, lt800, lt10k = z3.ULT(c, 0x80), z3.ULT(c, 0x800), z3.ULT(c, 0x10000)
    return [z3.If(lt80, b8(c), z3.If(lt800, b8(z3.LShR(c, 6) | 0xC0), z3.If(lt10k, b8(z3.LShR(c, 12) | 0xE0), b8(z3.LShR(c, 18) | 0xF0)))),
            z3.If(lt800, t(0), z3.If(lt10k, t(1), t(2))), z3.If(lt10k, t(0), t(1)), t(0)]
def enc16_len(c): return z3.If(z3.ULT(c, 0x10000), BV(1, 32), BV(2, 32))
def enc16(c):
    d = c - 0x10000
    return [z3.If(z3.ULT(c, 0x10000), X(15, 0, c), X(15, 0, 0xD800 + z3.LShR(d, 10))), X(15, 0, 0xDC00 + (d & 0x3FF))]
def enc(c, esz): return (enc8(c), enc8_len(c)) if esz == 1 else (enc16(c), enc16_len(c)) if esz == 2 else ([c], BV(1, 32))

def out_region(ex, st, size, name='out', fill='undef'):
    return ex.region(st, size, 'param', name, Cells({}, fill))
def rd(ex, st, rid, off, n):
    return ex.load(st, Ptr(rid, off), ir.INT(n * 8))
def c32(ex, st, v):
    """32-bit view of a possibly concrete / bool value"""
    return bv(v, 32)

def contract(rx, fn, label, trusted=True):
    fn.label = label; fn.trusted = trusted
    return (re.compile(rx), fn)

def emit_list(name='vc_emit'):
    """trusted sink: records the emitted values (finite, per path)"""
    def h(ex, st, a, ins):
        st.ghost[('emit',)] = st.ghost.get(('emit',), ()) + (a[-1],)
        return None
    return contract(r'^vc_emit(8|16|32)$', h, 'output iterator: each assignment appends exactly the assigned code unit')
def prove_emitted(ex, st, units, length, w, label):
    """the values emitted on this path are exactly units[:length]"""
    got = st.ghost.get(('emit',), ())
    k = len(got)
    ex.prove(st, Eq(length, k, 32), label + ': number of code units')
    for i in range(k):
        if i >= len(units): ex.fail(st, label + ': too many code units'); return
        ex.prove(st, Eq(bv(got[i], w), units[i], w), label + ': code unit %d' % i)
