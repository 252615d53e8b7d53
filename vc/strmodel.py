"""Assumed contract of std::basic_string, for code that builds a string: the object is a sequence of code
units; every unit that is added must be the next unit of the expected text."""
import z3
from .sym import *
from .specs import *
KEEP = (r'_ZNK?St7__cxx1112basic_stringI.*',)
RX = r'^_ZN%sSt7__cxx1112basic_stringI(D[usi]|c|w)St11char_traitsI\w+?ESaI\w+?EE'
class StrSink:
    """expect: object with unit(ex, st, k) -> expected unit term at position k, mark(ex, st, k)"""
    def __init__(s, esz, unit, copy=None): s.esz = esz; s.unit = unit; s.copy = copy; s.tr = 'std::basic_string: default/view construction, push_back, append, +=, reserve, size, destruction as the standard specifies'
    def key(s, p): return ('strlen', p.r)
    def ln(s, st, p):
        k = s.key(p)
        if k not in st.ghost: raise Unsupported('operation on a string that was not constructed')
        return st.ghost[k]
    def add1(s, ex, st, p, c):
        n = s.ln(st, p)
        ex.prove(st, Eq(bv(c, s.esz * 8), s.unit(ex, st, n), s.esz * 8), 'the code unit added is the next one of the expected text')
        st.ghost[s.key(p)] = Add(n, 1)
    def addn(s, ex, st, p, q, n):
        if not isc(n):
            for k in range(0, 9):
                if ex.must(st, Eq(n, k)): n = k; break
            else: raise NeedEnum(n)
        if n > 16: raise Unsupported('long append')
        for i in range(n): s.add1(ex, st, p, ex.load(st, Ptr(q.r, Add(q.o, i * s.esz)), ir_int(s.esz * 8)))
    def contracts(s):
        c = lambda rx, f: contract(RX % '' + rx, f, s.tr)
        cc = lambda rx, f: contract(RX % 'K' + rx, f, s.tr)
        def ctor(ex, st, a, ins): st.ghost[s.key(a[0])] = IV(0); return None
        def push(ex, st, a, ins): s.add1(ex, st, a[0], a[1]); return None
        def plus(ex, st, a, ins): s.add1(ex, st, a[0], a[1]); return a[0]
        def app(ex, st, a, ins): s.addn(ex, st, a[0], a[1], a[2]); return a[0]
        def nop(ex, st, a, ins): return None
        def dtor(ex, st, a, ins): st.ghost.pop(s.key(a[0]), None); return None
        def size(ex, st, a, ins): return s.ln(st, a[0])
        def fromview(ex, st, a, ins):
            v = a[1]
            n = ex.load(st, v, I64); p = ex.load(st, Ptr(v.r, Add(v.o, 8)), ir.PTR)
            s.copy(ex, st, a[0], p, n); return None
        def fromptr(ex, st, a, ins): s.copy(ex, st, a[0], a[1], a[2]); return None
        def move(ex, st, a, ins): st.ghost[s.key(a[0])] = s.ln(st, a[1]); st.ghost[s.key(a[1])] = IV(0); return None
        def cpy(ex, st, a, ins): st.ghost[s.key(a[0])] = s.ln(st, a[1]); return None
        return [c(r'C[12]Ev$', ctor), c(r'9push_backE\w+$', push), c(r'pLE(D[usi]|c|w)$', plus), c(r'6appendEPK\w+m$', app), c(r'7reserveEm$', nop), c(r'D[12]Ev$', dtor),
                cc(r'4sizeEv$', size), cc(r'6lengthEv$', size), c(r'C[12]ISt17basic_string_view', fromview), c(r'C[12]EPK(D[usi]|c|w)m', fromptr), c(r'C[12]EOS4_$', move), c(r'C[12]ERKS4_$', cpy)]
def ir_int(w): return ir.INT(w)
