"""P02: string length is the number of code points."""
from vc.run import Task, Lemma
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
SOURCES = {'m': dict(src='p02.cpp')}
REPLAY = 'r02.cpp'; REPLAY_SRC = ['src/utf/codepoint.cpp', 'src/utf/string.cpp', 'src/utf/stralgo.cpp']
ENC = (('c', 1), ('8', 1), ('16', 2), ('32', 4), ('w', 4))
def view(fn, e, what='total'):
    def s(ex, st):
        S = UStr(ex, st, 's', e)
        def post(st, k, v):
            want = dict(total=S.total(), size=S.units)[what] if what != 'empty' else None
            ex.prove(st, k == 'ret', 'no exception')
            if k == 'ret':
                if what == 'empty': ex.prove(st, bl(v) == (S.units == 0), 'empty() iff there is no code unit')
                else: ex.prove(st, Eq(v, want), 'length is the number of code points' if what == 'total' else 'size() is the number of code units')
        return [S.ptr(), S.units], post, Templates([S], bounds=[('n', S.n), ('units', S.units)])
    return Task(fn, fn, s)
def ptr(fn, e, exact=False, nul=False):
    """reads are confined to the first m code units (the region ends there); the string stops at the first NUL, at position z"""
    sl = []
    def strlen(ex, st, a, ins):
        S, z = sl[-1]
        if not isinstance(a[0], Ptr) or a[0].r != S.rid: raise Unsupported('strlen of something else')
        ex.prove(st, Eq(a[0].o, 0), 'strlen of the whole string')
        return z
    def s(ex, st):
        S = UStr(ex, st, 's', e); m = ex.fresh('m', 64, st); z = ex.fresh('z', 64, st)
        ex.add(st, m == S.units if exact else z3.And(m <= S.units))
        ex.regions[S.rid].size = Mul(m, e)
        ze = Mul(z, e)
        ex.add(st, z3.And(z <= m, z3.Or(z == m, S.at(ze) == 0)))
        S.inst(st, ze)
        if nul: ex.add(st, z < m)
        sl.append((S, z))
        old = S.inst
        def inst(st, o):
            old(st, o); o = ii(o)
            for d in range(4 if e == 1 else 1):
                p = ii(Add(o, d * e))
                al = z3.BoolVal(True) if e == 1 else p % e == 0
                ex.add(st, z3.Implies(z3.And(p >= 0, p < ze, al), S.at(p) != 0))
        S.inst = inst
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            if k == 'ret': ex.prove(st, Eq(v, S.cntf(ii(ze))), 'number of code points before the first NUL or the limit')
        return [S.ptr(), m][:1 if nul else 2], post, Templates([S], bounds=[('z', z), ('m', m), ('n', S.units), ('ze', ze)], tails=True)
    return Task(fn + ('/exact' if exact else ''), fn, s, contracts=[contract('^(strlen|wcslen)$', strlen, 'C strlen, wcslen return the position of the first NUL')])
def tasks(tier):
    T = []
    for t, e in ENC:
        T += [view('h_view_' + t, e), view('h_view_ig_' + t, e), view('h_view_stop_' + t, e), view('h_view_exc_' + t, e), view('h_len_' + t, e), view('h_size_' + t, e, 'size'), view('h_empty_' + t, e, 'empty')]
        T += [ptr('h_nul_' + t, e, nul=True), ptr('h_nullen_' + t, e, nul=True)]
        T += [ptr('h_ptr_' + t, e), ptr('h_ptr_ig_' + t, e)]
        T += [ptr('h_ptr_stop_' + t, e, True), ptr('h_ptr_exc_' + t, e, True)]
    return T + ustr_lemmas()
