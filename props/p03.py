"""P03: index and reverse index address exactly the i-th code point."""
from vc.run import Task, Lemma
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
SOURCES = {'m': dict(src='p03.cpp')}
REPLAY = 'r03.cpp'; REPLAY_SRC = ['src/utf/codepoint.cpp', 'src/utf/string.cpp', 'src/utf/stralgo.cpp']
ENC = (('c', 1), ('8', 1), ('16', 2), ('32', 4), ('w', 4))
def nth(S, o, i, rev):
    """the i-th code point (from the front / from the back) starts at byte offset o"""
    k = S.total() - 1 - i if rev else i
    return z3.And(ii(o) >= 0, ii(o) < ii(S.n), S.bd(o), S.cntf(ii(o)) == k)
def off(fn, e, rev):
    def s(ex, st):
        S = UStr(ex, st, 's', e); i = ex.fresh('i', 64, st)
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            if k != 'ret': return
            v = bv(v, 64); o = Mul(v, e); S.inst(st, o)
            ex.prove(st, If(Eq(v, M64), i >= S.total(), nth(S, o, i, rev)), 'offset of the i-th code point, npos iff there is none')
        return [i, S.ptr(), S.units], post, Templates([S], bounds=[('n', S.n), ('units', S.units), ('i', i)])
    return Task(fn, fn, s)
def elem(fn, e, rev, kind):
    """the position witness is a skolem constant o: nth(o) is assumed when an i-th code point exists (lemma: it exists and is unique)"""
    def s(ex, st):
        S = UStr(ex, st, 's', e)
        args = [S.ptr(), S.units]
        if kind in ('front', 'back'): i = IV(0)
        else: i = ex.fresh('i', 64, st); args = [i] + args
        o = ex.fresh('o', 64, st); S.inst(st, o)
        has = i < S.total()
        ex.add(st, z3.Implies(has, nth(S, o, i, rev)))
        uniq(ex, st, S, o)
        if kind in ('sub', 'front', 'back', 'adr'): ex.add(st, has)
        d = None
        if kind == 'or': d = ex.fresh('d', 32); ex.add(st, scalar(d)); args.append(d)
        def post(st, k, v):
            if kind == 'at':
                if k == 'throw':
                    ex.prove(st, z3.Not(has), 'out_of_range only when there is no such code point')
                    ex.prove(st, v[0] == '_ZTISt12out_of_range', 'exception type'); return
                ex.prove(st, has, 'out_of_range when there is no such code point')
            else:
                ex.prove(st, k == 'ret', 'no exception')
                if k != 'ret': return
            if kind == 'adr':
                ex.prove(st, And(isinstance(v, Ptr) and v.r == S.rid, Eq(v.o, o)), 'address of the i-th code point'); return
            v = bv(v, 32)
            if kind == 'or': ex.prove(st, v == z3.If(has, S.cp(o), d), 'the i-th code point, or the default')
            else: ex.prove(st, v == S.cp(o), 'the i-th code point')
        return args, post, Templates([S], bounds=[('n', S.n), ('units', S.units), ('i', i), ('o', o)])
    return Task(fn, fn, s)
def uniq(ex, st, S, o):
    """lemma (monotonicity of cnt): two code point starts with the same count are the same offset.  Instantiated for o and
    every offset the proof mentions."""
    o = ii(o); old = S.inst
    def inst(st, p):
        old(st, p); p = ii(p)
        key = ('uniq', S.rid, p.get_id(), o.get_id())
        if key in st.seen: return
        st.seen.add(key); ex.keep.append(p)
        for d in range(0, 1):
            q = ii(Add(p, d * S.esz))
            ex.add(st, z3.Implies(z3.And(q >= 0, q < ii(S.n), S.bd(q), o >= 0, o < ii(S.n), S.bd(o), S.cntf(q) == S.cntf(o)), q == o))
    S.inst = inst
def tasks(tier):
    T = []
    for t, e in ENC:
        T += [off('h_off_' + t, e, False), off('h_offp_' + t, e, False), off('h_roff_' + t, e, True), off('h_roffp_' + t, e, True)]
        for f, r, k in (('at', 0, 'at'), ('rat', 1, 'at'), ('or', 0, 'or'), ('ror', 1, 'or'), ('sub', 0, 'sub'), ('idx', 0, 'sub'), ('ridx', 1, 'sub'), ('adr', 0, 'adr'), ('front', 0, 'front'), ('back', 1, 'back')):
            T.append(elem('h_%s_%s' % (f, t), e, bool(r), k))
    return T + ustr_lemmas()
