"""P04: iterating visits every code point exactly once, in both directions."""
from vc.run import Task, Lemma
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
SOURCES = {'m': dict(src='p04.cpp')}
REPLAY = 'r04.cpp'; REPLAY_SRC = ['src/utf/codepoint.cpp', 'src/utf/string.cpp', 'src/utf/stralgo.cpp']
ENC = (('c', 1), ('8', 1), ('16', 2), ('32', 4), ('w', 4))
def monitors(cur):
    def visit(ex, st, a, ins):
        S = cur[0]
        p = a[1]
        if not isinstance(p, Ptr) or p.r != S.rid: ex.fail(st, 'a code point position lies in the string'); return None
        S.inst(st, p.o)
        ex.prove(st, And(ULE(0, p.o), ULT(p.o, S.n)), 'visited position is inside the string')
        ex.prove(st, And(S.bd(p.o), Eq(S.cntf(ii(p.o)), a[0])), 'visited position is the start of the k-th code point')
        ex.prove(st, Eq(bv(a[2], 32), S.cp(p.o), 32), 'dereferencing yields the code point that starts there')
        return None
    def pos(ex, st, a, ins):
        S = cur[0]; p = a[1]
        if not isinstance(p, Ptr) or p.r != S.rid: ex.fail(st, 'a code point position lies in the string'); return None
        S.inst(st, p.o)
        ex.prove(st, And(ULE(0, p.o), ULE(p.o, S.n), S.bd(p.o), Eq(S.cntf(ii(p.o)), a[0])), 'position number k')
        return None
    def eq(ex, st, a, ins): ex.prove(st, bl(a[0]), 'iterator relation agrees with the positions'); return None
    mk = lambda rx, f, l: contract(rx, f, l, trusted=False)
    return [mk('^vc_visit$', visit, 'monitor: visit'), mk('^vc_pos$', pos, 'monitor: position'), mk('^vc_eq$', eq, 'monitor: relation')]
def task(kind, t, e, pre=None):
    fn = 'h_%s_%s' % (kind, t)
    cur = [None]
    def s(ex, st):
        S = UStr(ex, st, 's', e); cur[0] = S; T = S.total()
        bounds = [('n', S.n), ('units', S.units)]; args = [S.ptr(), S.units]
        if kind in ('fb', 'diff', 'cmp', 'adv', 'advm', 'plus', 'size'):
            a = ex.fresh('a', 64, st); args.append(a); bounds.append(('a', a))
            if kind != 'size': b = ex.fresh('b', 64, st); args.append(b); bounds.append(('b', b))
            if kind in ('diff', 'cmp'):
                ex.add(st, z3.And(a <= T, b <= T)); 
                for nm, x in (('A', a), ('B', b)):
                    bounds.append((nm, S.nth(st, x, nm)))
                    if e > 1: bounds.append((nm + 'u', S.nthu))
                bounds.append(('|b-a|', z3.If(b >= a, b - a, a - b)))
            if kind == 'size': ex.add(st, a < T)
            if kind in ('adv', 'advm', 'plus'):
                # b is signed: the target a+b stays inside [0, total]
                ex.add(st, z3.And(a <= T, z3.Or(z3.And(b < IV(T63), a + b <= T), z3.And(b >= IV(T63), a + b - IV(T64) >= 0))))
                bounds += [('a+b', z3.If(b < IV(T63), a + b, a + b - IV(T64))), ('|b|', z3.If(b < IV(T63), b, IV(T64) - b))]
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            if kind == 'diff' and k == 'ret': ex.prove(st, Eq(v, z3.If(b >= a, b - a, b - a + IV(T64))), 'difference is the number of code points between')
        return args, post, Templates([S], bounds=bounds, small=False)
    return Task(fn, fn, s, contracts=monitors(cur))
def tasks(tier):
    T = []
    for t, e in ENC:
        for k in 'fwd fwdp bwd bwdp rev fb adv advm plus diff cmp size'.split(): T.append(task(k, t, e))
    return T + ustr_lemmas()
