"""P05: substrings and prefix/suffix removal cut at the requested code points."""
from vc.run import Task, Lemma
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
SOURCES = {'m': dict(src='p05.cpp')}
REPLAY = 'r05.cpp'; REPLAY_SRC = ['src/utf/codepoint.cpp', 'src/utf/string.cpp', 'src/utf/stralgo.cpp']
ENC = (('c', 1), ('8', 1), ('16', 2), ('32', 4), ('w', 4))
NPOS = T63 - 1
def task(kind, t, e):
    fn = 'h_%s_%s' % (kind, t)
    cur = [None]
    def view(ex, st, a, ins):
        S, lo, hi, ok = cur[0]
        p, n = a
        ex.prove(st, ok, 'only a request inside the string succeeds')
        if isinstance(p, Ptr) and p.r == S.rid:
            z = Add(p.o, Mul(n, e)); S.mono(st, p.o); S.mono(st, z)
            g = lambda f: Implies(Not(Eq(n, 0)), f)
            ex.prove(st, g(And(ULE(0, p.o), ULE(z, S.n))), 'the result lies inside the string')
            ex.prove(st, g(And(S.bd(p.o), Eq(S.cntf(ii(p.o)), lo))), 'the result starts at the first requested code point')
            ex.prove(st, g(And(S.bd(z), Eq(S.cntf(ii(z)), hi))), 'the result ends after the last requested code point')
        else: ex.prove(st, Eq(n, 0), 'the result lies inside the string')
        ex.prove(st, Eq(Eq(n, 0), lo >= hi), 'the result is empty exactly when no code point is requested')
        return None
    def count(ex, st, a, ins):
        S, lo, hi, ok = cur[0]
        ex.prove(st, Eq(a[0], z3.If(hi > lo, hi - lo, IV(0))), 'reported number of code points'); return None
    mk = lambda rx, f, l: contract(rx, f, l, trusted=False)
    def s(ex, st):
        S = UStr(ex, st, 's', e); T = S.total()
        a = ex.fresh('a', 64, st); args = [S.ptr(), S.units, a]
        bounds = [('n', S.n), ('units', S.units), ('a', a)]; mayfail = False; ok = z3.BoolVal(True)
        if kind not in ('pre', 'suf'):
            b = ex.fresh('b', 64, st); args.append(b); bounds.append(('b', b))
        else: b = IV(0)
        sg = lambda x: z3.If(x < IV(T63), x, x - IV(T64))
        mn = lambda x: z3.If(x <= T, x, T)
        cl = lambda x: z3.If(x < 0, IV(0), mn(x))
        if kind in ('sub', 'sube', 'subx'):
            lo, hi = a, mn(a + b)
            if kind == 'sube': lo = z3.If(a <= T, a, T)
            else: ok = a <= T
        elif kind in ('rng', 'rnge'):
            x = z3.If(sg(a) >= 0, a, T + sg(a)); y = z3.If(sg(b) >= 0, z3.If(b == IV(NPOS), T, b), T + sg(b))
            bounds += [('|a|', z3.If(a < IV(T63), a, IV(T64) - a)), ('|b|', z3.If(b < IV(T63), b, IV(T64) - b))]
            if kind == 'rng': ok = z3.And(x >= 0, x <= T, y >= 0, y <= T); lo, hi = x, y
            else: lo, hi = cl(x), cl(y)
        elif kind == 'pre': lo, hi = mn(a), T
        else: lo, hi = IV(0), z3.If(a <= T, T - a, IV(0))
        cur[0] = (S, lo, hi, ok)
        S.mono(st, S.n); S.mono(st, 0)
        def post(st, k, v):
            if k == 'throw':
                ex.prove(st, z3.Not(ok), 'an exception only when the request is out of range')
                ex.prove(st, '_ZTISt12out_of_range' in ex.ti_bases(v[0]), 'the exception is out_of_range')
        return args, post, Templates([S], bounds=bounds, small=False, signed=kind in ('rng', 'rnge'))
    t_ = Task(fn, fn, s, contracts=[mk('^vc_view$', view, 'monitor: view'), mk('^vc_count$', count, 'monitor: count')])
    return t_
def tasks(tier):
    return [task(k, t, e) for t, e in ENC for k in 'sub sube subx rng rnge pre suf'.split()] + ustr_lemmas()
