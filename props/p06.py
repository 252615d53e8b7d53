"""P06: transcoding preserves the code point sequence."""
from vc.run import Task, Lemma
from vc.sym import *
from vc.specs import *
from vc.utfspec import *
from vc.strmodel import StrSink, KEEP
SOURCES = {'m': dict(src='p06.cpp', keep=KEEP)}
REPLAY = 'r06.cpp'; REPLAY_SRC = ['src/utf/codepoint.cpp', 'src/utf/string.cpp', 'src/utf/stralgo.cpp']
ENC = dict([('c', 1), ('8', 1), ('16', 2), ('32', 4), ('w', 4)])
class TStr(UStr):
    """a string together with its expected transcription: OL(o) units of output come from the code points before offset o,
    E(k) is the k-th unit.  Both are defined by recursion over the code points and instantiated at the offsets the proof mentions"""
    def __init__(s, ex, st, name, esz, tsz):
        s.tsz = tsz; s.OL = None
        ex.cnt += 1
        s.OL = z3.Function('OL!%d' % ex.cnt, z3.IntSort(), z3.IntSort()); s.E = z3.Function('E!%d' % ex.cnt, z3.IntSort(), z3.BitVecSort(tsz * 8))
        super().__init__(ex, st, name, esz)
        ex.add(st, s.OL(IV(0)) == 0)
    def inst(s, st, o):
        o = ii(o)
        key = ('u', s.rid, o.get_id())
        done = key in st.seen
        super().inst(st, o)
        if done: return
        us, L = enc(s.cp(o), s.tsz); Li = z3.BV2Int(L) if False else z3.If(L == 1, IV(1), z3.If(L == 2, IV(2), z3.If(L == 3, IV(3), IV(4))))
        nx = ii(Add(o, s.ln(o)))
        f = [s.OL(nx) == s.OL(o) + Li] + [z3.Implies(z3.UGT(L, k), s.E(s.OL(o) + k if k else s.OL(o)) == us[k]) for k in range(len(us))]
        g = z3.And(s.inb(o), s.lead(o))
        if s.esz > 1 and not aligned(o, s.esz): g = z3.And(g, o % s.esz == 0)
        s.ex.add(st, z3.Implies(g, z3.And(*f)), 'u')
        s.ex.add(st, z3.Implies(z3.And(o >= 0, o <= ii(s.n)), z3.And(s.OL(o) >= 0, s.OL(o) <= 4 * o)), 'u')
def task(fn, a, b):
    e, t = ENC[a], ENC[b]
    cur = [None]
    def unit(ex, st, k): return cur[0].E(ii(k))
    def copy(ex, st, dst, p, n):
        S = cur[0]
        ex.prove(st, Or(Eq(n, 0), And(isinstance(p, Ptr) and p.r == S.rid, Eq(p.o if isinstance(p, Ptr) else 0, 0))), 'the text is copied from the start of the source')
        ex.prove(st, Eq(n, S.units), 'the whole text is copied')
        st.ghost[('strlen', dst.r)] = S.OL(ii(S.n))
    sink = StrSink(t, unit, copy if e == t else None)
    def s(ex, st):
        S = TStr(ex, st, 's', e, t); cur[0] = S
        o = out_region(ex, st, 32, 'result', 'undef')
        def extra(ctx, u):
            out = []
            N, guard = u['N'], u['guard']
            gl = [n for n in u['ints64'] if 'strlen' in str(n)]
            pos = [(n, S.esz) for n in u['ints64'] if n not in gl] + [(n, 1) for n, r in u['ptrs'] if r == S.rid]
            for g in gl:
                for n, sc in pos:
                    def f(env, g=g, n=n, sc=sc):
                        q = Mul(N(env, n), sc); S.inst(env.st, q); return N(env, g) == S.OL(ii(q))
                    out.append(Cand('out == OL(%s)' % n, guard(f)))
            return out
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            if k != 'ret': return
            n = st.ghost.get(('strlen', o))
            ex.prove(st, n is not None and Eq(n, S.OL(ii(S.n))), 'the result holds the transcription of the whole string and nothing else')
        return [Ptr(o, 0), S.ptr(), S.units], post, Templates([S], bounds=[('n', S.n), ('units', S.units)], extra=extra, small=False)
    return Task(fn, fn, s, contracts=sink.contracts())
def tasks(tier):
    T = [task('h_to_%s_%s' % (a, b), a, b) for a in ENC for b in ENC]
    T += [task('h_u8_32', '32', '8'), task('h_u16_8', '8', '16'), task('h_u32_c', 'c', '32'), task('h_w_16', '16', 'w')]
    return T + ustr_lemmas()
