"""P18: optional_unique_ptr deletes what it owns exactly once and never what it borrows."""
from vc.run import Task
from vc.sym import *
from vc.specs import *
SOURCES = {'m': dict(src='p18.cpp')}
REPLAY = 'r18.cpp'
def ev(tag):
    def h(ex, st, a, ins):
        st.ghost[('ev',)] = st.ghost.get(('ev',), ()) + ((tag,) + tuple(a),)
        return None
    return contract('^vc_%s$' % tag, h, 'monitor vc_' + tag, trusted=False)
MON = [ev('delete'), ev('rep'), ev('val')]
def bb(x): return bl(x) if not isinstance(x, bool) else z3.BoolVal(x)
# the effect of each operation on (what the first object holds, whether it owns it): final states, and what is deleted by the operation itself
def spec(op, p, o, q, o2):
    """-> ({slot: (pointer, owned)}, [(pointer, condition)] deleted before the report)"""
    if op in ('ctor', 'dtor'): return {0: (p, o)}, []
    if op in ('default', 'null'): return {0: (None, False)}, []
    if op in ('ind', 'unique'): return ({0: (p, p is not None), 1: (None, False)} if op == 'unique' else {0: (p, True)}), []
    if op == 'copy': return {0: (p, o), 1: (p, False)}, []
    if op == 'move': return {0: (None, False), 1: (p, o)}, []
    if op == 'reset2': return {0: (q, o2)}, [(p, o)]
    if op == 'resetu': return {0: (q, q is not None), 1: (None, False)}, [(p, o)]
    if op == 'reseti': return {0: (q, q is not None)}, [(p, o)]
    if op in ('reset', 'resetn'): return {0: (None, False)}, [(p, o)]
    if op == 'release': return {0: (None, False), 1: (p, False)}, []
    if op == 'swap': return {0: (q, o2), 1: (p, o)}, []
    if op == 'bool': return {0: (p, o), 1: (q, o2)}, []
    if op == 'to': return {0: (p, False)}, []
SHAPE = dict(default='', null='', ctor='po', copy='po', move='po', unique='p', reset2='poqQ', resetu='poq', reset='po', resetn='po', release='po', swap='poqQ', dtor='po', bool='poqQ', ind='p', reseti='poq', to='p')
def optask(op, T, pn, qn):
    fn = 'h_%s_%s' % (op, T); sh = SHAPE[op]
    def s(ex, st):
        P = ex.region(st, 1 if op == 'to' else 64, 'param', 'p', Cells({}, 'lazy')) if pn else None
        Q = ex.region(st, 64, 'param', 'q', Cells({}, 'lazy')) if qn == 'Q' else P if qn == 'same' else None
        o = ex.fresh('o', 1, st) if 'o' in sh else False; o2 = ex.fresh('o2', 1, st) if 'Q' in sh else False
        # the invariant of the class: what is owned exists; and no two owners of one object
        if P is None and 'o' in sh: ex.add(st, Not(bb(o)))
        if Q is None and 'Q' in sh: ex.add(st, Not(bb(o2)))
        if qn == 'same':
            ex.add(st, Not(And(bb(o), bb(o2))) if op in ('bool', 'swap') else Not(bb(o)))
        args = []
        for c in sh: args.append(dict(p=Ptr(P, 0) if P else NULL, q=Ptr(Q, 0) if Q else NULL, o=o, Q=o2)[c])
        want, dels = spec(op, P, o, Q, o2)
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            if k != 'ret': return
            evs = st.ghost.get(('ev',), ())
            reps = {e[1]: e for e in evs if e[0] == 'rep'}; vals = {e[1]: e[2] for e in evs if e[0] == 'val'}
            last = max([i for i, e in enumerate(evs) if e[0] == 'rep'], default=-1); first = min([i for i, e in enumerate(evs) if e[0] == 'rep'], default=0)
            for e in evs:
                if e[0] == 'delete' and not isinstance(e[1], Ptr) or e[0] == 'delete' and e[1].r not in (P, Q): ex.fail(st, 'only an object it owns is deleted'); return
                if e[0] == 'delete': ex.prove(st, Eq(e[1].o, 0), 'deleted through the pointer it was given')
            for sl, (w, ow) in want.items():
                if sl not in reps: ex.fail(st, 'state reported'); return
                _, _, gp, go = reps[sl]
                ex.prove(st, isinstance(gp, Ptr) and gp.r == (w or 0) and Eq(gp.o, 0), 'get() is the pointer the operation specifies')
                if not (op in ('unique', 'resetu', 'release') and sl == 1): ex.prove(st, bb(go) == bb(ow), 'has_ownership() is what the operation specifies')
            for r in {P, Q} - {None}:
                before = sum(1 for e in evs[:first] if e[0] == 'delete' and e[1].r == r)
                mid = sum(1 for e in evs[first:last + 1] if e[0] == 'delete' and e[1].r == r)
                after = sum(1 for e in evs[last + 1:] if e[0] == 'delete' and e[1].r == r)
                nb = z3.Sum([z3.If(bb(c), 1, 0) for x, c in dels if x == r] + [IV(0)])
                na = z3.Sum([z3.If(bb(c), 1, 0) for x, c in want.values() if x == r] + [IV(0)])
                ex.prove(st, IV(before) == nb, 'the operation deletes exactly what it drops'); ex.prove(st, mid == 0, 'observers delete nothing')
                ex.prove(st, IV(after) == na, 'destruction deletes exactly what is owned, once')
            if op == 'dtor': ex.prove(st, bool(evs) and evs[-1][0] == 'val', 'the destructor itself deletes')
            if op == 'bool':
                eq = P == Q
                for i, w in ((0, P is not None), (1, eq), (2, P is None), (3, Q is None), (4, not eq)):
                    ex.prove(st, bb(vals[i]) == w, 'tests and comparisons look at the pointer')
        return args, post, None
    nm = fn + '/' + ('p' if pn else '0') + ({'Q': 'q', 'same': 'p', '0': '0'}[qn] if 'q' in sh else '')
    return Task(nm, fn, s, contracts=MON)
def heap(fn, args, want):
    """with the default deleter: every object allocated is freed exactly once, by the matching form of delete"""
    def s(ex, st):
        a = [ex.fresh(n, w, st) for n, w in args]
        if fn == 'h_make_a': ex.add(st, ii(a[0]) < 4)
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            if k != 'ret': return
            for g in st.ghost:
                if g[0] == 'heap': ex.prove(st, bool(st.ghost.get(('freed', g[1]))), 'every object it owned is gone')
            ex.prove(st, bv(v, 32) == want(*a), 'the objects are the ones it was given')
        return a, post, None
    return Task(fn, fn, s)
def misc(fn):
    def s(ex, st):
        n = ex.fresh('n', 64, st) if fn == 'h_index_a' else 1
        if fn == 'h_index_a': ex.add(st, ii(n) <= 1 << 40)
        P = ex.region(st, n, 'param', 'p', Cells({}, 'lazy')); o = ex.fresh('o', 1, st); i = ex.fresh('i', 64, st); ex.add(st, ii(i) < ii(n)) if fn == 'h_index_a' else None
        x = rd(ex, st, P, 0, 1) if fn == 'h_deref_s' else None
        def post(st, k, v):
            ex.prove(st, k == 'ret', 'no exception')
            if k != 'ret': return
            if fn == 'h_index_a': ex.prove(st, And(v.r == P, Eq(v.o, i)), '[i] is element i')
            else: ex.prove(st, bv(v, 8) == bv(x, 8) + bv(x, 8), '* and -> reach the object')
            ds = [e for e in st.ghost.get(('ev',), ()) if e[0] == 'delete']
            ex.prove(st, z3.If(bb(o), IV(1), IV(0)) == len(ds), 'observers delete nothing')
        return [Ptr(P, 0), o] + ([i] if fn == 'h_index_a' else []), post, None
    return Task(fn, fn, s, contracts=MON)
def tasks(tier):
    T = []
    for t in 'sa':
        for op, sh in SHAPE.items():
            if op in ('ind', 'reseti', 'to', 'swap') and t == 'a': continue
            for pn in ((True, False) if 'p' in sh and op not in ('to', 'ind') else (True,)):
                for qn in (('Q', '0') + (('same',) if pn and op in ('bool', 'swap', 'reset2', 'resetu', 'reseti') else ()) if 'q' in sh else ('0',)): T.append(optask(op, t, pn, qn))
    T += [misc('h_deref_s'), misc('h_index_a')]
    T += [heap('h_make_s', [('v', 32)], lambda v: v + v), heap('h_make_a', [('i', 64)], lambda i: BV(0, 32)), heap('h_mkreset_s', [('v', 32)], lambda v: v ^ 7), heap('h_mkrel_s', [('v', 32)], lambda v: v)]
    return T
ASSUMPTIONS = ['a pointer handed over together with ownership is not null (the class asserts it)', 'deleters are stateless (moving or copying a stateful deleter is outside the property)', 'an object is handed to one owner only']
