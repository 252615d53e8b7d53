"""Path-forking symbolic executor / verification-condition generator over LLVM IR.

Deductive: every loop that is not exhausted by a *proved-complete* unrolling is cut
at its header by an inductive invariant (initiation + consecution discharged by the
solver), every call to a function under contract is replaced by its contract.
All memory accesses are checked against region bounds, UBSan traps are proof
obligations (must be unreachable)."""
import os, z3, time, sys, re
from . import ir
from .ir import size_of, offs_of

BV = z3.BitVecVal
M64 = (1 << 64) - 1

DEBUG_DROP = os.environ.get('VERIF_DEBUG_DROP')
class Unsupported(Exception): pass
class NeedCut(Exception):
    def __init__(s, key): s.key = key
class Stop(Exception): pass
class VerifierTimeout(Exception): pass

class Ptr:
    __slots__ = ('r', 'o')
    def __init__(s, r, o): s.r = r; s.o = o
    def __repr__(s): return 'Ptr(%s,%s)' % (s.r, s.o)
class PInt:           # integer obtained from a pointer (64 bit)
    __slots__ = ('r', 'o')
    def __init__(s, r, o): s.r = r; s.o = o
    def __repr__(s): return 'PInt(%s,%s)' % (s.r, s.o)
class Undef:
    __slots__ = ()
    def __repr__(s): return 'UNDEF'
UNDEF = Undef()
NULL = Ptr(0, 0)

def isc(x): return type(x) is int or type(x) is bool
T64 = 1 << 64; T63 = 1 << 63
# 64-bit integers are represented by mathematical Int terms in [0, 2^64); narrower
# ones by bit-vectors.  _I2B remembers the bit-vector an Int term came from.
_I2B = {}
_XOR = {}            # Int term for x ^ y -> (x, y): compared with 0 or ~0 it is an equation
_keep = []
def IV(x): return z3.IntVal(x)
def B2I(x):
    """bit-vector -> Int (unsigned)"""
    if isc(x): return int(x)
    if z3.is_bv_value(x): return x.as_long()
    k = x.decl().kind()
    if k == z3.Z3_OP_ZERO_EXT: r = B2I(x.arg(0))
    elif k == z3.Z3_OP_ITE: r = z3.If(x.arg(0), ii(B2I(x.arg(1))), ii(B2I(x.arg(2))))
    elif k == z3.Z3_OP_CONCAT and z3.is_bv_value(x.arg(0)) and x.arg(0).as_long() == 0:
        y = z3.Concat(*[x.arg(i) for i in range(1, x.num_args())]) if x.num_args() > 2 else x.arg(1)
        r = B2I(y)
    else: r = z3.BV2Int(x)
    if isc(r): return r
    if r.get_id() not in _I2B:
        w = x.size()
        _I2B[r.get_id()] = z3.ZeroExt(64 - w, x) if w < 64 else x
        _keep.append(r)
    return r
def I2B(x, w=64):
    if isc(x): return BV(x & ((1 << w) - 1), w)
    if z3.is_bv(x): return x
    if z3.is_int_value(x): return BV(x.as_long() & ((1 << w) - 1), w)
    b = _I2B.get(x.get_id())
    if b is not None: return b if w == 64 else z3.Extract(w - 1, 0, b) if w < 64 else z3.ZeroExt(w - 64, b)
    return z3.Int2BV(x, w)
def has_bv(x): return not isc(x) and x.get_id() in _I2B
def ii(x):
    """anything 64-bit -> z3 Int term"""
    if isc(x): return IV(int(x))
    if z3.is_bv(x): return ii(B2I(x))
    return x
def isI(x): return not isc(x) and z3.is_int(x)
def bv(x, w):
    """z3 term of width w (Int for 64)"""
    if w == 64: return ii(x)
    if type(x) is int: return BV(x & ((1 << w) - 1), w)
    if type(x) is bool: return BV(int(x), w)
    if z3.is_bool(x): return z3.If(x, BV(1, w), BV(0, w))
    if z3.is_int(x): return I2B(x, w)
    return x
def bl(x):
    if type(x) is bool: return z3.BoolVal(x)
    if type(x) is int: return z3.BoolVal(bool(x))
    return x
def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x
def Not(x):
    if type(x) is bool: return not x
    return z3.Not(x)
def And(*xs):
    r = []
    for x in xs:
        if type(x) is bool:
            if not x: return False
        else: r.append(x)
    if not r: return True
    return r[0] if len(r) == 1 else z3.And(*r)
def Or(*xs):
    r = []
    for x in xs:
        if type(x) is bool:
            if x: return True
        else: r.append(x)
    if not r: return False
    return r[0] if len(r) == 1 else z3.Or(*r)
def Implies(a, b): return Or(Not(a), b)
def _w(a, b):
    for x in (a, b):
        if not isc(x):
            if z3.is_bool(x): return 1
            if z3.is_int(x): return 64
            return x.size()
    return 64
def Eq(a, b, w=None):
    if isc(a) and isc(b): return a == b
    w = _w(a, b)
    if w == 1: return bl(a) == bl(b)
    for x, y in ((a, b), (b, a)):
        if isc(y) and not isc(x) and x.get_id() in _XOR:
            p, q = _XOR[x.get_id()]
            if y == 0: return p == q
            if y & M64 == M64: return p == IV(M64) - q
    a, b = bv(a, w), bv(b, w)
    if a.eq(b): return True
    return a == b
def If(c, a, b, w=64):
    if type(c) is bool: return a if c else b
    if isc(a) and isc(b) and a == b and type(a) == type(b): return a
    if type(a) is bool or type(b) is bool or z3.is_bool(a): return z3.If(c, bl(a), bl(b))
    if not (isc(a) and isc(b)): w = _w(a, b)
    a, b = bv(a, w), bv(b, w)
    if a.eq(b): return a
    r = z3.If(c, a, b)
    if w == 64 and (has_bv(a) or has_bv(b)) and (has_bv(a) or z3.is_int_value(a)) and (has_bv(b) or z3.is_int_value(b)):
        _I2B[r.get_id()] = z3.If(c, I2B(a), I2B(b)); _keep.append(r)
    return r
def ULT(a, b, w=None):
    if isc(a) and isc(b): return a < b
    w = _w(a, b)
    if w == 64: return ii(a) < ii(b)
    if isc(b) and b == 0: return False
    return z3.ULT(bv(a, w), bv(b, w))
def ULE(a, b, w=None):
    if isc(a) and isc(b): return a <= b
    w = _w(a, b)
    if w == 64: return ii(a) <= ii(b)
    if isc(a) and a == 0: return True
    return z3.ULE(bv(a, w), bv(b, w))
def _addc(b, c):
    """Int term b plus python int c, folding nested constants"""
    if c == 0: return b
    if z3.is_int_value(b): return b.as_long() + c
    if b.decl().kind() == z3.Z3_OP_ADD:
        n = b.num_args()
        for k in range(n):
            x = b.arg(k)
            if z3.is_int_value(x):
                s_ = x.as_long() + c
                rest = [b.arg(j) for j in range(n) if j != k]
                o = rest[0] if len(rest) == 1 else z3.Sum(*rest)
                return o if s_ == 0 else o + IV(s_)
    return b + IV(c)
def Add(a, b, w=64):
    """mathematical sum for w == 64 (no wrap), modular otherwise"""
    if w == 64:
        if isc(a) and isc(b): return a + b
        if isc(b): return _addc(ii(a), int(b))
        if isc(a): return _addc(ii(b), int(a))
        return ii(a) + ii(b)
    if isc(a) and isc(b): return (a + b) & ((1 << w) - 1)
    if isc(b) and b == 0: return a
    if isc(a) and a == 0: return b
    return bv(a, w) + bv(b, w)
def Neg(a, w=64):
    if w == 64: return -a if isc(a) else -ii(a)
    return (-a) & ((1 << w) - 1) if isc(a) else -a
def Sub(a, b, w=64):
    if w == 64:
        if isc(a) and isc(b): return a - b
        if isc(b): return _addc(ii(a), -int(b))
        a, b = ii(a), ii(b)
        if a.eq(b): return 0
        if a.decl().kind() == z3.Z3_OP_ADD:
            n = a.num_args()
            for k in range(n):
                if a.arg(k).eq(b):
                    rest = [a.arg(j) for j in range(n) if j != k]
                    return lit(rest[0] if len(rest) == 1 else z3.Sum(*rest))
        return a - b
    if isc(a) and isc(b): return (a - b) & ((1 << w) - 1)
    if isc(b) and b == 0: return a
    return bv(a, w) - bv(b, w)
def lit(x):
    if isc(x): return x
    if z3.is_bv_value(x) or z3.is_int_value(x): return x.as_long()
    return x
def Mul(a, b, w=64):
    if isc(a) and isc(b): return a * b if w == 64 else (a * b) & ((1 << w) - 1)
    if isc(b): a, b = b, a
    if isc(a):
        if a == 1: return b
        if a == 0: return 0
        return bv(a, w) * bv(b, w)
    return bv(a, w) * bv(b, w)
def ZExt(x, w, W):
    if isc(x): return int(x)
    if z3.is_bool(x): return If(x, 1, 0, W)
    if W == 64: return B2I(x)
    if W > 64: 
        return z3.ZeroExt(W - w, I2B(x) if w == 64 else x)
    return z3.ZeroExt(W - w, x) if W > w else x
def Trunc(x, w, W):
    if isc(x): return x & ((1 << W) - 1)
    if w == 64: return I2B(x, W)
    r = z3.Extract(W - 1, 0, x)
    return B2I(r) if W == 64 else r

# ---------------------------------------------------------------- memory
class Region:
    __slots__ = ('id', 'size', 'kind', 'name', 'base', 'const', 'fn', 'align')
    def __init__(s, id, size, kind, name, const=False):
        s.id = id; s.size = size; s.kind = kind; s.name = name; s.const = const
        s.base = None; s.fn = None; s.align = 1

_ver = [0]
class Cells:
    __slots__ = ('d', 'fill', 'ver')      # fill: 'undef' | 'lazy' | 'zero'
    def __init__(s, d, fill, ver=None):
        s.d = d; s.fill = fill
        if ver is None: _ver[0] += 1; ver = _ver[0]
        s.ver = ver
    def copy(s): return Cells(dict(s.d), s.fill, s.ver)

def WSORT(n): return z3.IntSort() if n == 8 else z3.BitVecSort(n * 8)
class Arr:           # abstract array content, addressed by byte offset
    def __init__(s, esz): s.esz = esz
class ABase(Arr):
    def __init__(s, esz, fn, hook=None, name=''):
        s.esz = esz; s.fn = fn; s.hook = hook; s.name = name
    def sel(s, ex, st, off):
        if s.hook: s.hook(ex, st, off)
        r = s.fn(bv(off, 64))
        if s.esz == 8 and not isc(r):
            ex.fact(st, ('rng', r.get_id()), z3.And(r >= 0, r < IV(T64))); ex.keep.append(r)
        return r
class AStore(Arr):
    def __init__(s, b, off, v): s.esz = b.esz; s.b = b; s.off = off; s.v = v
    def sel(s, ex, st, off):
        e = Eq(off, s.off)
        if e is True: return s.v
        if e is False: return s.b.sel(ex, st, off)
        return If(e, s.v, s.b.sel(ex, st, off), s.esz * 8)
class ACopy(Arr):
    def __init__(s, b, d, n, src, so): s.esz = b.esz; s.b = b; s.d = d; s.n = n; s.src = src; s.so = so
    def sel(s, ex, st, off):
        c = And(ULE(s.d, off), ULT(Sub(off, s.d), s.n))
        if c is True: return s.src.sel(ex, st, Add(s.so, Sub(off, s.d)))
        if c is False: return s.b.sel(ex, st, off)
        return If(c, s.src.sel(ex, st, Add(s.so, Sub(off, s.d))), s.b.sel(ex, st, off), s.esz * 8)
class AFill(Arr):
    def __init__(s, b, d, n, v): s.esz = b.esz; s.b = b; s.d = d; s.n = n; s.v = v
    def sel(s, ex, st, off):
        c = And(ULE(s.d, off), ULT(Sub(off, s.d), s.n))
        if c is True: return s.v
        if c is False: return s.b.sel(ex, st, off)
        return If(c, s.v, s.b.sel(ex, st, off), s.esz * 8)

class Node:          # persistent path condition
    __slots__ = ('p', 'f', 'n', 'k')      # k: 'b' branch condition, 'u' universally valid (definition/lemma instance), 'f' fact
    def __init__(s, p, f, k='f'): s.p = p; s.f = f; s.n = (p.n + 1) if p else 1; s.k = k

class Frame:
    __slots__ = ('fn', 'blk', 'i', 'prev', 'regs', 'act', 'ret', 'visits', 'allocas', 'mstop', 'phiov')
    def copy(s):
        f = Frame()
        f.fn = s.fn; f.blk = s.blk; f.i = s.i; f.prev = s.prev; f.regs = dict(s.regs)
        f.act = s.act; f.ret = s.ret; f.visits = dict(s.visits); f.allocas = list(s.allocas); f.mstop = s.mstop; f.phiov = s.phiov
        return f

class State:
    __slots__ = ('frames', 'mem', 'own', 'pc', 'exc', 'ghost', 'seen', 'trace', 'caught')
    def fork(s):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem); s.own = set(); n.own = set()
        n.pc = s.pc; n.exc = s.exc; n.ghost = dict(s.ghost); n.seen = set(s.seen)
        n.trace = s.trace; n.caught = list(s.caught)
        return n

class LoopAct:
    __slots__ = ('header', 'blocks', 'mode', 'back', 'key')

class Failure:
    def __init__(s, label, detail, model, trace): s.label = label; s.detail = detail; s.model = model; s.trace = trace

class Ex:
    """One verification task: a function of the module against its contract."""
    def __init__(s, mod, contracts=None, timeout_ms=8000, unroll=6, deadline=None):
        s.m = mod
        s.contracts = contracts or []      # list of (compiled regex on mangled name, handler)
        s.regions = {}
        s.nreg = 1
        s.cnt = 0
        s.solver = z3.SimpleSolver()
        s.solver.set('timeout', timeout_ms); s.solver.set('arith.solver', 2)
        s.tmo = timeout_ms
        s.stack = []
        s.globs = {}
        s.fns = {}
        s.unroll = unroll
        s.unroll_of = {}
        s.cut = set()
        s.hinted = False
        s.inv = {}           # loop key -> surviving candidate labels
        s.hints = {}         # loop key -> candidate labels that fell in an earlier attempt (not proposed again)
        s.dead = {}
        s.modset = {}        # loop key -> set of cells
        s.failures = []
        s.obl = {}           # label -> count discharged
        s.quiet = 0
        s.stat = dict(queries=0, solver_s=0.0, paths=0, steps=0, fallback=0)
        s.templates = None
        s.deadline = deadline
        s.maxfail = 3
        s.contract_used = {}
        s.trusted_used = {}
        s.tids = {}
        s.globals_init = {}
        s.basefacts = []
        s.witness = None
        s.path_hooks = []
        s.demangled = {}
        nullr = Region(0, 0, 'null', 'null'); s.regions[0] = nullr
        s.inv_report = {}
        s.backends = {}
        s.keep = []; s.ghost_default = None     # value of a ghost nothing has been recorded for yet
        s.term = {}
        s.merging = not os.environ.get('VERIF_NOMERGE')

    # ---------------------------------------------------------- fresh/regions
    def fresh(s, name, w, st=None):
        s.cnt += 1
        if w == 1: return z3.Bool('%s!%d' % (name, s.cnt))
        if w == 64:
            v = z3.Int('%s!%d' % (name, s.cnt))
            s.add(st or s.cur, z3.And(v >= 0, v < IV(T64)))
            return v
        return z3.BitVec('%s!%d' % (name, s.cnt), w)
    def fresh_of(s, st, ty, name='v'):
        if ty.k == 'i': return s.fresh(name, ty.n)
        if ty.k == 'fp': return s.fresh(name, ty.n)
        if ty.k == 'ptr': return UNDEF
        if ty.k in ('arr', 'vec'): return [s.fresh_of(st, ty.e, name) for _ in range(ty.n)]
        if ty.k == 'st': return [s.fresh_of(st, f, name) for f in ty.f]
        raise Unsupported('fresh of %r' % ty)
    def region(s, st, size, kind, name, content, const=False):
        rid = s.nreg; s.nreg += 1
        r = Region(rid, size, kind, name, const); s.regions[rid] = r
        st.mem[rid] = content; st.own.add(rid)
        return rid
    def newarray(s, st, name, size, esz, hook=None, kind='param', const=False):
        """fresh array region of symbolic contents, returns (rid, select-function)"""
        s.cnt += 1
        f = z3.Function('%s!%d' % (name, s.cnt), z3.IntSort(), WSORT(esz))
        rid = s.region(st, size, kind, name, ABase(esz, f, hook, name), const)
        return rid, f
    def base_of(s, rid):
        r = s.regions[rid]
        if rid == 0: return 0
        if r.base is None:
            r.base = z3.Int('base_%s_%d' % (r.name, rid))
        s.fact(s.cur, ('base', rid), z3.And(r.base > 0, r.base % 8 == 0, r.base + ii(r.size if r.size is not None else 0) < IV(T63)))
        return r.base
    def ptr2int(s, v):
        if isinstance(v, (Ptr, PInt)): return Add(s.base_of(v.r), v.o)
        return v

    # ---------------------------------------------------------- solver
    def _sync(s, pc):
        # align solver stack with path
        path = []
        n = pc
        stk = s.stack
        while n is not None and n.n > len(stk):
            path.append(n); n = n.p
        k = len(stk)
        if k > (n.n if n else 0): k = n.n if n else 0
        while n is not None and stk[n.n - 1] is not n:
            path.append(n); n = n.p; k -= 1
        if k < len(stk): s.solver.pop(len(stk) - k); del stk[k:]
        for x in reversed(path):
            s.solver.push(); s.solver.add(x.f); stk.append(x)
    def check(s, pc, extra, quick=0):
        """-> 'sat' 'unsat' 'unknown'"""
        if s.deadline and time.time() > s.deadline: raise VerifierTimeout()
        s._sync(pc)
        t = time.time()
        s.stat['queries'] += 1
        s.solver.push()
        s.solver.add(extra)
        if quick: s.solver.set('timeout', quick)
        r = s.solver.check()
        if quick: s.solver.set('timeout', s.tmo)
        s._model = None
        if r == z3.sat:
            s._model = s.solver.model()
        s.solver.pop()
        dt = time.time() - t
        s.stat['solver_s'] += dt
        if r == z3.unknown:
            if quick: return 'unknown'
            r2 = s._fallback(pc, extra)
            return r2
        s.backends['z3-inc'] = s.backends.get('z3-inc', 0) + 1
        return 'sat' if r == z3.sat else 'unsat'
    def _fallback(s, pc, extra):
        t = time.time()
        s.stat['fallback'] += 1
        fs = []
        n = pc
        while n is not None: fs.append(n.f); n = n.p
        if s.bvabs(fs + [extra]) == 'unsat':
            s.stat['solver_s'] += time.time() - t
            s.backends['z3-qfbv'] = s.backends.get('z3-qfbv', 0) + 1
            return 'unsat'
        sv = z3.Solver(); sv.set('timeout', s.tmo * 4)
        for f in fs: sv.add(f)
        sv.add(extra)
        r = sv.check()
        s.stat['solver_s'] += time.time() - t
        if r == z3.unsat:
            s.backends['z3-oneshot'] = s.backends.get('z3-oneshot', 0) + 1
            return 'unsat'
        if r == z3.sat: s._model = sv.model(); return 'sat'
        # cvc5 as a second back end
        r = s._cvc5(sv)
        if r == 'unsat': s.backends['cvc5'] = s.backends.get('cvc5', 0) + 1
        return r
    def bvabs(s, fs):
        """bit-vector abstraction: every integer atom / function application becomes a fresh constant;
        'unsat' of the abstraction implies unsat of the query"""
        memo = {}
        keep = []
        def ab(e):
            k = e.get_id()
            if k in memo: return memo[k]
            srt = e.sort_kind()
            d = e.decl()
            kind = d.kind()
            ok = srt in (z3.Z3_BOOL_SORT, z3.Z3_BV_SORT) and z3.is_app(e)
            if ok and e.num_args():
                if kind == z3.Z3_OP_UNINTERPRETED: ok = False
                else:
                    for i in range(e.num_args()):
                        if e.arg(i).sort_kind() not in (z3.Z3_BOOL_SORT, z3.Z3_BV_SORT): ok = False; break
            if not ok:
                r = z3.FreshConst(e.sort(), 'abs') if srt in (z3.Z3_BOOL_SORT, z3.Z3_BV_SORT) else None
            elif not e.num_args(): r = e
            else:
                ch = [ab(e.arg(i)) for i in range(e.num_args())]
                r = d(*ch) if kind not in (z3.Z3_OP_AND, z3.Z3_OP_OR) else (z3.And(*ch) if kind == z3.Z3_OP_AND else z3.Or(*ch))
            memo[k] = r; keep.append(e)
            return r
        try:
            sv = z3.SolverFor('QF_BV'); sv.set('timeout', s.tmo)
            for f in fs: sv.add(ab(f))
            r = sv.check()
        except z3.Z3Exception: return 'unknown'
        return 'unsat' if r == z3.unsat else 'unknown'
    def _cvc5(s, sv):
        import subprocess, tempfile, os
        t = time.time()
        txt = '(set-logic ALL)\n' + sv.to_smt2()
        try:
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt); fn = f.name
            o = subprocess.run(['cvc5', '--tlimit=%d' % (s.tmo * 3), fn], capture_output=True, text=True, timeout=s.tmo * 3 / 1000 + 10).stdout
        except Exception: o = ''
        finally:
            try: os.unlink(fn)
            except Exception: pass
        s.stat['solver_s'] += time.time() - t
        for l in o.split('\n'):
            if l.strip() in ('sat', 'unsat'): return l.strip()
        return 'unknown'
    def add(s, st, f, k='f'):
        if type(f) is bool:
            if not f: st.pc = Node(st.pc, z3.BoolVal(False))
            return
        st.pc = Node(st.pc, f, k)
    def fact(s, st, key, f):
        """definitional fact, added once per path"""
        if key in st.seen: return
        st.seen.add(key)
        s.add(st, f)
    def feasible(s, st, c):
        if type(c) is bool:
            return c
        return s.check(st.pc, c) != 'unsat'
    def must(s, st, c):
        if type(c) is bool: return c
        return s.check(st.pc, z3.Not(c)) == 'unsat'
    def prove(s, st, c, label, detail=''):
        """proof obligation; afterwards assumed"""
        if s.quiet:
            s.add(st, c); return True
        if type(c) is bool and c:
            s.obl[label] = s.obl.get(label, 0) + 1
            return True
        cc = bl(c)
        r = s.check(st.pc, z3.Not(cc))
        if r == 'unsat':
            s.obl[label] = s.obl.get(label, 0) + 1
            s.add(st, c)
            return True
        s.failures.append(Failure(label, detail + (' [solver: %s]' % r), s.model_str(r), s.where(st)))
        if len(s.failures) >= s.maxfail: raise Stop()
        s.add(st, c)
        return False
    def fail(s, st, label, detail=''):
        """obligation: this point is unreachable"""
        return s.prove(st, False, label, detail)
    def model_str(s, r):
        if r != 'sat' or s._model is None: return None
        m = s._model
        out = []
        try:
            for d in m.decls():
                t = str(m[d])
                out.append('%s = %s' % (d.name(), t if len(t) < 200 else t[:200] + '...'))
        except Exception: pass
        s.last_model = m
        return out[:80]
    def where(s, st):
        return ['%s:%s' % (f.fn.name, f.blk) for f in st.frames[-3:]]

    # ---------------------------------------------------------- globals
    def glob(s, st, name):
        if name in s.m.aliases:
            v = s.m.aliases[name]
            return s.cval(st, v)
        rid = s.globs.get(name)
        if rid is None:
            f = s.m.funcs.get(name)
            if f is not None:
                rid = s.nreg; s.nreg += 1
                r = Region(rid, 1, 'fn', name, True); r.fn = name; s.regions[rid] = r
                s.globs[name] = rid
                st.mem[rid] = Cells({}, 'undef')
                s.globals_init[rid] = st.mem[rid]
                return Ptr(rid, 0)
            g = s.m.globals.get(name)
            if g is None: raise Unsupported('global ' + name)
            try: sz = size_of(g.ty)
            except ValueError: sz = 1 << 20
            rid = s.nreg; s.nreg += 1
            r = Region(rid, sz, 'global', name, g.const); s.regions[rid] = r
            s.globs[name] = rid
            c = Cells({}, 'lazy')
            st.mem[rid] = c; s.globals_init[rid] = c
            if g.init is not None:
                if g.const or not g.external:
                    if g.const:
                        c.fill = 'zero' if g.init[0] == 'Z' else 'undef'
                        s._init(st, c, 0, g.ty, g.init)
        if rid not in st.mem: st.mem[rid] = s.globals_init[rid]
        return Ptr(rid, 0)
    def _init(s, st, c, off, ty, v):
        k = v[0]
        if k == 'Z':
            if ty.k in ('i', 'ptr', 'fp'):
                c.d[off] = (size_of(ty), NULL if ty.k == 'ptr' else 0)
            elif ty.k in ('arr', 'vec'):
                if size_of(ty) > 4096: c.fill = 'zero'; return
                for i in range(ty.n): s._init(st, c, off + i * size_of(ty.e), ty.e, ('Z', ty.e))
            elif ty.k == 'st':
                for f, o in zip(ty.f, offs_of(ty)): s._init(st, c, off + o, f, ('Z', f))
        elif k == 'STR':
            for i, b in enumerate(v[1]): c.d[off + i] = (1, b)
        elif k == 'A':
            if ty.k == 'st': os_ = offs_of(ty)
            else: os_ = [i * size_of(ty.e) for i in range(len(v[2]))]
            for (t, x), o in zip(v[2], os_): s._init(st, c, off + o, t, x)
        elif k == 'U': pass
        else:
            x = s.cval(st, v)
            if ty.k == 'i' and ty.n == 1: x = int(x)
            c.d[off] = (size_of(ty), x)

    def cval(s, st, v):
        """constant / operand without locals"""
        k = v[0]
        if k == 'C':
            return bool(v[2]) if v[1].n == 1 else v[2]
        if k == 'N': return NULL
        if k == 'G': return s.glob(st, v[1])
        if k == 'U': return s.fresh_of(st, v[1], 'undef')
        if k == 'Z': return s.zero(v[1])
        if k == 'A': return [s.cval(st, x) for _, x in v[2]]
        if k == 'STR': return list(v[1])
        if k == 'GEP':
            b = s.cval(st, v[2][0][1])
            return s.gep(st, v[1], b, [(t, s.cval(st, x)) for t, x in v[2][1:]])
        if k == 'CAST':
            x = s.cval(st, v[2][1])
            if v[1] == 'ptrtoint': return s.cast_p2i(x, v[3].n)
            if v[1] == 'inttoptr': return s.int2ptr(x)
            if v[1] in ('trunc',): return Trunc(s.ptr2int(x), v[2][0].n, v[3].n)
            return x
        if k == 'BIN':
            return s.binop(st, v[1], v[2][0], s.cval(st, v[2][1]), s.cval(st, v[3][1]))
        if k == 'ICMP': return s.icmp(st, v[1], v[2][0], s.cval(st, v[2][1]), s.cval(st, v[3][1]))
        if k == 'SEL': return s.cval(st, v[2][1]) if s.cval(st, v[1][1]) else s.cval(st, v[3][1])
        if k == 'F': return s.fconst(v[1], v[2])
        if k == 'M': return None
        raise Unsupported('const %r' % (v,))
    def fconst(s, ty, txt):
        import struct
        if txt.startswith('0x') and txt[2] in 'KMLHR':
            return int(txt[3:], 16)
        if txt.startswith('0x'): b = int(txt, 16)
        else: b = struct.unpack('<Q', struct.pack('<d', float(txt)))[0]
        if ty.n == 64: return b
        if ty.n == 32:
            d = struct.unpack('<d', struct.pack('<Q', b))[0]
            return struct.unpack('<I', struct.pack('<f', d))[0]
        raise Unsupported('fp const')
    def zero(s, ty):
        if ty.k == 'i': return False if ty.n == 1 else 0
        if ty.k == 'ptr': return NULL
        if ty.k == 'fp': return 0
        if ty.k in ('arr', 'vec'): return [s.zero(ty.e) for _ in range(ty.n)]
        if ty.k == 'st': return [s.zero(f) for f in ty.f]
        raise Unsupported('zero %r' % ty)
    def val(s, st, v):
        if v[0] == 'L':
            try: return st.frames[-1].regs[v[1]]
            except KeyError: raise Unsupported('local %s in %s' % (v[1], st.frames[-1].fn.name))
        if v[0] == 'C': return bool(v[2]) if v[1].n == 1 else v[2]
        if v[0] == 'A': return [s.val(st, x) for _, x in v[2]]
        return s.cval(st, v)

    # ---------------------------------------------------------- pointers
    def gep(s, st, ty, p, idx):
        if not isinstance(p, Ptr):
            if p is UNDEF: raise Unsupported('gep on undef pointer')
            p = s.int2ptr(p)
        off = p.o
        t0, i0 = idx[0]
        off = s._addidx(off, i0, t0, size_of(ty))
        t = ty
        for it, iv in idx[1:]:
            if t.k == 'st':
                off = Add(off, offs_of(t)[iv]); t = t.f[iv]
            elif t.k in ('arr', 'vec'):
                off = s._addidx(off, iv, it, size_of(t.e)); t = t.e
            else: raise Unsupported('gep into %r' % t)
        return Ptr(p.r, off)
    def _addidx(s, off, iv, it, sz):
        if isinstance(iv, PInt):
            iv = s.ptr2int(iv)
        if isc(iv): return Add(off, sgn(int(iv) & ((1 << it.n) - 1), it.n) * sz)
        if it.n < 64: iv = s.sext64(iv, it.n, signed=True)
        elif it.n > 64: raise Unsupported('i128 index')
        else: iv = s.tosigned(s.cur, iv)
        return Add(off, Mul(iv, sz))
    def sext64(s, x, w, signed=False):
        if isc(x): return sgn(x, w) if signed else sgn(x, w) & M64
        neg = x < 0 if w > 1 else x
        if x.decl().kind() == z3.Z3_OP_ZERO_EXT: return B2I(x)
        b = ii(B2I(x))
        if signed: return z3.If(neg, b - IV(1 << w), b)
        r = z3.If(neg, b + IV(T64 - (1 << w)), b)
        if r.get_id() not in _I2B:
            _I2B[r.get_id()] = z3.SignExt(64 - w, x); _keep.append(r)
        return r
    def tosigned(s, st, x):
        """signed reading of a 64-bit value"""
        if isc(x): return sgn(x & M64, 64)
        if s.must_cached(st, x, 'lt63', lambda: x < IV(T63)): return x
        if s.must_cached(st, x, 'ge63', lambda: x >= IV(T63)): return x - IV(T64)
        return z3.If(x >= IV(T63), x - IV(T64), x)
    def must_cached(s, st, x, tag, mk):
        key = (tag, x.get_id())
        if key in st.seen: return True
        f = mk()
        if s.must(st, f):
            st.seen.add(key); s.keep.append(x); return True
        return False
    def wrap(s, st, t):
        """reduce a mathematical integer to [0, 2^64)"""
        if isc(t): return t & M64
        if z3.is_int_value(t): return t.as_long() & M64
        if s.must_cached(st, t, 'rng64', lambda: z3.And(t >= 0, t < IV(T64))): return t
        if s.must(st, z3.And(t >= IV(T64), t < IV(2 * T64))): return lit(_addc(t, -T64))
        if s.must(st, z3.And(t < 0, t >= -IV(T64))): return lit(_addc(t, T64))
        if s.must(st, z3.And(t >= -IV(T64), t < IV(2 * T64))):
            return z3.If(t < 0, t + IV(T64), z3.If(t >= IV(T64), t - IV(T64), t))
        return t % IV(T64)
    def cast_p2i(s, x, w):
        if isinstance(x, Ptr):
            if x.r == 0: x = x.o
            elif w == 64: return PInt(x.r, x.o)
            else: x = s.ptr2int(x)
        if w < 64: return Trunc(x, 64, w)
        return x
    def int2ptr(s, x):
        if isinstance(x, PInt): return Ptr(x.r, x.o)
        if isinstance(x, Ptr): return x
        if x is UNDEF: return UNDEF
        return Ptr(0, x)

    # ---------------------------------------------------------- load/store
    def access(s, st, p, n, what):
        if p is UNDEF:
            s.fail(st, 'memory-safety: %s through an indeterminate pointer' % what); raise PathDead()
        if not isinstance(p, Ptr): p = s.int2ptr(p)
        r = s.regions[p.r]
        if r.kind == 'null':
            s.fail(st, 'memory-safety: %s through null' % what); raise PathDead()
        if st.ghost.get(('freed', p.r)):
            s.fail(st, 'memory-safety: %s of freed/expired object %s' % (what, r.name)); raise PathDead()
        if r.kind == 'fn': raise Unsupported('access to function')
        if what == 'store' and r.const:
            s.fail(st, 'memory-safety: store to constant'); raise PathDead()
        size = r.size if r.size is not None else st.ghost[('size', p.r)]
        o = p.o
        if isc(o) and isc(size):
            if not (0 <= o and o + n <= size):
                s.fail(st, 'memory-safety: %s out of bounds of %s' % (what, r.name), 'offset %d size %d' % (o, size)); raise PathDead()
            if not s.quiet: s.obl['memory-safety'] = s.obl.get('memory-safety', 0) + 1
        else:
            c = And(ULE(0, o), ULE(Add(o, n), size))
            key = ('acc', p.r, o if isc(o) else o.get_id(), n)
            if key in st.seen: pass
            else:
                if not s.prove(st, c, 'memory-safety: %s within %s' % (what, r.name), 'offset %s size %s' % (o, size)):
                    pass
                if not isc(o): st.ghost[('keep', o.get_id())] = o
                st.seen.add(key)
        return p, r

    def content_w(s, st, rid):
        c = st.mem[rid]
        if isinstance(c, Cells) and rid not in st.own:
            c = st.mem[rid] = c.copy(); st.own.add(rid)
        return c

    def load(s, st, p, ty, raw=False):
        if ty.k in ('arr', 'vec'):
            es = size_of(ty.e)
            return [s.load(st, Ptr(p.r, Add(p.o, i * es)), ty.e) for i in range(ty.n)]
        if ty.k == 'st':
            return [s.load(st, Ptr(p.r, Add(p.o, o)), f) for f, o in zip(ty.f, offs_of(ty))]
        n = size_of(ty) if ty.k != 'i' else (ty.n + 7) // 8
        p, r = s.access(st, p, n, 'load')
        v = s.load_raw(st, p, n, ty)
        return s.coerce(st, v, n, ty)
    def coerce(s, st, v, n, ty):
        if ty.k == 'ptr':
            if isinstance(v, Ptr) or v is UNDEF: return v
            if isinstance(v, PInt): return Ptr(v.r, v.o)
            return Ptr(0, ii(v) if not isc(v) else v)
        if isinstance(v, Ptr):
            v = PInt(v.r, v.o) if v.r else v.o
        if ty.k == 'fp':
            if v is UNDEF: return s.fresh('undef', ty.n)
            return v if isc(v) else (ii(v) if ty.n == 64 else v)
        if v is UNDEF:
            return s.fresh('undef', ty.n)
        if ty.n == 1:
            if isc(v): return bool(v & 1)
            if z3.is_bool(v): return v
            if z3.is_app_of(v, z3.Z3_OP_ITE) and z3.is_bv_value(v.arg(1)) and z3.is_bv_value(v.arg(2)):
                a, b = v.arg(1).as_long(), v.arg(2).as_long()
                if (a, b) == (1, 0): return v.arg(0)
                if (a, b) == (0, 1): return z3.Not(v.arg(0))
            return z3.Extract(0, 0, v) == 1
        if isinstance(v, PInt): return v
        if isc(v): return v & ((1 << ty.n) - 1)
        if ty.n == 64: return ii(v)
        if z3.is_int(v): return I2B(v, ty.n)
        if v.size() > ty.n: return z3.Extract(ty.n - 1, 0, v)
        return v
    def load_raw(s, st, p, n, ty=None):
        c = st.mem[p.r]
        o = p.o
        if isinstance(c, Arr):
            if n == c.esz:
                return c.sel(s, st, o)
            if n % c.esz == 0 and n > c.esz and n // c.esz <= 16:
                ps = [bv(c.sel(s, st, Add(o, i * c.esz)), c.esz * 8) for i in range(n // c.esz)]
                if all(z3.is_bv_value(x) for x in ps):
                    return sum(x.as_long() << (c.esz * 8 * i) for i, x in enumerate(ps))
                v = z3.Concat(*reversed(ps))
                return B2I(v) if n == 8 else v
            if isc(o) and n < c.esz:
                b = o // c.esz * c.esz
                if o + n <= b + c.esz:
                    x = c.sel(s, st, b); lo = (o - b) * 8
                    return z3.Extract(lo + n * 8 - 1, lo, I2B(x) if c.esz == 8 else bv(x, c.esz * 8))
            raise Unsupported('load of %d bytes from array of %d-byte elements (%s)' % (n, c.esz, s.regions[p.r].name))
        if not isc(o):
            return s.sym_cells_load(st, p, n, ty)
        e = c.d.get(o)
        if e is not None and e[0] == n: return e[1]
        return s.gather(st, p.r, c, o, n, ty)
    def lazyvar(s, rid, c, o, n):
        nm = 'm_%s_%d_%d_%d_%d' % (s.regions[rid].name[:20], rid, c.ver, o, n)
        if n == 8:
            v = z3.Int(nm); s.fact(s.cur, ('rng', nm), z3.And(v >= 0, v < IV(T64)))
            return v
        return z3.BitVec(nm, n * 8)
    def gather(s, st, rid, c, o, n, ty):
        # any overlapping cell?
        over = False
        if e_over(c, o, n): over = True
        if not over:
            if c.fill == 'zero':
                return NULL if ty is not None and ty.k == 'ptr' else 0
            if c.fill == 'lazy':
                if ty is not None and ty.k == 'ptr':
                    v = UNDEF
                else: v = s.lazyvar(rid, c, o, n)
                c = s.content_w(st, rid); c.d[o] = (n, v)
                return v
            if ty is not None and ty.k == 'ptr': return UNDEF
            return s.fresh('undef', n * 8)
        if n == 8 and c.fill == 'undef':
            k = n
            while k and not any(c.d.get(o + k - 1 - j) is not None and c.d[o + k - 1 - j][0] > j for j in range(17)): k -= 1
            if k < n:        # padding behind a narrower field: one unknown for all of it
                lo = s.gather(st, rid, c, o, k, None) if k not in (1, 2, 4) or (c.d.get(o) or (0,))[0] != k else c.d[o][1]
                if isinstance(lo, bool): lo = int(lo)
                if isc(lo):
                    h = s.fresh('undef', 64, st); s.add(st, ii(h) < IV(1 << (8 * (n - k))), 'u')
                    return lo + ii(h) * IV(1 << (8 * k))
                if z3.is_bv(lo) and lo.size() == 8 * k: return B2I(z3.simplify(z3.Concat(s.fresh('undef', 8 * (n - k)), lo)))
        bs = [s.byte(st, rid, c, o + i) for i in range(n)]
        if all(isc(b) for b in bs):
            return sum(b << (8 * i) for i, b in enumerate(bs))
        v = z3.Concat(*reversed([bv(b, 8) for b in bs])) if n > 1 else bs[0]
        v = z3.simplify(v)
        return B2I(v) if n == 8 else v
    def byte(s, st, rid, c, o):
        for k in range(0, 17):
            e = c.d.get(o - k)
            if e is not None:
                if e[0] > k:
                    v = e[1]
                    if isinstance(v, (Ptr, PInt)): v = s.ptr2int(v)
                    if v is UNDEF: return s.fresh('undef', 8)
                    if isinstance(v, bool): v = int(v)
                    if isc(v): return v >> (8 * k) & 255
                    if z3.is_bool(v): v = z3.If(v, BV(1, e[0] * 8), BV(0, e[0] * 8))
                    if z3.is_int(v): v = I2B(v)
                    if v.size() < e[0] * 8: v = z3.ZeroExt(e[0] * 8 - v.size(), v)
                    return z3.Extract(8 * k + 7, 8 * k, v)
        if c.fill == 'zero': return 0
        v = s.fresh('undef', 8) if c.fill == 'undef' else s.lazyvar(rid, c, o, 1)
        if c.fill == 'lazy':
            c2 = s.content_w(st, rid); c2.d[o] = (1, v); c.d[o] = (1, v) if c is not c2 else c2.d[o]
        return v
    def sym_cells_load(s, st, p, n, ty):
        r = s.regions[p.r]; c = st.mem[p.r]
        # enumerate matching cells of this width
        cells = [(k, e[1]) for k, e in c.d.items() if e[0] == n]
        if not isc(r.size): raise Unsupported('symbolic load of small region')
        if not cells or n * len(cells) < r.size // 2:
            # try to convert to array
            s.to_arr(st, p.r, n)
            return st.mem[p.r].sel(s, st, p.o)
        if any(isinstance(v, (Ptr, PInt)) for _, v in cells):
            raise NeedEnum(p.o)
        cells = [(k, v) for k, v in cells if v is not UNDEF]
        cells.sort(key=lambda t: t[0])
        stride_ok = all(cells[i + 1][0] - cells[i][0] == n for i in range(len(cells) - 1))
        res = bv(cells[-1][1], n * 8)
        if len(cells) > 300: raise Unsupported('large table')
        # runs compress: consecutive arithmetic progressions
        for k, v in reversed(cells[:-1]):
            res = z3.If(ii(p.o) == IV(k), bv(v, n * 8), res)
        return res
    def to_arr(s, st, rid, n):
        c = st.mem[rid]
        if isinstance(c, Arr): return
        r = s.regions[rid]
        s.cnt += 1
        f = z3.Function('buf_%s!%d' % (r.name, s.cnt), z3.IntSort(), WSORT(n))
        if c.fill == 'zero':
            a = ABase(n, lambda o: bv(0, n * 8))
        else: a = ABase(n, f)
        for k, (sz, v) in sorted(c.d.items()):
            if sz != n or isinstance(v, (Ptr, PInt)) or v is UNDEF:
                if v is UNDEF: continue
                if isinstance(v, (Ptr, PInt)) or sz % n: raise Unsupported('array view of mixed cells in %s' % r.name)
                for j in range(sz // n):
                    x = (v >> (8 * n * j)) & ((1 << 8 * n) - 1) if isc(v) else z3.Extract(8 * n * (j + 1) - 1, 8 * n * j, I2B(v) if sz == 8 else v)
                    a = AStore(a, k + j * n, x)
                continue
            a = AStore(a, k, v)
        st.mem[rid] = a
    def store(s, st, p, v, ty):
        if ty.k in ('arr', 'vec'):
            es = size_of(ty.e)
            for i in range(ty.n): s.store(st, Ptr(p.r, Add(p.o, i * es)), v[i], ty.e)
            return
        if ty.k == 'st':
            for i, (f, o) in enumerate(zip(ty.f, offs_of(ty))): s.store(st, Ptr(p.r, Add(p.o, o)), v[i], f)
            return
        n = size_of(ty) if ty.k != 'i' else (ty.n + 7) // 8
        p, r = s.access(st, p, n, 'store')
        if ty.k == 'i' and ty.n == 1: v = ZExt(v, 1, 8) if not isc(v) else int(v)
        elif ty.k == 'i' and ty.n % 8 and not isc(v): v = z3.ZeroExt(n * 8 - ty.n, I2B(v) if z3.is_int(v) else v)
        s.store_raw(st, p, n, v)
    def store_raw(s, st, p, n, v):
        c = s.content_w(st, p.r)
        o = p.o
        if isinstance(c, Arr):
            if isinstance(v, (Ptr, PInt)):
                raise Unsupported('pointer stored into array region')
            if n == c.esz:
                st.mem[p.r] = AStore(c, o, v); return
            if n % c.esz == 0:
                k = c.esz * 8
                for i in range(n // c.esz):
                    x = (v >> (k * i)) & ((1 << k) - 1) if isc(v) else z3.Extract(k * i + k - 1, k * i, I2B(v) if n == 8 else v)
                    c = AStore(c, Add(o, i * c.esz), x)
                st.mem[p.r] = c; return
            raise Unsupported('store of %d bytes into array of %d' % (n, c.esz))
        if not isc(o):
            if isinstance(v, (Ptr, PInt)): raise NeedEnum(o)
            s.to_arr(st, p.r, n)
            st.mem[p.r] = AStore(st.mem[p.r], o, v)
            return
        s.kill(st, p.r, c, o, n)
        c.d[o] = (n, v)
    def kill(s, st, rid, c, o, n):
        """remove cells overlapping [o,o+n), keeping the bytes outside"""
        d = c.d
        e = d.get(o)
        if e is not None and e[0] == n: return
        if n <= 64: cand = [k for k in range(o - 16, o + n) if k in d]
        else: cand = [k for k in d if o - 16 <= k < o + n]
        for k in cand:
            sz, v = d[k]
            if k + sz <= o or k >= o + n: continue
            if k < o or k + sz > o + n:
                bs = [(k + i, s.byte(st, rid, c, k + i)) for i in range(sz) if not (o <= k + i < o + n)]
                del d[k]
                for kk, b in bs: d[kk] = (1, b)
            else: del d[k]
    def memcpy(s, st, d, src, n, move=False):
        n = lit(n) if not isc(n) else n
        if isc(n):
            if n == 0: return
            d, _ = s.access(st, d, n, 'store'); src, _ = s.access(st, src, n, 'load')
            cs = st.mem[src.r]
            cd = s.content_w(st, d.r)
            if isinstance(cs, Cells) and isinstance(cd, Cells) and isc(d.o) and isc(src.o):
                items = []
                covered = set()
                for k in ([k for k in range(src.o - 16, src.o + n) if k in cs.d] if n < 256 else list(cs.d)):
                    sz, v = cs.d[k]
                    if k >= src.o and k + sz <= src.o + n: items.append((k - src.o, sz, v))
                    elif k + sz > src.o and k < src.o + n:
                        for i in range(sz):
                            if src.o <= k + i < src.o + n: items.append((k + i - src.o, 1, s.byte(st, src.r, cs, k + i)))
                if cs.fill in ('lazy', 'zero'):
                    cov = set()
                    for o, sz, v in items: cov.update(range(o, o + sz))
                    miss = [i for i in range(n) if i not in cov]
                    i = 0
                    if miss and n <= 4096:
                        ms = set(miss)
                        for i in miss:
                            if i not in ms: continue
                            if i % 8 == 0 and all(j in ms for j in range(i, i + 8)): w = 8
                            elif i % 4 == 0 and all(j in ms for j in range(i, i + 4)): w = 4
                            else: w = 1
                            for j in range(i, i + w): ms.discard(j)
                            if cs.fill == 'zero': v = 0
                            else:
                                v = s.lazyvar(src.r, cs, src.o + i, w)
                                c2 = s.content_w(st, src.r); c2.d[src.o + i] = (w, v)
                            items.append((i, w, v))
                    cd = s.content_w(st, d.r)
                s.kill_range(st, d.r, cd, d.o, n)
                for o, sz, v in items: cd.d[d.o + o] = (sz, v)
                return
            if isinstance(cs, Arr) and isinstance(cd, Cells) and isc(d.o) and n <= 256:
                vals = [cs.sel(s, st, Add(src.o, i)) for i in range(0, n, cs.esz)]
                s.kill_range(st, d.r, cd, d.o, n)
                for i, v in enumerate(vals): cd.d[d.o + i * cs.esz] = (cs.esz, v)
                return
            if isinstance(cs, Cells) and isinstance(cd, Arr) and isc(src.o) and n <= 256:
                e = cd.esz
                vals = [s.load_raw(st, Ptr(src.r, src.o + i), e) for i in range(0, n, e)]
                for i, v in enumerate(vals): st.mem[d.r] = AStore(st.mem[d.r], Add(d.o, i * e), v)
                return
        # symbolic size or array-to-array
        if not isc(n):
            if not s.feasible(st, ii(n) != 0):
                return
        if isinstance(d, Ptr) and isinstance(src, Ptr) and (d.r == 0 or src.r == 0):
            s.prove(st, Eq(n, 0), 'memory-safety: memcpy with null'); return
        rd, rs = s.regions[d.r], s.regions[src.r]
        s.prove(st, And(ULE(0, d.o), ULE(Add(d.o, n), rd.size)), 'memory-safety: memcpy destination within %s' % rd.name)
        s.prove(st, And(ULE(0, src.o), ULE(Add(src.o, n), rs.size)), 'memory-safety: memcpy source within %s' % rs.name)
        if st.ghost.get(('freed', d.r)) or st.ghost.get(('freed', src.r)):
            s.fail(st, 'memory-safety: memcpy of freed object'); raise PathDead()
        cs = st.mem[src.r]; cd = st.mem[d.r]
        if isinstance(cs, Cells):
            if isinstance(cd, Arr): s.to_arr(st, src.r, cd.esz)
            else:
                szs = {e[0] for e in cs.d.values()} or {e[0] for e in cd.d.values()} or {1}
                s.to_arr(st, src.r, min(szs))
            cs = st.mem[src.r]
        if isinstance(cd, Cells):
            s.content_w(st, d.r); s.to_arr(st, d.r, cs.esz); cd = st.mem[d.r]
        if cs.esz != cd.esz: raise Unsupported('memcpy between arrays of different element size')
        st.mem[d.r] = ACopy(cd, d.o, n, cs, src.o)
    def kill_range(s, st, rid, c, o, n):
        for k in [k for k in c.d if k > o - 17 and k < o + n]:
            sz, v = c.d[k]
            if k + sz <= o: continue
            if k < o or k + sz > o + n:
                bs = [(k + i, s.byte(st, rid, c, k + i)) for i in range(sz) if not (o <= k + i < o + n)]
                del c.d[k]
                for kk, b in bs: c.d[kk] = (1, b)
            else: del c.d[k]
        if c.fill == 'lazy' and n > 0: pass
    def memset(s, st, d, b, n):
        n = lit(n) if not isc(n) else n
        if isc(n):
            if n == 0: return
            d, _ = s.access(st, d, n, 'store')
            c = s.content_w(st, d.r)
            if isinstance(c, Cells) and isc(d.o) and n <= 4096:
                s.kill_range(st, d.r, c, d.o, n)
                i = 0
                while i < n:
                    w = 8 if i + 8 <= n else 4 if i + 4 <= n else 2 if i + 2 <= n else 1
                    if isc(b): v = int.from_bytes(bytes([b]) * w, 'little')
                    else:
                        v = z3.Concat(*([b] * w)) if w > 1 else b
                        if w == 8: v = B2I(v)
                    c.d[d.o + i] = (w, v); i += w
                return
            if isinstance(c, Cells) and isc(d.o) and c.fill == 'undef' and s.ghost_default:      # the bytes of element storage are never read: any value
                s.kill_range(st, d.r, c, d.o, n); return
        r = s.regions[d.r]
        s.prove(st, And(ULE(0, d.o), ULE(Add(d.o, n), r.size)), 'memory-safety: memset within %s' % r.name)
        c = s.content_w(st, d.r)
        if isinstance(c, Cells): s.to_arr(st, d.r, 1)
        c = st.mem[d.r]
        if c.esz == 1: v = b
        elif isc(b): v = int.from_bytes(bytes([b]) * c.esz, 'little')
        else: v = z3.Concat(*([b] * c.esz))
        st.mem[d.r] = AFill(c, d.o, n, v)

    # ---------------------------------------------------------- arithmetic
    def binop(s, st, op, ty, a, b):
        if ty.k == 'vec':
            return [s.binop(st, op, ty.e, x, y) for x, y in zip(a, b)]
        if ty.k == 'fp':
            return s.fop(op, ty, [a, b])
        w = ty.n
        if a is UNDEF or b is UNDEF: return s.fresh('undef', w)
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt) and a.r == b.r:
                return s.wrap(st, Sub(a.o, b.o))
            if op == 'add':
                if isinstance(a, PInt) and not isinstance(b, PInt): return PInt(a.r, Add(a.o, s.tosigned(st, b)))
                if isinstance(b, PInt) and not isinstance(a, PInt): return PInt(b.r, Add(b.o, s.tosigned(st, a)))
            if op == 'sub' and isinstance(a, PInt) and not isinstance(b, PInt): return PInt(a.r, Sub(a.o, s.tosigned(st, b)))
            a = s.ptr2int(a); b = s.ptr2int(b)
        if w == 1:
            if op == 'and' or op == 'mul': return And(a, b)
            if op == 'or': return Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if type(a) is bool: a, b = b, a
                if type(b) is bool: return Not(a) if b else a
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        m = (1 << w) - 1
        if w == 64: return s.binop64(st, op, a, b)
        if op == 'add': return Add(a, b, w)
        if op == 'sub': return Sub(a, b, w)
        if op == 'mul': return Mul(a, b, w)
        ca, cb = isc(a), isc(b)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if cb and b == 0: 
                s.fail(st, 'undefined-behaviour: division by zero'); raise PathDead()
            if not cb: s.prove(st, b != 0, 'undefined-behaviour: division by zero')
            if ca and cb:
                if op == 'udiv': return a // b
                if op == 'urem': return a % b
                x, y = sgn(a, w), sgn(b, w)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0): q = -q
                return (q if op == 'sdiv' else x - q * y) & m
            h = getattr(s, 'divhook', None)
            if h:
                r = h(s, st, op, a, b, w)
                if r is not None: return r
            if cb and b & (b - 1) == 0 and op in ('udiv', 'urem'):
                k = b.bit_length() - 1
                if op == 'udiv': return z3.LShR(a, k) if k else a
                return a & BV(b - 1, w)
            A, B = bv(a, w), bv(b, w)
            if op == 'udiv': return z3.UDiv(A, B)
            if op == 'urem': return z3.URem(A, B)
            if op == 'sdiv': return A / B
            return z3.SRem(A, B)
        if op in ('shl', 'lshr', 'ashr'):
            if cb:
                if b >= w: return s.fresh('poison', w)
                if ca:
                    if op == 'shl': return (a << b) & m
                    if op == 'lshr': return a >> b
                    return (sgn(a, w) >> b) & m
                if b == 0: return a
                if op == 'shl': return a << BV(b, w)
                if op == 'lshr': return z3.LShR(a, BV(b, w))
                return a >> BV(b, w)
            A, B = bv(a, w), bv(b, w)
            if op == 'shl': return A << B
            if op == 'lshr': return z3.LShR(A, B)
            return A >> B
        if ca and cb:
            return a & b if op == 'and' else a | b if op == 'or' else a ^ b
        if op == 'and':
            if cb: a, b, ca, cb = b, a, cb, ca
            if ca:
                if a == 0: return 0
                if a == m: return b
            return bv(a, w) & bv(b, w)
        if op == 'or':
            if cb: a, b, ca, cb = b, a, cb, ca
            if ca and a == 0: return b
            return bv(a, w) | bv(b, w)
        if op == 'xor':
            if cb and b == 0: return a
            if ca and a == 0: return b
            return bv(a, w) ^ bv(b, w)
        raise Unsupported(op)

    def binop64(s, st, op, a, b):
        ca, cb = isc(a), isc(b)
        if ca: a &= M64
        if cb: b &= M64
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            if ca and cb:
                if op == 'and': return a & b
                if op == 'or': return a | b
                if op == 'xor': return a ^ b
                if b >= 64: return s.fresh('poison', 64)
                if op == 'shl': return (a << b) & M64
                if op == 'lshr': return a >> b
                return (sgn(a, 64) >> b) & M64
            if op in ('and', 'or', 'xor') and ca: a, b, ca, cb = b, a, cb, ca
            if cb:
                if op == 'and' and b == 0: return 0
                if op == 'and' and b == M64: return a
                if op in ('or', 'xor', 'shl', 'lshr', 'ashr') and b == 0: return a
            if (ca or has_bv(a)) and (cb or has_bv(b)):
                A, B = I2B(a), I2B(b)
                r = {'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B,
                     'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[op]()
                return B2I(z3.simplify(r))
            if cb:
                if op == 'and':
                    if b & (b + 1) == 0: return a % IV(b + 1)
                    nb = ~b & M64
                    if nb & (nb + 1) == 0: return a - a % IV(nb + 1)
                    if b & (b - 1) == 0: return ((a / IV(b)) % 2) * IV(b)
                if op == 'shl' and b < 64: return s.wrap(st, a * IV(1 << b))
                if op == 'lshr' and b < 64: return a / IV(1 << b)
                if op == 'ashr' and b < 64:
                    sa = s.tosigned(st, a)
                    return s.wrap(st, ii(sa) / IV(1 << b))
                if op == 'xor' and b == M64: return IV(M64) - a
                if op == 'or' and b & (b - 1) == 0:
                    return z3.If((a / IV(b)) % 2 == 0, a + IV(b), a)
            A, B = I2B(a), I2B(b)
            r = {'and': lambda: A & B, 'or': lambda: A | B, 'xor': lambda: A ^ B, 'shl': lambda: A << B,
                 'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B}[op]()
            r = B2I(r)
            if op == 'xor' and not isc(r): _XOR[r.get_id()] = (ii(a), ii(b))
            return r
        if op in ('add', 'sub', 'mul') and (ca or has_bv(a)) and (cb or has_bv(b)) and not (ca and cb) and (op != 'mul' or ca or cb):
            r = s.arith64(st, op, a, b, ca, cb)
            if not isc(r) and r.get_id() not in _I2B:
                A, B = I2B(a), I2B(b)
                _I2B[r.get_id()] = A + B if op == 'add' else A - B if op == 'sub' else A * B; _keep.append(r)
            return r
        if op in ('add', 'sub', 'mul'): return s.arith64(st, op, a, b, ca, cb)
        return s.div64(st, op, a, b, ca, cb)
    def arith64(s, st, op, a, b, ca, cb):
        if op == 'add':
            if cb and b >= T63: return s.wrap(st, Sub(a, T64 - b))
            if ca and a >= T63: return s.wrap(st, Sub(b, T64 - a))
            return s.wrap(st, Add(a, b))
        if op == 'sub': return s.wrap(st, Sub(a, b))
        if op == 'mul':
            if cb and b >= T63: return s.wrap(st, Mul(a, b - T64))
            if ca and a >= T63: return s.wrap(st, Mul(b, a - T64))
            return s.wrap(st, Mul(a, b))
    def div64(s, st, op, a, b, ca, cb):
        if cb and b == 0:
            s.fail(st, 'undefined-behaviour: division by zero'); raise PathDead()
        if not cb: s.prove(st, b != 0, 'undefined-behaviour: division by zero')
        if ca and cb:
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = sgn(a, 64), sgn(b, 64)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0): q = -q
            return (q if op == 'sdiv' else x - q * y) & M64
        h = getattr(s, 'divhook', None)
        if h:
            r = h(s, st, op, a, b, 64)
            if r is not None: return r
        if op == 'udiv': return ii(a) / ii(b)
        if op == 'urem': return ii(a) % ii(b)
        x, y = ii(s.tosigned(st, a)), ii(s.tosigned(st, b))
        # C division truncates towards zero
        def ab(v): return z3.If(v < 0, -v, v)
        q = ab(x) / ab(y)
        q = z3.If((x < 0) == (y < 0), q, -q)
        if op == 'sdiv': return s.wrap(st, z3.simplify(q))
        return s.wrap(st, x - q * y)
    def icmp(s, st, pr, ty, a, b):
        if ty.k == 'vec': return [s.icmp(st, pr, ty.e, x, y) for x, y in zip(a, b)]
        if ty.k == 'ptr' or isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            if a is UNDEF or b is UNDEF:
                return s.fresh('undefcmp', 1)
            ra = a.r if isinstance(a, (Ptr, PInt)) else 0; oa = a.o if isinstance(a, (Ptr, PInt)) else a
            rb = b.r if isinstance(b, (Ptr, PInt)) else 0; ob = b.o if isinstance(b, (Ptr, PInt)) else b
            if ra == rb:
                if pr == 'eq': return Eq(oa, ob)
                if pr == 'ne': return Not(Eq(oa, ob))
                # same object: compare offsets (signed, objects < 2^63)
                # same object: offsets are mathematical integers
                return s.icmp_math(pr, oa, ob)
            if pr == 'eq' and (ty.k == 'ptr' or (isinstance(a, PInt) and isinstance(b, PInt)) or (isc(oa) and oa == 0 and ra == 0) or (isc(ob) and ob == 0 and rb == 0)): return False
            if pr == 'ne' and (ty.k == 'ptr' or (isinstance(a, PInt) and isinstance(b, PInt)) or (isc(oa) and oa == 0 and ra == 0) or (isc(ob) and ob == 0 and rb == 0)): return True
            if rb == 0 and isc(ob) and ob == 0:
                if pr == 'ugt': return True
                if pr in ('ult', 'ule'): return False
                if pr == 'uge': return True
            if ra == 0 and isc(oa) and oa == 0:
                if pr in ('ult', 'ule'): return True
                if pr in ('ugt', ): return False
            a = s.ptr2int(a); b = s.ptr2int(b)
            w = 64
        else: w = ty.n
        if a is UNDEF or b is UNDEF: return s.fresh('undefcmp', 1)
        if w == 1:
            if pr == 'eq': return Eq(a, b)
            if pr == 'ne': return Not(Eq(a, b))
            A = BV(int(a), 1) if type(a) is bool else z3.If(a, BV(1, 1), BV(0, 1))
            B = BV(int(b), 1) if type(b) is bool else z3.If(b, BV(1, 1), BV(0, 1))
        else:
            if w == 64 and not (isc(a) and isc(b)):
                if pr[0] == 's': a, b = s.tosigned(st, a), s.tosigned(st, b)
                return s.icmp_math(pr, a, b)
            if isc(a) and isc(b):
                a &= (1 << w) - 1; b &= (1 << w) - 1
                if pr == 'eq': return a == b
                if pr == 'ne': return a != b
                if pr[0] == 's': a, b = sgn(a, w), sgn(b, w)
                p = pr[1:]
                return a < b if p == 'lt' else a <= b if p == 'le' else a > b if p == 'gt' else a >= b
            A, B = bv(a, w), bv(b, w)
        if A.eq(B): return pr in ('eq', 'ule', 'uge', 'sle', 'sge')
        if pr == 'eq': return A == B
        if pr == 'ne': return A != B
        return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
                'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
                'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pr](A, B)
    def icmp_math(s, pr, a, b):
        if pr == 'eq': return Eq(a, b)
        if pr == 'ne': return Not(Eq(a, b))
        k = pr[1:]
        if isc(a) and isc(b):
            return a < b if k == 'lt' else a <= b if k == 'le' else a > b if k == 'gt' else a >= b
        A, B = ii(a), ii(b)
        if A.eq(B): return k in ('le', 'ge')
        return A < B if k == 'lt' else A <= B if k == 'le' else A > B if k == 'gt' else A >= B
    def fop(s, op, ty, args, rw=None, rbool=False):
        ws = [I2B(a, ty.n) if ty.n >= 64 else (a if not isc(a) else BV(int(a), ty.n)) for a in args]
        nm = 'fp_%s_%d_%s' % (op, ty.n, rw or '')
        f = z3.Function(nm, *([x.sort() for x in ws] + [z3.BoolSort() if rbool else z3.BitVecSort(rw or ty.n)]))
        r = f(*ws)
        return B2I(r) if not rbool and (rw or ty.n) == 64 else r
    def ite(s, st, c, a, b, w):
        if type(c) is bool: return a if c else b
        if isinstance(a, list): return [s.ite(st, c, x, y, None) for x, y in zip(a, b)]
        if a is UNDEF and b is UNDEF: return a
        if isinstance(a, (Ptr, PInt)) or isinstance(b, (Ptr, PInt)):
            if isinstance(a, (Ptr, PInt)) and isinstance(b, (Ptr, PInt)) and a.r == b.r and type(a) == type(b):
                return type(a)(a.r, If(c, a.o, b.o))
            raise NeedFork(c)
        if a is UNDEF or b is UNDEF: raise NeedFork(c)
        if isc(a) and isc(b) and w is None and type(a) is not bool:
            if a == b: return a
            raise NeedFork(c)
        return If(c, a, b, w or 64)

    # ---------------------------------------------------------- running
    def start(s):
        st = State()
        st.frames = []; st.mem = {0: Cells({}, 'undef')}; st.own = set(); st.pc = None
        st.exc = None; st.ghost = {}; st.seen = set(); st.trace = None; st.caught = []
        for f in s.basefacts: s.add(st, f)
        s.cur = st
        return st
    def push_frame(s, st, fn, args, ret=None):
        f = Frame()
        f.fn = fn; f.blk = fn.order[0]; f.i = 0; f.prev = None; f.regs = {}; f.act = (); f.ret = ret
        f.visits = {}; f.allocas = []; f.mstop = None; f.phiov = None
        c = 0
        for (t, nm), a in zip(fn.params, args):
            if nm is None: nm = str(c)
            if nm.isdigit(): c = int(nm) + 1
            f.regs[nm] = a
        st.frames.append(f)
        if len(st.frames) > 40: raise Unsupported('recursion depth')

    def run(s, st, done):
        """explore all paths; done(st, kind, value) at the end of the outermost frame"""
        work = [st]
        s.ended = []        # postconditions are decided after the exploration, which may still find a loop that needs an invariant
        while work:
            st = work.pop()
            try:
                new = s.path(st)
            except PathDead:
                continue
            if new: work.extend(reversed(new))
        for st, k, v in s.ended:
            s.cur = st
            try: done(st, k, v)
            except PathDead: pass

    def path(s, st):
        """run one state until it forks or ends; returns successor states"""
        s.cur = st
        while True:
            fr = st.frames[-1]
            blk = fr.fn.blocks[fr.blk]
            ins = blk[fr.i]
            s.stat['steps'] += 1
            try:
                r = s.step(st, fr, ins)
            except NeedFork as e:
                out = []
                for c in (e.c, z3.Not(e.c)):
                    if s.feasible(st, c):
                        n = st.fork(); s.add(n, c, 'b')
                        n.seen.add(('dec', e.c.get_id()));
                        n.ghost[('keep', e.c.get_id())] = e.c
                        s._decide(n, e.c, c is e.c)
                        out.append(n)
                return out
            except NeedEnum as e:
                # enumerate the feasible concrete values of an offset
                out = []
                block = []
                term = e.c
                while True:
                    rr = s.check(st.pc, z3.And(*block) if block else z3.BoolVal(True))
                    if rr != 'sat': break
                    v = s._model.eval(term, model_completion=True).as_long()
                    block.append(term != v)
                    n = st.fork(); s.add(n, term == IV(v), 'b')
                    n.ghost[('subst', term.get_id())] = v; n.ghost[('keep', term.get_id())] = term
                    s._substreg(n, term, v)
                    out.append(n)
                    if len(out) > 64: raise Unsupported('too many targets for a symbolic table access')
                return out
            if r is None: continue
            if r is DONE: return []
            return r
    def _decide(s, st, c, val):
        st.ghost[('dec', c.get_id())] = val
    def _substreg(s, st, term, v):
        for fr in st.frames:
            for k, x in fr.regs.items():
                if isinstance(x, (Ptr, PInt)) and not isc(x.o) and x.o.eq(term): fr.regs[k] = type(x)(x.r, v)
                elif not isinstance(x, (Ptr, PInt, list)) and not isc(x) and x is not UNDEF and z3.is_expr(x) and x.eq(term): fr.regs[k] = v
    def cond(s, st, c):
        if type(c) is bool: return c
        d = st.ghost.get(('dec', c.get_id()))
        return c if d is None else d

    def step(s, st, fr, ins):
        op = ins.op
        if op == 'bin':
            fr.regs[ins.d] = s.binop(st, ins.x, ins.ty, s.val(st, ins.a[0]), s.val(st, ins.a[1]))
        elif op == 'icmp':
            fr.regs[ins.d] = s.icmp(st, ins.x, ins.ty, s.val(st, ins.a[0]), s.val(st, ins.a[1]))
        elif op == 'br':
            c = s.cond(st, s.val(st, ins.a[0]))
            if type(c) is bool: return s.jump(st, fr, ins.a[1] if c else ins.a[2])
            t = s.check(st.pc, c) != 'unsat'
            f = True if not t else s.check(st.pc, z3.Not(c)) != 'unsat'
            if t and f:
                m = s.merge(st, fr)
                if m is not None: return m
                n = st.fork()
                s.add(st, c, 'b'); s.add(n, z3.Not(c), 'b')
                out = []
                arms = [(st, ins.a[1]), (n, ins.a[2])]
                if fr.fn.loops:     # stay in a loop first
                    d = [sum(b in body for body in fr.fn.loops.values()) for _, b in arms]
                    if d[1] > d[0]: arms.reverse()
                for x, b in arms:
                    try: r = s.jump(x, x.frames[-1], b)
                    except PathDead: continue
                    if r is None: out.append(x)
                    elif r is not DONE: out += r
                return out
            return s.jump(st, fr, ins.a[1] if t else ins.a[2])
        elif op == 'jmp': return s.jump(st, fr, ins.a[0])
        elif op == 'load':
            fr.regs[ins.d] = s.load(st, s.val(st, ins.a[0]), ins.ty)
        elif op == 'store':
            s.store(st, s.val(st, ins.a[1]), s.val(st, ins.a[0]), ins.ty)
        elif op == 'gep':
            p = s.val(st, ins.a[0][1])
            idx = [(t, s.val(st, v)) for t, v in ins.a[1:]]
            if p is UNDEF: raise Unsupported('gep on undef')
            fr.regs[ins.d] = s.gep(st, ins.ty, p, idx)
        elif op == 'cast':
            fr.regs[ins.d] = s.cast(st, ins, s.val(st, ins.a[0]))
        elif op == 'select':
            c = s.val(st, ins.a[0])
            if isinstance(c, list):
                a, b = s.val(st, ins.a[1]), s.val(st, ins.a[2])
                fr.regs[ins.d] = [s.ite(st, s.cond(st, ci), x, y, ins.x.e.n if ins.x.e.k == 'i' else None) for ci, x, y in zip(c, a, b)]
            else:
                c = s.cond(st, c)
                a, b = s.val(st, ins.a[1]), s.val(st, ins.a[2])
                fr.regs[ins.d] = s.ite(st, c, a, b, ins.x.n if ins.x.k in ('i', 'fp') else None)
        elif op == 'call': return s.call(st, fr, ins)
        elif op == 'ret':
            v = s.val(st, ins.a[0]) if ins.a else None
            return s.ret(st, v)
        elif op == 'switch':
            v = s.val(st, ins.a[0])
            if isc(v):
                for k, b in ins.x[1]:
                    if k == int(v): return s.jump(st, fr, b)
                return s.jump(st, fr, ins.x[0])
            w = ins.ty.n
            m = s.merge(st, fr)
            if m is not None: return m
            groups = {}
            for k, b in ins.x[1]: groups.setdefault(b, []).append(k)
            out = []
            neg = []
            targets = []
            for b, ks in groups.items():
                if b == ins.x[0]: continue
                c = Or(*[Eq(v, k) for k in ks]); targets.append((c, b)); neg.append(Not(c))
            targets.append((And(*neg) if neg else True, ins.x[0]))
            if fr.fn.loops: targets.sort(key=lambda t: -sum(t[1] in body for body in fr.fn.loops.values()))
            for c, b in targets:
                if s.feasible(st, c):
                    n = st.fork(); s.add(n, c, 'b')
                    try: r = s.jump(n, n.frames[-1], b)
                    except PathDead: continue
                    if r is None: out.append(n)
                    elif r is not DONE: out += r
            return out
        elif op == 'extractvalue':
            v = s.val(st, ins.a[0])
            for i in ins.x: v = v[i]
            fr.regs[ins.d] = v
        elif op == 'insertvalue':
            v = s.val(st, ins.a[0]); x = s.val(st, ins.a[1])
            def put(v, ix):
                v = list(v)
                if len(ix) == 1: v[ix[0]] = x
                else: v[ix[0]] = put(v[ix[0]], ix[1:])
                return v
            fr.regs[ins.d] = put(v, ins.x)
        elif op == 'alloca':
            n = s.val(st, ins.a[0])
            rid = s.region(st, size_of(ins.ty) * n, 'stack', 'local_%s' % ins.d, Cells({}, 'undef'))
            fr.allocas.append(rid)
            fr.regs[ins.d] = Ptr(rid, 0)
        elif op == 'freeze':
            v = s.val(st, ins.a[0]); fr.regs[ins.d] = v
        elif op == 'phi':
            raise Unsupported('phi outside block head')
        elif op == 'unreachable':
            s.fail(st, 'undefined-behaviour: unreachable code reached'); return DONE
        elif op == 'landingpad':
            fr.regs[ins.d] = s.landingpad(st, ins)
        elif op == 'resume':
            v = s.val(st, ins.a[0])
            return s.unwind(st)
        elif op == 'fcmp':
            a, b = s.val(st, ins.a[0]), s.val(st, ins.a[1])
            h = getattr(s, 'fcmphook', None)
            fr.regs[ins.d] = (h(s, st, ins, a, b) if h else s.fop('cmp_' + ins.x, ins.ty, [a, b], rbool=True))
        elif op == 'fneg':
            fr.regs[ins.d] = s.fop('neg', ins.ty, [s.val(st, ins.a[0])])
        elif op == 'extractelement':
            fr.regs[ins.d] = s.val(st, ins.a[0])[s.val(st, ins.a[1])]
        elif op == 'insertelement':
            v = list(s.val(st, ins.a[0])); v[s.val(st, ins.a[2])] = s.val(st, ins.a[1]); fr.regs[ins.d] = v
        elif op == 'shufflevector':
            a = list(s.val(st, ins.a[0])) + list(s.val(st, ins.a[1]))
            mk = ins.a[2]
            if mk[0] == 'Z': ix = [0] * ins.x.n
            elif mk[0] == 'U': ix = [0] * ins.x.n
            else: ix = [x[2] if x[0] == 'C' else 0 for _, x in mk[2]]
            fr.regs[ins.d] = [a[i] for i in ix]
        elif op == 'atomicrmw':
            p = s.val(st, ins.a[0]); v = s.val(st, ins.a[1])
            old = s.load(st, p, ins.ty)
            new = {'add': Add, 'sub': Sub}.get(ins.x)
            if ins.x == 'xchg': nv = v
            elif new: nv = new(old, v, ins.ty.n)
            else: raise Unsupported('atomicrmw ' + ins.x)
            s.store(st, p, nv, ins.ty); fr.regs[ins.d] = old
        else: raise Unsupported('instr ' + op)
        fr.i += 1
        return None

    def cast(s, st, ins, v):
        k, t = ins.x
        if t.k == 'vec':
            class _I: pass
            out = []
            for x in v:
                i = _I(); i.x = (k, t.e); i.ty = ins.ty.e
                out.append(s.cast(st, i, x))
            if ins.ty.k != 'vec': raise Unsupported('vector bitcast')
            return out
        if v is UNDEF:
            if ins.ty.k == 'i': return s.fresh('undef', ins.ty.n)
            return UNDEF
        if k == 'zext':
            if isinstance(v, PInt): v = s.ptr2int(v)
            return ZExt(v, t.n, ins.ty.n)
        if k == 'sext':
            W = ins.ty.n
            if t.n == 1: return ((1 << W) - 1 if v else 0) if type(v) is bool else If(v, (1 << W) - 1, 0, W)
            if isc(v): return sgn(v, t.n) & ((1 << W) - 1)
            if W == 64: return s.sext64(v, t.n)
            if t.n == 64: v = I2B(v)
            return z3.SignExt(W - t.n, v)
        if k == 'trunc':
            if isinstance(v, PInt): v = s.ptr2int(v)
            if ins.ty.n == 1:
                if isc(v): return bool(v & 1)
                if z3.is_int(v):
                    return z3.Extract(0, 0, I2B(v)) == 1 if has_bv(v) else v % 2 == 1
                return z3.Extract(0, 0, v) == 1
            return Trunc(v, t.n, ins.ty.n)
        if k == 'ptrtoint': return s.cast_p2i(v, ins.ty.n)
        if k == 'inttoptr': return s.int2ptr(v)
        if k == 'bitcast':
            return v
        if k in ('fptrunc', 'fpext'):
            return s.fop(k + str(ins.ty.n), t, [v], rw=ins.ty.n)
        if k in ('fptoui', 'fptosi'): return s.fop(k + str(ins.ty.n), t, [v], rw=ins.ty.n)
        if k in ('uitofp', 'sitofp'):
            h = getattr(s, 'itofphook', None)
            return s.fop(k, t, [v], rw=ins.ty.n)
        raise Unsupported('cast ' + k)

    # ---------------------------------------------------------- control
    def merge(s, st, fr):
        """fr is at a branch whose arms rejoin at J after memory-neutral straight-line code: explore the arms, then go on
        from J with one state whose phi values are conditional expressions.  -> successor states, or None (no such J)"""
        if fr.mstop is not None or not s.merging: return None
        for f in st.frames:     # not while a loop is being unrolled
            for h, body in f.fn.loops.items():
                if f.blk in body and (f.fn.name, h) not in s.cut: return None
        J = s.m.join_of(fr.fn, fr.blk)
        if J is None: return None
        if any(a.header == J and a.mode == 'commit' for a in fr.act): return None   # termination: one edge at a time
        base = st.fork()
        got = []
        sub = st.fork(); sub.frames[-1].mstop = (J, got, len(st.frames))
        s.explore_sub(sub)
        s.cur = base
        if not got: return []
        bpc = base.pc; bn = bpc.n if bpc else 0
        ent = []
        for x, prev, vals in got:
            l = []; n = x.pc
            while n is not bpc: l.append(n); n = n.p
            l.reverse(); ent.append((x, prev, vals, l))
        def single(x, prev, vals):
            f = x.frames[-1]; f.mstop = None; f.phiov = vals; f.blk = prev
            try: r = s.jump(x, f, J)
            except PathDead: return []
            return [x] if r is None else [] if r is DONE else r
        if len(ent) == 1: return single(*ent[0][:3])
        phins = [i for i in fr.fn.blocks[J] if i.op == 'phi']
        # entries whose values can be joined form a group
        groups = []
        def kind(v):
            if isinstance(v, (Ptr, PInt)): return (type(v), v.r)
            if v is UNDEF: return 'undef'
            if isinstance(v, list): return id(v)
            return 'n'
        for e in ent:
            k = tuple(kind(e[2][i.d]) for i in phins)
            for g in groups:
                if g[0] == k: g[1].append(e); break
            else: groups.append((k, [e]))
        out = []
        for k, es in groups:
            if len(es) == 1 or any(isinstance(x, type) for x in k) or 'undef' in k and len(phins) > 40:
                for e in es: out += single(*e[:3])
                continue
            m = base.fork()
            bs = []
            for x, prev, vals, l in es:
                b = [n.f for n in l if n.k == 'b']; f = [n.f for n in l if n.k == 'f']
                for n in l:
                    if n.k == 'u': s.add(m, n.f, 'u')
                bc = z3.And(*b) if len(b) != 1 else b[0]
                bs.append((bc, f))
                for q in x.seen:
                    if q[0] in ('u', 'm'): m.seen.add(q)
                for q, v in x.ghost.items():
                    if q[0] == 'keep': m.ghost[q] = v
            s.add(m, z3.Or(*[b for b, _ in bs]), 'b')
            for b, f in bs:
                if f: s.add(m, z3.Implies(b, z3.And(*f)))
            vals = {}
            ok = True
            for i in phins:
                w = i.ty.n if i.ty.k in ('i', 'fp') else 64
                vs = []
                for (bc, _), e in zip(bs, es):
                    v = e[2][i.d]
                    for q in vs:
                        if samev(q[0], v): q[1].append(bc); break
                    else: vs.append((v, [bc]))
                v = vs[-1][0]
                try:
                    for u, cs in reversed(vs[:-1]): v = s.ite(m, z3.Or(*cs) if len(cs) > 1 else cs[0], u, v, w)
                except NeedFork: ok = False; break
                if len(vs) > 1: v = s.named(m, v, i.d)
                vals[i.d] = v
            if not ok:
                for e in es: out += single(*e[:3])
                continue
            s.stat['merged'] = s.stat.get('merged', 0) + len(es) - 1
            f = m.frames[-1]; f.phiov = vals; f.blk = es[0][1]
            s.cur = m
            try: r = s.jump(m, f, J)
            except PathDead: continue
            if r is None: out.append(m)
            elif r is not DONE: out += r
        return out
    def named(s, st, v, nm):
        """a fresh constant equal to the (large) term v"""
        if isinstance(v, (Ptr, PInt)): return type(v)(v.r, s.named(st, v.o, nm))
        if not z3.is_expr(v) or z3.is_const(v): return v
        s.cnt += 1
        x = z3.Const('J_%s!%d' % (nm, s.cnt), v.sort())
        if z3.is_int(v): s.add(st, z3.And(x >= 0, x < IV(T64)))
        s.add(st, x == v)
        return x
    def jump(s, st, fr, target):
        prev = fr.blk
        if fr.mstop is not None and target == fr.mstop[0] and len(st.frames) == fr.mstop[2]:
            s.phis(st, fr, prev, target, bind=False)
            fr.mstop[1].append((st, prev, dict(s._phivals)))
            return DONE
        # leave / close active loops
        while fr.act:
            a = fr.act[-1]
            if target == a.header and prev in a.blocks:
                s.phis(st, fr, prev, target, bind=False)
                vals = s._phivals
                a.back(st, vals)
                return DONE
            if target in a.blocks: break
            if a.mode == 'houdini': return DONE
            fr.act = fr.act[:-1]
        lp = fr.fn.loops.get(target)
        if lp is not None:
            inside = prev in lp
            key = (fr.fn.name, target)
            if key in s.cut:
                if not inside or True:
                    return s.cutloop(st, fr, prev, target, lp, key)
            else:
                if not inside:
                    fr.visits[target] = 0; fr.visits['b', target] = (st.pc, 0)
                    # nested loop counters restart
                else:
                    # iterations that no symbolic branch took part in (a loop over constants) do not count
                    pc0, free = fr.visits.get(('b', target), (None, 0)); q = st.pc
                    while q is not None and q is not pc0 and q.k != 'b': q = q.p
                    if not (q is pc0 and pc0 is not None and free < 80): fr.visits[target] = fr.visits.get(target, 0) + 1
                    fr.visits['b', target] = (st.pc, free + 1)
                    lim = s.unroll_of.get(key, s.unroll)
                    if fr.visits[target] > lim:
                        raise NeedCut(key)
        s.phis(st, fr, prev, target)
        fr.blk = target; fr.prev = prev
        return None

    def phis(s, st, fr, prev, target, bind=True):
        blk = fr.fn.blocks[target]
        vals = {}
        i = 0
        while i < len(blk) and blk[i].op == 'phi':
            ins = blk[i]
            vals[ins.d] = s.val(st, ins.x[prev]) if fr.phiov is None else fr.phiov[ins.d]; i += 1
        fr.phiov = None
        if bind: fr.regs.update(vals)
        s._phivals = vals
        fr.i = i if bind else fr.i

    def ret(s, st, v):
        fr = st.frames[-1]
        if any(a.mode == 'houdini' for a in fr.act): return DONE
        st.frames.pop()
        for rid in fr.allocas: st.ghost[('freed', rid)] = True
        if not st.frames or fr.ret is None:
            s.stat['paths'] += 1
            if not s.quiet: s.ended.append((st, 'ret', v))
            return DONE
        d, tg = fr.ret
        c = st.frames[-1]
        if d is not None: c.regs[d] = v
        if tg: return s.jump(st, c, tg[0])
        c.i += 1
        return None
    def unwind(s, st):
        """an exception st.exc is propagating out of the current top frame"""
        while True:
            fr = st.frames[-1]
            if any(a.mode == 'houdini' for a in fr.act): return DONE
            st.frames.pop()
            for rid in fr.allocas: st.ghost[('freed', rid)] = True
            if not st.frames or fr.ret is None:
                s.stat['paths'] += 1
                if not s.quiet: s.ended.append((st, 'throw', st.exc))
                return DONE
            d, tg = fr.ret
            if tg: return s.jump(st, st.frames[-1], tg[1])
    def throw_here(s, st, ins, exc):
        """exception raised by the call instruction `ins` in the current top frame"""
        st.exc = exc
        if ins.x: return s.jump(st, st.frames[-1], ins.x[1])
        return s.unwind(st)

    def tid(s, name):
        if name is None: return 1
        return s.tids.setdefault(name, len(s.tids) + 2)
    def ti_bases(s, name):
        out = [name]
        g = s.m.globals.get(name)
        if g is not None and g.init is not None and g.init[0] == 'A' and len(g.init[2]) >= 3:
            for t, v in g.init[2][2:]:
                if v[0] == 'G': out += s.ti_bases(v[1])
        std = {'_ZTISt12out_of_range': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt12length_error': ['_ZTISt11logic_error', '_ZTISt9exception'],
               '_ZTISt16invalid_argument': ['_ZTISt11logic_error', '_ZTISt9exception'], '_ZTISt11logic_error': ['_ZTISt9exception'],
               '_ZTISt13runtime_error': ['_ZTISt9exception'], '_ZTISt18bad_variant_access': ['_ZTISt9exception']}
        out += std.get(name, [])
        return out
    def landingpad(s, st, ins):
        cleanup, cl = ins.x
        ti, p = st.exc
        bases = s.ti_bases(ti)
        for k, v in cl:
            if k == 'catch':
                if v[0] == 'N': return [p, 1]
                if v[1] in bases: return [p, s.tid(v[1])]
            else: 
                return [p, (-1) & 0xffffffff]
        return [p, 0]

    # ---------------------------------------------------------- calls
    def call(s, st, fr, ins):
        callee, args = ins.a
        if callee[0] == 'G': name = callee[1]
        else:
            p = s.val(st, callee)
            if not isinstance(p, Ptr) or s.regions[p.r].kind != 'fn': raise Unsupported('indirect call through %r' % (p,))
            name = s.regions[p.r].fn
        while name in s.m.aliases: name = s.m.aliases[name][1]
        av = None
        if name.startswith('llvm.'):
            return s.intrinsic(st, fr, ins, name, args)
        for rx, h in s.contracts:
            if rx.match(name):
                av = [s.val(st, a) for _, a in args]
                nm = getattr(h, 'label', None) or h.__name__
                (s.trusted_used if getattr(h, 'trusted', True) else s.contract_used)[nm] = True
                r = h(s, st, av, ins)
                return s.after(st, fr, ins, r)
        h = BUILTIN.get(name)
        if h:
            av = [s.val(st, a) for _, a in args]
            r = h(s, st, av, ins)
            return s.after(st, fr, ins, r)
        f = s.m.func(name)
        if f is None or not f.defined:
            raise Unsupported('call of external function without contract: ' + name)
        av = [s.val(st, a) for _, a in args]
        s.push_frame(st, f, av, (ins.d, ins.x))
        return None
    def after(s, st, fr, ins, r):
        if isinstance(r, Outcomes):
            out = []
            for x, kind, v in r.l:
                if kind == 'dead': continue
                try:
                    if kind == 'throw': rr = s.throw_here(x, ins, v)
                    else: rr = s.after1(x, x.frames[-1], ins, v)
                except PathDead: continue
                if rr is None: out.append(x)
                elif rr is not DONE: out += rr
            return out
        if isinstance(r, Throw): return s.throw_here(st, ins, r.exc)
        return s.after1(st, st.frames[-1], ins, r)
    def after1(s, st, fr, ins, v):
        if ins.d is not None: fr.regs[ins.d] = v
        if ins.x: return s.jump(st, fr, ins.x[0])
        fr.i += 1
        return None

    def intrinsic(s, st, fr, ins, name, args):
        d = ins.d
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.assume', 'llvm.invariant', 'llvm.donothing', 'llvm.stacksave', 'llvm.stackrestore', 'llvm.prefetch')):
            if name == 'llvm.assume':
                pass
            if d: fr.regs[d] = NULL
            fr.i += 1; return None
        if name in ('llvm.ubsantrap', 'llvm.trap', 'llvm.debugtrap'):
            k = s.val(st, args[0][1]) if args else -1
            s.fail(st, 'undefined-behaviour: %s' % UBK.get(k, 'trap %s' % k)); return DONE
        av = [s.val(st, a) for _, a in args]
        r = None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            s.memcpy(st, av[0], av[1], av[2])
        elif name.startswith('llvm.memset'):
            s.memset(st, av[0], av[1], av[2])
        elif name.startswith('llvm.expect'): r = av[0]
        elif name.startswith('llvm.eh.typeid.for'):
            nm = [k for k, v in s.globs.items() if v == av[0].r][0]
            r = s.tid(nm)
        elif name.startswith('llvm.objectsize'): r = M64
        elif name.startswith('llvm.is.constant'): r = False
        elif '.with.overflow.' in name:
            k = name.split('.')[1]; w = int(name.rsplit('.i', 1)[1])
            a, b = av
            if isinstance(a, PInt) or isinstance(b, PInt):
                if isinstance(a, PInt) and isinstance(b, PInt) and a.r == b.r and k.endswith('sub'):
                    a, b = a.o, b.o
                else: a, b = s.ptr2int(a), s.ptr2int(b)
            sg = k[0] == 's'; op = k[1:]
            val = s.binop(st, op, ir.INT(w), a, b)
            if isc(a) and isc(b):
                x, y = (sgn(a, w), sgn(b, w)) if sg else (a, b)
                t = x + y if op == 'add' else x - y if op == 'sub' else x * y
                lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
                ov = not (lo <= t <= hi)
            elif w == 64:
                if sg: x, y = ii(s.tosigned(st, a)), ii(s.tosigned(st, b))
                else: x, y = ii(a), ii(b)
                t_ = x + y if op == 'add' else x - y if op == 'sub' else x * y
                lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if sg else (0, (1 << w) - 1)
                ov = z3.Or(t_ < IV(lo), t_ > IV(hi))
            else:
                A, B = bv(a, w), bv(b, w)
                if op == 'add':
                    ov = z3.Not(z3.And(z3.BVAddNoOverflow(A, B, sg), z3.BVAddNoUnderflow(A, B))) if sg else z3.ULT(A + B, A)
                elif op == 'sub':
                    ov = z3.Not(z3.And(z3.BVSubNoOverflow(A, B), z3.BVSubNoUnderflow(A, B, True))) if sg else z3.ULT(A, B)
                else:
                    ov = z3.Not(z3.And(z3.BVMulNoOverflow(A, B, sg), z3.BVMulNoUnderflow(A, B))) if sg else z3.Not(z3.BVMulNoOverflow(A, B, False))
            r = [val, ov]
        elif re.match(r'llvm\.(u|s)(min|max)\.i', name):
            w = int(name.rsplit('.i', 1)[1]); k = name.split('.')[1]
            a, b = av
            c = s.icmp(st, {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k], ir.INT(w), a, b)
            r = s.ite(st, c, a, b, w)
        elif name.startswith('llvm.abs.'):
            w = int(name.rsplit('.i', 1)[1]); a = av[0]
            if isc(a): r = abs(sgn(a, w)) & ((1 << w) - 1)
            elif w == 64:
                x = ii(s.tosigned(st, a)); r = s.wrap(st, z3.If(x < 0, -x, x))
            else: r = z3.If(a < 0, -a, a)
        elif name.startswith(('llvm.uadd.sat', 'llvm.usub.sat')):
            w = int(name.rsplit('.i', 1)[1]); a, b = av
            if 'usub' in name: r = If(s.icmp(st, 'ult', ir.INT(w), a, b), 0, Sub(a, b, w), w)
            elif w == 64: r = If(Add(a, b) >= IV(T64), M64, Add(a, b))
            else: r = If(ULT(Add(a, b, w), a, w), (1 << w) - 1, Add(a, b, w), w)
        elif name.startswith('llvm.fshl') or name.startswith('llvm.fshr'):
            w = int(name.rsplit('.i', 1)[1]); a, b, c = av
            if not isc(c): raise Unsupported(name)
            c %= w
            cc = z3.Concat(I2B(a), I2B(b)) if w == 64 else z3.Concat(bv(a, w), bv(b, w))
            sh = (w - c) if 'fshl' in name else c
            r = z3.simplify(z3.Extract(sh + w - 1, sh, cc)); r = lit(r)
            if w == 64 and not isc(r): r = B2I(r)
        elif name.startswith('llvm.ctlz') or name.startswith('llvm.cttz') or name.startswith('llvm.ctpop'):
            w = int(name.rsplit('.i', 1)[1]); a = av[0]
            if isc(a):
                if 'ctlz' in name: r = w - a.bit_length()
                elif 'cttz' in name: r = (a & -a).bit_length() - 1 if a else w
                else: r = bin(a).count('1')
            elif w == 64 and (a := I2B(a)) is None: pass
            elif 'ctlz' in name:
                r = BV(w, w)
                for i in range(w): r = z3.If(z3.Extract(i, i, a) == 1, BV(w - 1 - i, w), r)
            elif 'cttz' in name:
                r = BV(w, w)
                for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, a) == 1, BV(i, w), r)
            else:
                r = sum([z3.ZeroExt(w - 1, z3.Extract(i, i, a)) for i in range(w)], BV(0, w))
            if w == 64 and not isc(r): r = B2I(r)
        elif name.startswith('llvm.bswap'):
            w = int(name.rsplit('.i', 1)[1]); a = I2B(av[0], w) if w == 64 else bv(av[0], w)
            r = z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a) for i in range(w // 8)])
            if w == 64: r = B2I(r)
        elif name.startswith('llvm.fabs'):
            w = ins.ty.n
            r = s.fop('fabs', ins.ty, [av[0]])
        elif name.startswith('llvm.is.fpclass'):
            r = s.fop('isfpclass%d' % av[1], args[0][0], [av[0]], rbool=True)
        elif name.startswith('llvm.copysign'):
            r = s.fop('copysign', ins.ty, av)
        elif name.startswith('llvm.load.relative'): raise Unsupported(name)
        else: raise Unsupported('intrinsic ' + name)
        if d is not None: fr.regs[d] = r
        if ins.x: return s.jump(st, fr, ins.x[0])
        fr.i += 1
        return None

    # ---------------------------------------------------------- loops cut by invariants
    def cutloop(s, st, fr, prev, header, blocks, key):
        """st is about to enter the loop: prove the invariant's initiation, havoc,
        find the inductive subset of the candidates, go on from the header."""
        depth = len(st.frames)
        s.phis(st, fr, prev, header, bind=True)
        fr.blk = header; fr.prev = prev
        entry_vals = dict(s._phivals)
        phins = [i for i in fr.fn.blocks[header] if i.op == 'phi']
        pty = {i.d: i.ty for i in phins}
        base_mem = dict(st.mem); base_ghost = dict(st.ghost)
        st.own = set()
        variants = s.kinds_of(key, entry_vals)
        cache_key = (key, tuple((f.fn.name, f.blk) for f in st.frames[:-1]))
        if s.ghost_default:      # what the pointers of the objects under contract designate decides which candidates make sense
            cache_key += (tuple(v.r for v in entry_vals.values() if isinstance(v, Ptr)), tuple((k, v[1].r) for rid, c in sorted(st.mem.items()) if s.regions[rid].kind == 'param' and isinstance(c, Cells) for k, v in sorted(c.d.items()) if isinstance(v[1], Ptr)))
        surv = s.inv.get(cache_key)
        rounds = 0; labels0 = None
        while True:
            rounds += 1
            if rounds > 60: raise Unsupported('invariant inference does not converge')
            mods = s.modset.setdefault(key, set())
            # --- havoc
            h = st.fork()
            hf = h.frames[-1]
            hv = {}
            for nm, v in entry_vals.items():
                hv[nm] = s.havoc_val(h, v, 'L_' + nm, pty[nm], key, nm)
                hf.regs[nm] = hv[nm]
            cells = {}; gh = {}
            for mk in sorted(mods, key=str):
                if mk[0] == 'cell':
                    _, rid, off, sz = mk
                    if rid not in h.mem: continue
                    if h.ghost.get(('freed', rid)): continue
                    c = s.content_w(h, rid)
                    if isinstance(c, Arr): continue
                    old = c.d.get(off)
                    oldv = old[1] if old and old[0] == sz else None
                    s.kill(h, rid, c, off, sz)
                    nv = s.havoc_cell(h, oldv, 'M_%s_%d' % (s.regions[rid].name, off), sz, key, mk)
                    c.d[off] = (sz, nv)
                    cells[mk] = (oldv, nv)
                elif mk[0] == 'arr':
                    rid = mk[1]
                    if rid not in h.mem: continue
                    c = h.mem[rid]
                    if isinstance(c, Cells):
                        if c.fill == 'lazy' or True:
                            try: s.to_arr(h, rid, mk[2])
                            except Unsupported:
                                h.mem[rid] = Cells({}, 'lazy'); continue
                            c = h.mem[rid]
                    s.cnt += 1
                    f = z3.Function('hav_%s!%d' % (s.regions[rid].name, s.cnt), z3.IntSort(), WSORT(c.esz))
                    h.mem[rid] = ABase(c.esz, f)
                elif mk[0] == 'ghost':
                    g = h.ghost.get(mk[1])
                    if g is None and s.ghost_default and mk[1][1] in h.mem:
                        g = s.ghost_default(mk[1]); st.ghost[mk[1]] = base_ghost[mk[1]] = g
                    if g is None: continue
                    h.ghost[mk[1]] = s.havoc_ghost(h, mk[1], g)
                    if z3.is_expr(h.ghost[mk[1]]): gh[mk[1]] = (g, h.ghost[mk[1]])
            # --- candidates
            ctx = LoopCtx(s, key, fr.fn, header, entry_vals, hv, cells, pty, base_ghost, h, st, gh)
            cands = s.candidates(ctx)
            if surv is not None: cands = [c for c in cands if c.label in surv]
            else:
                hint = s.hints.get(cache_key)
                if hint: cands = [c for c in cands if c.label not in hint]; s.hinted = True
                if labels0 is None: labels0 = {c.label for c in cands} | (hint or set())
            # initiation
            alive = []
            est = st.fork()
            ee = ctx.env_entry(est)
            ini = []
            for c in cands:
                f = c.eval(ee)
                if f is None: continue
                if type(f) is bool:
                    if f: alive.append(c)
                    continue
                ini.append((c, f))
            pend = ini
            while pend:
                r = s.check(est.pc, z3.Not(z3.And(*[f for _, f in pend])))
                if r == 'unsat': break
                if r == 'sat' and s._model is not None:
                    m = s._model
                    keep = [(c, f) for c, f in pend if not z3.is_false(m.eval(f, model_completion=True))]
                    if len(keep) < len(pend): pend = keep; continue
                # cannot discriminate: check one by one
                pend = [(c, f) for c, f in pend if s.check(est.pc, z3.Not(f)) == 'unsat']
                break
            alive += [c for c, _ in pend]
            # --- consecution (Houdini)
            eh = ctx.env_head(h)
            hf_ = []
            al2 = []
            for c in alive:
                f = c.eval(eh)
                if f is None: continue
                al2.append(c); hf_.append(f)
            alive = al2
            for f in hf_: s.add(h, f)
            dropped = set(); newmods = set(); changed = []
            def back(bst, vals, _alive=alive):
                # modified memory?
                nm = s.diffmods(base_mem, bst, base_ghost, key, mods)
                for x in nm - mods: newmods.add(x)
                if newmods: return
                for n_, v in vals.items():
                    if s.note_kind(key, n_, entry_vals[n_], v): changed.append(n_)
                if changed: return
                eb = ctx.env_back(bst, vals)
                todo = []
                for c in _alive:
                    if c.label in dropped: continue
                    f = c.eval(eb)
                    if f is None: dropped.add(c.label); continue
                    if type(f) is bool:
                        if not f: dropped.add(c.label)
                        continue
                    todo.append((c, f))
                while todo:
                    r = s.check(bst.pc, z3.Not(z3.And(*[f for _, f in todo])), quick=1000 if len(todo) > 1 else 0)
                    if r == 'unsat': break
                    if r == 'sat' and s._model is not None:
                        m = s._model
                        keep = []
                        for c, f in todo:
                            if z3.is_false(m.eval(f, model_completion=True)):
                                dropped.add(c.label)
                                if DEBUG_DROP and DEBUG_DROP in c.label: print('DROP', c.label, '\n   ', '\n    '.join(s.model_str(True) or []), flush=True)
                            else: keep.append((c, f))
                        if len(keep) < len(todo): todo = keep; continue
                    # one by one, each proved candidate helps the next ones; hard ones last
                    hard = []
                    for c, f in todo:
                        r = s.check(bst.pc, z3.Not(f), quick=1000)
                        if r == 'unsat': s.add(bst, f)
                        elif r == 'sat': dropped.add(c.label)
                        else: hard.append((c, f))
                    for c, f in hard:
                        if s.check(bst.pc, z3.Not(f)) == 'unsat': s.add(bst, f)
                        else: dropped.add(c.label)
                    break
            act = LoopAct(); act.header = header; act.blocks = blocks; act.key = key
            act.mode = 'houdini'; act.back = back
            hh = h.fork()
            hh.frames[-1].act = hh.frames[-1].act + (act,)
            s.quiet += 1
            try: s.explore_sub(hh)
            finally: s.quiet -= 1
            if newmods:
                s.modset[key] = mods | newmods; surv = None; continue
            if changed: continue
            if dropped:
                surv = {c.label for c in alive} - dropped
                continue
            break
        s.inv[cache_key] = {c.label for c in alive}
        if labels0 is not None: s.dead[cache_key] = labels0 - s.inv[cache_key]
        s.inv_report['%s:%s' % key] = [c.label for c in alive][:60]
        if not s.quiet:
            s.obl['loop-invariant initiation+consecution'] = s.obl.get('loop-invariant initiation+consecution', 0) + 2 * len(alive)
        # commit: continue from the header state
        act = LoopAct(); act.header = header; act.blocks = blocks; act.key = key
        act.mode = 'commit'
        def back2(bst, vals, _alive=alive):
            if s.quiet: return
            nm = s.diffmods(base_mem, bst, base_ghost, key, s.modset[key])
            if nm - s.modset[key]: s.fail(bst, 'loop frame condition'); return
            for bh in s.path_hooks: bh(s, bst, key, ctx, vals)
            s.measures(bst, key, ctx, vals)
        act.back = back2
        h.frames[-1].act = h.frames[-1].act + (act,)
        return [h]

    def measures(s, bst, key, ctx, vals):
        """record which loop variables strictly/weakly increase or decrease along this back edge"""
        eh, eb = ctx.env_head(bst).vals, ctx.env_back(bst, vals).vals
        edge = {}; nums = []
        for n in ctx.vars:
            a, b = eh.get(n), eb.get(n)
            if isinstance(a, (Ptr, PInt)):
                if not isinstance(b, (Ptr, PInt)) or a.r != b.r: continue
                a, b = a.o, b.o
            if a is None or b is None or a is UNDEF or b is UNDEF or isinstance(a, list) or isinstance(b, (list, Ptr, PInt)): continue
            if type(a) is bool or (not isc(a) and z3.is_bool(a)):
                a, b = If(bl(a), 1, 0), If(bl(b), 1, 0)
            if not isc(a) and not isc(b) and a.sort() != b.sort(): continue
            for d, x, y in (('+', a, b), ('-', b, a)):
                if s.must(bst, ULT(x, y)): edge[n + d] = 2
                elif s.must(bst, ULE(x, y)): edge[n + d] = 1
            if not isc(a) and z3.is_int(a) and (isc(b) or z3.is_int(b)): nums.append((n, a, ii(b)))
        if 2 not in edge.values():      # no single variable: the distance of two of them
            for i, (n, a, b) in enumerate(nums):
                for m, c, d in nums[:i]:
                    for sg, x, y in (('+', a - c, b - d), ('-', b - d, a - c)):
                        if s.must(bst, x < y): edge['%s-%s%s' % (n, m, sg)] = 2
        s.term.setdefault(id(ctx), (key, ctx, []))[2].append((edge, s.where(bst)))
    def termination(s):
        """obligation per loop: a lexicographic measure decreases on every back edge"""
        for key, ctx, edges in s.term.values():
            todo = edges
            while todo:
                ms = {m for e, _ in todo for m in e}
                best = None
                for m in sorted(ms):
                    if all(e.get(m, 0) >= 1 for e, _ in todo) and any(e[m] == 2 for e, _ in todo): best = m; break
                if best is None:
                    s.failures.append(Failure('loop terminates: a measure decreases on every iteration', 'loop %s:%s' % key, None, todo[0][1])); return
                todo = [(e, w) for e, w in todo if e[best] != 2]
            s.obl['loop terminates'] = s.obl.get('loop terminates', 0) + len(edges)
    def explore_sub(s, st):
        work = [st]
        while work:
            x = work.pop()
            try: new = s.path(x)
            except PathDead: continue
            if new: work.extend(reversed(new))

    def kinds_of(s, key, ev): return None
    def note_kind(s, key, name, ev, v):
        """pointer phi changing region: record; returns True if new"""
        def kind(x):
            if isinstance(x, (Ptr, PInt)): return (type(x).__name__, x.r)
            if x is UNDEF: return 'undef'
            return 'int'
        ke, kv = kind(ev), kind(v)
        if isinstance(ev, list): return False
        if ke == kv: return False
        d = s.modset.setdefault(('kinds', key), {})
        if d.get(name) == 'undef': return False
        if ke == 'undef': 
            return False
        # integer phi mixing pointer-derived ints: havoc as plain integer
        if isinstance(ev, PInt) or isinstance(v, PInt): d[name] = 'int'
        else: d[name] = 'undef'
        return True
    def havoc_val(s, st, v, nm, ty, key, name):
        k = s.modset.get(('kinds', key), {}).get(name)
        if k == 'undef': return UNDEF
        if k == 'int': return s.fresh(nm, ty.n, st)
        if isinstance(v, Ptr): return Ptr(v.r, s.freshoff(nm, st))
        if isinstance(v, PInt): return PInt(v.r, s.freshoff(nm, st))
        if v is UNDEF: return UNDEF
        if isinstance(v, list): return [s.havoc_val(st, x, nm, None, key, name) if not isc(x) and not z3.is_expr(x) else s._hv_scalar(x, nm) for x in v]
        if ty is not None and ty.k in ('i', 'fp'): return s.fresh(nm, ty.n, st)
        return s._hv_scalar(v, nm)
    def freshoff(s, nm, st):
        s.cnt += 1
        v = z3.Int('%s!%d' % (nm, s.cnt))
        return v
    def _hv_scalar(s, v, nm):
        if type(v) is bool or z3.is_bool(v): return s.fresh(nm, 1)
        if isc(v): raise Unsupported('havoc of untyped constant')
        return s.fresh(nm, 64 if z3.is_int(v) else v.size())
    def havoc_cell(s, st, oldv, nm, sz, key, mk):
        k = s.modset.get(('kinds', key), {}).get(mk)
        if k == 'undef': return UNDEF
        if isinstance(oldv, Ptr): return Ptr(oldv.r, s.freshoff(nm, st))
        if isinstance(oldv, PInt): return PInt(oldv.r, s.freshoff(nm, st))
        if k == 'ptr': return UNDEF
        return s.fresh(nm, sz * 8, st)
    def havoc_ghost(s, st, k, g):
        if hasattr(g, 'havoc'): return g.havoc(s, st)
        if isc(g) or z3.is_int(g): return s.fresh('G_%s' % (k if isinstance(k, str) else k[0]), 64, st)
        if z3.is_expr(g): return s.fresh('G_%s' % (k if isinstance(k, str) else k[0]), g.size(), st)
        raise Unsupported('havoc of ghost %r' % (k,))
    def diffmods(s, base, st, bghost, key, mods):
        out = set()
        for rid, c0 in base.items():
            c1 = st.mem.get(rid)
            if c1 is c0: continue
            if bghost.get(('freed', rid)): continue
            r = s.regions[rid]
            if isinstance(c0, Arr) or isinstance(c1, Arr):
                esz = c1.esz if isinstance(c1, Arr) else c0.esz
                if isinstance(c0, Cells) or True: out.add(('arr', rid, esz))
                continue
            if c0.d is c1.d: continue
            for off, e in c1.d.items():
                e0 = c0.d.get(off)
                if e0 is e: continue
                if e0 is not None and e0[0] == e[0] and samev(e0[1], e[1]): continue
                if e0 is None and c0.fill == 'lazy' and not isinstance(e[1], (Ptr, PInt)) and e[1] is not UNDEF and z3.is_expr(e[1]) and z3.is_const(e[1]) and str(e[1]).startswith('m_'):
                    # lazily materialised initial contents: pull them into the base
                    c0.d[off] = e; continue
                if e0 is None and c0.fill == 'lazy' and e[1] is UNDEF: continue
                mk = ('cell', rid, off, e[0])
                out.add(mk)
                # pointer kinds
                v0 = e0[1] if e0 is not None and e0[0] == e[0] else None
                d = s.modset.setdefault(('kinds', key), {})
                if mk in mods and d.get(mk) != 'undef':
                    v = e[1]
                    if isinstance(v, (Ptr, PInt)) or isinstance(v0, (Ptr, PInt)) or v is UNDEF:
                        if not (type(v) is type(v0) and isinstance(v, (Ptr, PInt)) and v.r == v0.r):
                            if v0 is None and isinstance(v, (Ptr, PInt)):
                                nk = 'undef'
                            else: nk = 'undef'
                            d[mk] = nk; out.add(('rekind', mk, nk))
                elif mk not in mods and (isinstance(e[1], (Ptr, PInt)) or e[1] is UNDEF):
                    v = e[1]
                    if not (v0 is not None and type(v) is type(v0) and isinstance(v, (Ptr, PInt)) and v.r == v0.r):
                        d[mk] = 'undef'
            for off, e in c0.d.items():
                if off not in c1.d: out.add(('cell', rid, off, e[0]))
        for k in st.ghost:
            if isinstance(k, tuple) and k[0] in ('dec', 'keep', 'subst', 'freed'): continue
            if k in bghost:
                if not sameg(bghost[k], st.ghost[k]): out.add(('ghost', k))
            elif s.ghost_default and isinstance(k, tuple) and len(k) == 2 and k[1] in base and s.ghost_default(k) is not None: out.add(('ghost', k))
        return out
    def candidates(s, ctx):
        out = []
        if s.templates:
            out = list(s.templates(ctx))
        seen = set(); r = []
        for c in out:
            if c.label in seen: continue
            seen.add(c.label); r.append(c)
        return r

def samev(a, b):
    if a is b: return True
    if type(a) is not type(b): return False
    if isinstance(a, (Ptr, PInt)): return a.r == b.r and samev(a.o, b.o)
    if isc(a): return a == b
    if z3.is_expr(a): return a.eq(b)
    return False
def sameg(a, b):
    if a is b: return True
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(sameg(x, y) for x, y in zip(a, b))
    try: return samev(a, b)
    except Exception: return False

def e_over(c, o, n):
    d = c.d
    for k in range(o - 15, o + n):
        e = d.get(k)
        if e is not None and k + e[0] > o: return True
    return False

class NeedFork(Exception):
    def __init__(s, c): s.c = c
class NeedEnum(Exception):
    def __init__(s, c): s.c = c
class PathDead(Exception): pass
DONE = object()
class Outcomes:
    def __init__(s, l): s.l = l
class Throw:
    def __init__(s, exc): s.exc = exc

class Cand:
    __slots__ = ('label', 'eval')
    def __init__(s, label, fn): s.label = label; s.eval = fn

class FCand(Cand):
    """a universally quantified array invariant: every element with index in [lo, hi) of region rid satisfies pred.
    It is assumed by instantiating it at every element that is read, and proved for an arbitrary index."""
    __slots__ = ('rid',)
    def __init__(s, label, rid, esz, rng, pred):
        s.label = label; s.rid = rid
        def ev(env):
            ex, st = env.ex, env.st
            a = st.mem.get(rid)
            try: lo, hi = rng(env)
            except Exception as e:
                if type(e).__name__ == 'NoVal': return None
                raise
            if a is None: return None
            if env.kind == 'head':
                if not isinstance(a, ABase) or a.esz != esz: return None
                old = a.hook; lo, hi = ii(lo), ii(hi)
                def hook(ex_, t, o, a=a, old=old):
                    if old: old(ex_, t, o)
                    o = ii(o); key = ('fc', label, id(a), o.get_id())
                    if key in t.seen: return
                    t.seen.add(key); ex_.keep.append(o); ex_.keep.append(a)
                    j = o if esz == 1 else o / esz
                    g = z3.And(j >= lo, j < hi)
                    if esz > 1: g = z3.And(g, o % esz == 0)
                    e2 = Env(env.ctx, t, env.vals, 'head')
                    ex_.add(t, z3.Implies(g, bl(pred(e2, j, a.fn(o)))), 'u')
                a.hook = hook
                return True
            ex.cnt += 1; j = z3.Int('j!%d' % ex.cnt)
            r = z3.And(j >= ii(lo), j < ii(hi))
            if isinstance(a, Arr):
                if a.esz != esz: return None
                return z3.Implies(r, bl(pred(env, j, a.sel(ex, st, j * esz if esz > 1 else j))))
            c = []
            for o, e in a.d.items():
                if e[0] == esz and o % esz == 0 and not isinstance(e[1], (Ptr, PInt)) and e[1] is not UNDEF: c.append((o // esz, e[1]))
            return z3.And(z3.Implies(r, z3.Or(*[j == k for k, _ in c]) if c else z3.BoolVal(False)), *[z3.Implies(z3.And(k >= ii(lo), k < ii(hi)), bl(pred(env, IV(k), v))) for k, v in c])
        s.eval = ev

class Env:
    """values of the loop variables at one program point"""
    def __init__(s, ctx, st, vals, kind): s.ctx = ctx; s.st = st; s.vals = vals; s.kind = kind
    def __getitem__(s, k): return s.vals[k]
    @property
    def ex(s): return s.ctx.ex

class LoopCtx:
    """what the invariant templates see: header phis, modified memory cells, ghosts"""
    def __init__(s, ex, key, fn, header, entry, head, cells, pty, ghost, hst, est, gh={}):
        s.ex = ex; s.key = key; s.fn = fn; s.header = header
        s.entry = entry; s.head = head; s.cells = cells; s.pty = pty
        s.hst = hst; s.est = est
        # loop variables: name -> kind
        s.vars = {}
        for n, v in head.items():
            s.vars[n] = v
        for mk, (ov, nv) in cells.items():
            s.vars['@%d+%d' % (mk[1], mk[2])] = nv
        s.cellname = {'@%d+%d' % (mk[1], mk[2]): mk for mk in cells}
        s.gh = {'$%s' % (k if isinstance(k, str) else k[0]): (k, a, b) for k, (a, b) in gh.items()}
        for n, (k, a, b) in s.gh.items(): s.vars[n] = b
    def env_entry(s, st):
        d = dict(s.entry)
        for n, mk in s.cellname.items(): d[n] = s.cells[mk][0]
        for n, (k, a, b) in s.gh.items(): d[n] = a
        return Env(s, st, d, 'entry')
    def env_head(s, st):
        d = dict(s.head)
        for n, mk in s.cellname.items(): d[n] = s.cells[mk][1]
        for n, (k, a, b) in s.gh.items(): d[n] = b
        return Env(s, st, d, 'head')
    def env_back(s, st, vals):
        d = dict(vals)
        for n, mk in s.cellname.items():
            c = st.mem[mk[1]]
            e = c.d.get(mk[2]) if isinstance(c, Cells) else None
            d[n] = e[1] if e is not None and e[0] == mk[3] else None
        for n, (k, a, b) in s.gh.items(): d[n] = st.ghost.get(k)
        return Env(s, st, d, 'back')

UBK = {0: 'signed add overflow', 1: 'unreachable reached', 3: 'integer division overflow or by zero', 5: 'float cast overflow',
       7: 'implicit conversion', 8: 'invalid builtin', 10: 'load of an invalid value', 11: 'missing return', 12: 'signed multiplication overflow',
       13: 'negation overflow', 18: 'array index out of bounds', 19: 'pointer arithmetic overflow', 20: 'shift out of range',
       21: 'signed subtraction overflow', 22: 'null/misaligned access', 24: 'variable length array bound'}

# ---------------------------------------------------------------- built-in (trusted) externals
BUILTIN = {}
def builtin(*names):
    def d(f):
        for n in names: BUILTIN[n] = f
        return f
    return d

@builtin('_Znwm', '_Znam', 'malloc')
def b_new(ex, st, a, ins):
    n = a[0]
    ex.trusted_used['operator new (returns a fresh object of the requested size)'] = True
    rid = ex.region(st, n, 'heap', 'heap', Cells({}, 'undef'))
    st.ghost[('heap', rid)] = True
    return Ptr(rid, 0)
@builtin('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free')
def b_delete(ex, st, a, ins):
    ex.trusted_used['operator delete'] = True
    p = a[0]
    if p is UNDEF:
        ex.fail(st, 'memory-safety: delete of an indeterminate pointer'); raise PathDead()
    if p.r == 0: 
        if not isc(p.o): ex.prove(st, Eq(p.o, 0), 'memory-safety: delete of a non-heap pointer')
        return None
    ok = ex.regions[p.r].kind == 'heap' and not st.ghost.get(('freed', p.r))
    ex.prove(st, And(ok, Eq(p.o, 0)), 'memory-safety: delete of a live heap object (no double free)')
    st.ghost[('freed', p.r)] = True
    st.ghost[('freelog',)] = st.ghost.get(('freelog',), ()) + (p.r,)
    return None
@builtin('__cxa_allocate_exception')
def b_allocexc(ex, st, a, ins):
    rid = ex.region(st, max(a[0], 64), 'exc', 'exception', Cells({}, 'lazy'))
    return Ptr(rid, 0)
@builtin('__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_release', '__cxa_guard_abort')
def b_nop(ex, st, a, ins): return None
@builtin('__cxa_begin_catch')
def b_begincatch(ex, st, a, ins):
    st.caught.append(st.exc)
    return a[0]
@builtin('__cxa_rethrow')
def b_rethrow(ex, st, a, ins):
    return Throw(st.caught[-1] if st.caught else st.exc)
@builtin('__cxa_throw')
def b_throw(ex, st, a, ins):
    nm = [k for k, v in ex.globs.items() if v == a[1].r][0]
    return Throw((nm, a[0]))
@builtin('__assert_fail')
def b_assert(ex, st, a, ins):
    ex.fail(st, 'an assertion of the library (its own precondition contract) can fail'); raise PathDead()
@builtin('_ZSt9terminatev', '__clang_call_terminate', 'abort')
def b_term(ex, st, a, ins):
    ex.fail(st, 'std::terminate reached (exception escapes noexcept)'); raise PathDead()
_EXC = 'invalid_argument out_of_range length_error logic_error runtime_error range_error overflow_error domain_error'.split()
@builtin(*['_ZNSt%d%sC%dE%s' % (len(e), e, k, a) for e in _EXC for k in (1, 2) for a in ('PKc', 'RKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', 'RKS_')])
def b_excctor(ex, st, a, ins):
    ex.trusted_used['construction of standard exception objects'] = True
    return None
@builtin(*['_ZNSt%d%sD%dEv' % (len(e), e, k) for e in _EXC + ['exception', 'bad_alloc'] for k in (0, 1, 2)])
def b_excdtor(ex, st, a, ins): return None
@builtin('_ZSt20__throw_length_errorPKc')
def b_tle(ex, st, a, ins): return Throw(('_ZTISt12length_error', NULL))
@builtin('_ZSt20__throw_out_of_rangePKc', '_ZSt24__throw_out_of_range_fmtPKcz')
def b_toor(ex, st, a, ins): return Throw(('_ZTISt12out_of_range', NULL))
@builtin('_ZSt19__throw_logic_errorPKc')
def b_tlo(ex, st, a, ins): return Throw(('_ZTISt11logic_error', NULL))
@builtin('_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv')
def b_tba(ex, st, a, ins): return Throw(('_ZTISt9bad_alloc', NULL))
@builtin('_ZSt26__throw_bad_variant_accessPKc')
def b_tbv(ex, st, a, ins): return Throw(('_ZTISt18bad_variant_access', NULL))
@builtin('memcpy', 'memmove')
def b_memcpy(ex, st, a, ins): ex.memcpy(st, a[0], a[1], a[2]); return a[0]
@builtin('memset')
def b_memset(ex, st, a, ins):
    v = a[1]; v = v & 255 if isc(v) else z3.Extract(7, 0, v)
    ex.memset(st, a[0], v, a[2]); return a[0]
@builtin('memcmp', 'bcmp')
def b_memcmp(ex, st, a, ins):
    p, q, n = a
    if not isc(n):
        for k in range(0, 17):
            if ex.must(st, Eq(n, k)): n = k; break
        else:
            if not ex.must(st, ULE(n, 32)): raise Unsupported('memcmp of unbounded length')
            raise NeedEnum(ii(n))
    if n > 64: raise Unsupported('long memcmp')
    # the sign of the result is the order of the first differing byte
    r = BV(0, 32)
    for i in reversed(range(n)):
        x = bv(ex.load(st, Ptr(p.r, Add(p.o, i)), ir.INT(8)), 8); y = bv(ex.load(st, Ptr(q.r, Add(q.o, i)), ir.INT(8)), 8)
        r = z3.If(x == y, r, z3.If(z3.ULT(x, y), BV(0xffffffff, 32), BV(1, 32)))
    return r if n else 0
