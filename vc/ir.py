"""Parser for the subset of textual LLVM IR (LLVM 18, opaque pointers) that the
verifier consumes.  The text is produced by clang/opt from the real sources on
every run; nothing here is written by hand per function."""
import re

# ---------------------------------------------------------------- types
class T:
    __slots__ = ("k", "n", "e", "f", "packed", "name", "_sz", "_al", "_offs")

    def __init__(self, k, n=0, e=None, f=None, packed=False, name=None):
        self.k = k; self.n = n; self.e = e; self.f = f
        self.packed = packed; self.name = name
        self._sz = None; self._al = None; self._offs = None

    def __repr__(self):
        if self.k == 'i': return 'i%d' % self.n
        if self.k == 'arr': return '[%d x %r]' % (self.n, self.e)
        if self.k == 'vec': return '<%d x %r>' % (self.n, self.e)
        if self.k == 'st': return '{%s}' % ', '.join(map(repr, self.f or []))
        return self.k

_ints = {}
def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = T('i', n)
    return t
PTR = T('ptr'); VOID = T('void'); LABEL = T('label'); META = T('metadata')
FLOATS = {'float': T('fp', 32), 'double': T('fp', 64), 'x86_fp80': T('fp', 80),
          'half': T('fp', 16), 'fp128': T('fp', 128), 'bfloat': T('fp', 16)}

def size_of(t):
    if t._sz is None: _layout(t)
    return t._sz
def align_of(t):
    if t._al is None: _layout(t)
    return t._al
def offs_of(t):
    if t._offs is None: _layout(t)
    return t._offs
def _layout(t):
    if t.k == 'i':
        b = (t.n + 7) // 8
        p = 1
        while p < b: p *= 2
        t._al = min(p, 16 if t.n >= 128 else 8); t._sz = p if t.n <= 64 else (b + 7) // 8 * 8
        if t.n == 128: t._sz = 16
    elif t.k == 'ptr': t._sz = t._al = 8
    elif t.k == 'fp':
        t._sz = {16: 2, 32: 4, 64: 8, 80: 16, 128: 16}[t.n]; t._al = t._sz
    elif t.k in ('arr', 'vec'):
        t._sz = size_of(t.e) * t.n; t._al = align_of(t.e) if t.k == 'arr' else max(1, t._sz)
    elif t.k == 'st':
        o = 0; al = 1; offs = []
        for f in t.f:
            a = 1 if t.packed else align_of(f)
            al = max(al, a)
            o = (o + a - 1) // a * a
            offs.append(o); o += size_of(f)
        t._sz = (o + al - 1) // al * al; t._al = al; t._offs = offs
    elif t.k in ('fn', 'void', 'opaque'):
        t._sz = 1; t._al = 1
    else:
        raise ValueError('layout of %r' % t)

# ---------------------------------------------------------------- values
# operands: ('L', name) local, ('C', type, pyvalue) const int, ('G', name) global,
# ('N',) null, ('U', type) undef/poison, ('Z', type) zeroinit,
# ('A', type, [ops]) aggregate, ('GEP', srcty, [ops w types]), ('CAST', op, val, ty)
# ('F', type, text) float const, ('STR', bytes)

class Ins:
    __slots__ = ("op", "d", "ty", "a", "x", "loc")
    def __init__(self, op, d, ty, a, x=None):
        self.op = op; self.d = d; self.ty = ty; self.a = a; self.x = x
    def __repr__(self): return '%%%s = %s %r %r %r' % (self.d, self.op, self.ty, self.a, self.x)

class Func:
    __slots__ = ("name", "ret", "params", "pattrs", "blocks", "order", "defined", "preds",
                 "loops", "vararg", "noreturn", "text", "_dom", "joins")
class Global:
    __slots__ = ("name", "ty", "init", "const", "external")

TOK = re.compile(r'''
   \s+ | ;[^\n]*
 | (?P<str>c"(?:[^"\\]|\\.)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>!(?:"[^"]*"|[-a-zA-Z$._0-9]+)?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KMLHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_$.][-a-zA-Z$._0-9]*)
 | (?P<qstr>"[^"]*")
 | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)

def lex(s):
    out = []
    i = 0; n = len(s)
    m = TOK.match
    while i < n:
        k = m(s, i)
        if not k: raise SyntaxError('lex: ' + s[i:i + 60] + ' in ' + s[:100])
        i = k.end()
        if k.lastgroup: out.append((k.lastgroup, k.group()))
    return out

def unq(n):
    n = n[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n

def cstr(tok):
    s = tok[2:-1]; out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i+1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)

PATTR = {'noundef','nonnull','noalias','nocapture','readonly','writeonly','readnone','signext','zeroext',
         'returned','immarg','inreg','nest','swiftself','noreturn','nofree','allocptr','inalloca','byref',
         'dead_on_unwind','writable','range','nofpclass','allocalign','swifterror','swiftasync'}

class P:
    def __init__(self, mod, toks): self.m = mod; self.t = toks; self.i = 0
    def peek(self): return self.t[self.i] if self.i < len(self.t) else ('eof', '')
    def nxt(self):
        x = self.t[self.i]; self.i += 1; return x
    def isw(self, w): return self.i < len(self.t) and self.t[self.i][1] == w
    def acc(self, w):
        if self.isw(w): self.i += 1; return True
        return False
    def exp(self, w):
        if not self.acc(w): raise SyntaxError('expected %s got %r at %r' % (w, self.peek(), self.t[max(0,self.i-8):self.i+8]))

    def istype(self):
        k, v = self.peek()
        if k == 'word':
            return bool(re.fullmatch(r'i\d+', v)) or v in FLOATS or v in ('ptr', 'void', 'label', 'metadata', 'token', 'opaque')
        if k == 'loc': return True
        return v in ('[', '{', '<')

    def type(self):
        t = self.type1()
        # function type
        while self.isw('('):
            self.i += 1
            d = 1
            while d:
                v = self.nxt()[1]
                if v == '(': d += 1
                elif v == ')': d -= 1
            t = T('fn', e=t)
        while self.isw('*'): self.i += 1; t = PTR
        return t
    def type1(self):
        k, v = self.nxt()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit(): return INT(int(v[1:]))
            if v in FLOATS: return FLOATS[v]
            if v == 'ptr':
                if self.isw('addrspace'): self.i += 4
                return PTR
            if v == 'void': return VOID
            if v == 'label': return LABEL
            if v == 'opaque': return T('opaque')
            if v in ('metadata', 'token'): return META
            raise SyntaxError('type ' + v)
        if k == 'loc': return self.m.named(unq(v))
        if v == '[':
            n = int(self.nxt()[1]); self.exp('x'); e = self.type(); self.exp(']')
            return T('arr', n, e)
        if v == '<':
            if self.isw('{'):
                self.i += 1
                t = self.struct(True); self.exp('>'); return t
            n = int(self.nxt()[1]); self.exp('x'); e = self.type(); self.exp('>')
            return T('vec', n, e)
        if v == '{': return self.struct(False)
        raise SyntaxError('type %r' % v)
    def struct(self, packed):
        f = []
        if not self.acc('}'):
            while True:
                f.append(self.type())
                if self.acc('}'): break
                self.exp(',')
        return T('st', f=f, packed=packed)

    def pattrs(self):
        at = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PATTR:
                self.i += 1; at[v] = True
                if self.isw('('): self.skipparen()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'preallocated', 'captures', 'initializes', 'vscale_range', 'memory', 'allocsize', 'alignstack'):
                self.i += 1
                if self.isw('('):
                    if v in ('sret', 'byval', 'elementtype'):
                        self.i += 1; at[v] = self.type(); self.exp(')')
                    elif v == 'dereferenceable':
                        self.i += 1; at[v] = int(self.nxt()[1]); self.exp(')')
                    else: self.skipparen()
                else: self.nxt()
            else: return at
    def skipparen(self):
        self.exp('('); d = 1
        while d:
            v = self.nxt()[1]
            if v == '(': d += 1
            elif v == ')': d -= 1

    def tv(self):
        t = self.type(); at = self.pattrs()
        if t is META: 
            return t, self.metaval()
        return t, self.val(t)
    def metaval(self):
        # skip metadata operand
        k, v = self.nxt()
        if k == 'word' and self.istype_tok(v): self.i -= 1; self.tv()
        elif v == '!' and self.isw('{'):
            d = 0
            while True:
                w = self.nxt()[1]
                if w == '{': d += 1
                if w == '}':
                    d -= 1
                    if d == 0: break
        elif k == 'meta' and self.isw('('): self.skipparen()
        return ('M',)
    def istype_tok(self, v): return bool(re.fullmatch(r'i\d+', v)) or v in ('ptr', 'float', 'double')

    def val(self, t):
        k, v = self.nxt()
        if k == 'loc': return ('L', unq(v))
        if k == 'glob': return ('G', unq(v))
        if k == 'num':
            if t.k == 'fp': return ('F', t, v)
            return ('C', t, int(v) & ((1 << t.n) - 1))
        if k == 'str': return ('STR', cstr(v))
        if k == 'word':
            if v == 'true': return ('C', t, 1)
            if v == 'false': return ('C', t, 0)
            if v == 'null': return ('N',)
            if v in ('undef', 'poison'): return ('U', t)
            if v == 'zeroinitializer': return ('Z', t)
            if v == 'none': return ('N',)
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'nuw', 'nusw'): self.i += 1
                if self.isw('inrange'): self.i += 1; self.skipparen()
                self.exp('(')
                st = self.type(); self.exp(',')
                ops = []
                while True:
                    if self.isw('inrange'): self.i += 1
                    ops.append(self.tv())
                    if self.acc(')'): break
                    self.exp(',')
                return ('GEP', st, ops)
            if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('('); a = self.tv(); self.exp('to'); tt = self.type(); self.exp(')')
                return ('CAST', v, a, tt)
            if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                while self.peek()[1] in ('nuw', 'nsw', 'exact'): self.i += 1
                self.exp('('); a = self.tv(); self.exp(','); b = self.tv(); self.exp(')')
                return ('BIN', v, a, b, t)
            if v == 'icmp':
                p = self.nxt()[1]
                self.exp('('); a = self.tv(); self.exp(','); b = self.tv(); self.exp(')')
                return ('ICMP', p, a, b)
            if v == 'select':
                self.exp('('); a = self.tv(); self.exp(','); b = self.tv(); self.exp(','); c = self.tv(); self.exp(')')
                return ('SEL', a, b, c)
            if v == 'blockaddress': self.skipparen(); return ('U', t)
            if v == 'dso_local_equivalent' or v == 'no_cfi': return self.val(t)
            if v == 'splat':
                self.exp('('); a = self.tv(); self.exp(')')
                return ('A', t, [a] * t.n)
        if v == '[' or v == '{':
            close = ']' if v == '[' else '}'
            ops = []
            if not self.acc(close):
                while True:
                    ops.append(self.tv())
                    if self.acc(close): break
                    self.exp(',')
            return ('A', t, ops)
        if v == '<':
            if self.isw('{'):
                self.i += 1; ops = []
                while not self.acc('}'):
                    ops.append(self.tv()); self.acc(',')
                self.exp('>')
                return ('A', t, ops)
            ops = []
            while True:
                ops.append(self.tv())
                if self.acc('>'): break
                self.exp(',')
            return ('A', t, ops)
        raise SyntaxError('value %r %r' % (k, v))

class Module:
    def __init__(self, text):
        self.types = {}; self.funcs = {}; self.globals = {}; self.aliases = {}
        self._load(text)
    def named(self, n):
        t = self.types.get(n)
        if t is None: t = self.types[n] = T('opaque', name=n)
        return t

    def _load(self, text):
        lines = text.split('\n')
        i = 0; n = len(lines)
        bodies = []
        gl = []
        while i < n:
            l = lines[i]
            c = l[:1]
            if c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', l)
                p = P(self, lex(m.group(2)))
                tt = p.type() if not m.group(2).startswith('opaque') else T('opaque')
                t = self.named(unq(m.group(1)))
                t.k, t.n, t.e, t.f, t.packed = tt.k, tt.n, tt.e, tt.f, tt.packed
            elif c == '@': gl.append(l)
            elif l.startswith('declare'):
                f = self._proto(l, False)
                self.funcs.setdefault(f.name, f)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}': j += 1
                bodies.append((l, lines[i + 1:j]))
                i = j
            i += 1
        for l in gl: self._global(l)
        for h, b in bodies:
            f = self._proto(h, True)
            f.text = b
            self.funcs[f.name] = f

    def _global(self, l):
        l = re.sub(r'(, (comdat|align|section|!|partition)[^"]*)$', '', l) if False else l
        m = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', l)
        name = unq(m.group(1)); rest = m.group(2)
        p = P(self, lex(rest))
        g = Global(); g.name = name; g.external = False; g.const = False; g.init = None; g.ty = None
        while True:
            k, v = p.nxt()
            if v == 'external' or v == 'extern_weak': g.external = True
            elif v == 'alias' :
                t = p.type(); p.exp(',') if p.isw(',') else None
                tt, vv = p.tv()
                self.aliases[name] = vv; return
            elif v == 'constant': g.const = True; break
            elif v == 'global': break
            elif v == 'thread_local' :
                if p.isw('('): p.skipparen()
            elif v in ('addrspace',): p.skipparen()
            elif k == 'eof': return
        g.ty = p.type()
        if not g.external:
            g.init = p.val(g.ty)
        self.globals[name] = g

    def _proto(self, l, defined):
        toks = lex(l)
        p = P(self, toks); p.nxt()
        f = Func(); f.defined = defined; f.blocks = None; f.vararg = False; f.loops = None; f._dom = None; f.joins = None
        # skip linkage etc.
        while True:
            if p.istype(): break
            k, v = p.peek()
            if k == 'word' and v in PATTR | {'align', 'dereferenceable', 'dereferenceable_or_null'}: p.pattrs()
            else: p.nxt()
            if p.isw('(') : p.skipparen()
        f.ret = p.type1()
        k, v = p.nxt()
        while k != 'glob': k, v = p.nxt()
        f.name = unq(v)
        p.exp('(')
        f.params = []; f.pattrs = []
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    f.vararg = True
                    p.exp(')'); break
                t = p.type(); at = p.pattrs()
                nm = None
                if p.peek()[0] == 'loc': nm = unq(p.nxt()[1])
                f.params.append((t, nm)); f.pattrs.append(at)
                if p.acc(')'): break
                p.exp(',')
        # unnamed params get numbers
        c = 0
        return f

    def func(self, name):
        f = self.funcs.get(name)
        if f is not None and f.defined and f.blocks is None: self._body(f)
        return f

    def _body(self, f):
        f.blocks = {}; f.order = []
        # first block label: explicit or implicit number = count of unnamed params
        cur = None
        lines = f.text
        # join multi-line instrs (switch, landingpad clauses, invoke)
        joined = []
        for l in lines:
            s = l.strip()
            if not s or s[0] == ';': continue
            if joined and (l.startswith('          ') or s == ']' or
                           (joined[-1].lstrip().startswith('switch') or ' switch ' in joined[-1]) and joined[-1].count('[') > joined[-1].count(']')):
                joined[-1] += ' ' + s
            else: joined.append(l)
        for l in joined:
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', l)
            if m:
                cur = m.group(1)
                if cur.startswith('"'): cur = cur[1:-1]
                f.blocks[cur] = []; f.order.append(cur); continue
            if cur is None:
                cur = str(sum(1 for _, nm in f.params if nm is None or nm.isdigit()))
                f.blocks[cur] = []; f.order.append(cur)
            ins = self._ins(l.strip())
            if ins is not None: f.blocks[cur].append(ins)
        f.text = None
        self._cfg(f)

    def _ins(self, s):
        toks = lex(s)
        # cut trailing metadata ", !foo !N"
        p = P(self, toks)
        d = None
        if p.peek()[0] == 'loc' and len(toks) > 1 and toks[1][1] == '=':
            d = unq(p.nxt()[1]); p.nxt()
        k, op = p.nxt()
        if op in ('tail', 'musttail', 'notail'):
            op = p.nxt()[1]
        if op in ('add','sub','mul','udiv','sdiv','urem','srem','shl','lshr','ashr','and','or','xor','fadd','fsub','fmul','fdiv','frem'):
            fl = set()
            while p.peek()[0] == 'word' and not p.istype(): fl.add(p.nxt()[1])
            t = p.type(); a = p.val(t); p.exp(','); b = p.val(t)
            return Ins('bin', d, t, (a, b), op)
        if op == 'fneg':
            while p.peek()[0] == 'word' and not p.istype(): p.nxt()
            t, a = p.tv(); return Ins('fneg', d, t, (a,))
        if op in ('icmp', 'fcmp'):
            while p.peek()[1] in ('fast','nnan','ninf','nsz','arcp','contract','afn','reassoc','samesign'): p.nxt()
            pr = p.nxt()[1]; t = p.type(); a = p.val(t); p.exp(','); b = p.val(t)
            return Ins(op, d, t, (a, b), pr)
        if op in ('zext','sext','trunc','ptrtoint','inttoptr','bitcast','fptrunc','fpext','uitofp','sitofp','fptoui','fptosi','addrspacecast'):
            while p.peek()[1] in ('nneg','nuw','nsw'): p.nxt()
            t, a = p.tv(); p.exp('to'); t2 = p.type()
            return Ins('cast', d, t2, (a,), (op, t))
        if op == 'getelementptr':
            inb = False
            while p.peek()[1] in ('inbounds', 'nuw', 'nusw'):
                inb |= p.nxt()[1] == 'inbounds'
            st = p.type(); ops = []
            while p.acc(','):
                if p.peek()[0] == 'meta': break
                ops.append(p.tv())
            return Ins('gep', d, st, tuple(ops), inb)
        if op == 'load':
            for w in ('atomic', 'volatile'): p.acc(w)
            t = p.type(); p.exp(','); _, a = p.tv()
            return Ins('load', d, t, (a,))
        if op == 'store':
            for w in ('atomic', 'volatile'): p.acc(w)
            t, v = p.tv(); p.exp(','); _, a = p.tv()
            return Ins('store', None, t, (v, a))
        if op == 'alloca':
            p.acc('inalloca')
            t = p.type(); n = ('C', INT(32), 1)
            if p.acc(',') and p.istype():
                _, n = p.tv()
            return Ins('alloca', d, t, (n,))
        if op == 'phi':
            while p.peek()[0] == 'word' and not p.istype(): p.nxt()
            t = p.type(); inc = []
            while True:
                p.exp('['); v = p.val(t); p.exp(','); b = unq(p.nxt()[1]); p.exp(']')
                inc.append((b, v))
                if not p.acc(','): break
                if p.peek()[0] == 'meta': break
            return Ins('phi', d, t, None, dict(inc))
        if op == 'select':
            while p.peek()[0] == 'word' and not p.istype(): p.nxt()
            _, c = p.tv(); p.exp(','); t, a = p.tv(); p.exp(','); _, b = p.tv()
            return Ins('select', d, t, (c, a, b), _)
        if op == 'br':
            if p.isw('label'):
                p.nxt(); return Ins('jmp', None, None, (unq(p.nxt()[1]),))
            _, c = p.tv(); p.exp(','); p.exp('label'); a = unq(p.nxt()[1]); p.exp(','); p.exp('label'); b = unq(p.nxt()[1])
            return Ins('br', None, None, (c, a, b))
        if op == 'switch':
            t, c = p.tv(); p.exp(','); p.exp('label'); dflt = unq(p.nxt()[1]); p.exp('[')
            cases = []
            while not p.acc(']'):
                _, v = p.tv(); p.exp(','); p.exp('label'); cases.append((v[2], unq(p.nxt()[1])))
            return Ins('switch', None, t, (c,), (dflt, cases))
        if op == 'ret':
            if p.isw('void'): return Ins('ret', None, VOID, ())
            t, v = p.tv(); return Ins('ret', None, t, (v,))
        if op == 'unreachable': return Ins('unreachable', None, None, ())
        if op == 'resume':
            t, v = p.tv(); return Ins('resume', None, t, (v,))
        if op in ('call', 'invoke'):
            while True:
                if p.istype(): break
                k, v = p.peek()
                if k == 'word' and v in PATTR | {'align', 'dereferenceable', 'dereferenceable_or_null'}: p.pattrs()
                else: p.nxt()
            rt = p.type()
            if rt.k == 'fn': rt = rt.e
            if p.isw('asm'):
                return Ins('asm', d, rt, ())
            callee = p.val(PTR)
            p.exp('('); args = []
            if not p.acc(')'):
                while True:
                    t = p.type(); at = p.pattrs()
                    v = p.metaval() if t is META else p.val(t)
                    args.append((t, v))
                    if p.acc(')'): break
                    p.exp(',')
            tg = None
            if op == 'invoke':
                while not p.isw('to'): p.nxt()
                p.nxt(); p.exp('label'); a = unq(p.nxt()[1]); p.exp('unwind'); p.exp('label'); b = unq(p.nxt()[1])
                tg = (a, b)
            return Ins('call', d, rt, (callee, tuple(args)), tg)
        if op == 'landingpad':
            t = p.type(); cl = []; cleanup = False
            while True:
                if p.acc('cleanup'): cleanup = True
                elif p.acc('catch'): cl.append(('catch', p.tv()[1]))
                elif p.acc('filter'):
                    cl.append(('filter', p.tv()[1]))
                else: break
            return Ins('landingpad', d, t, (), (cleanup, cl))
        if op == 'extractvalue':
            t, a = p.tv(); ix = []
            while p.acc(','):
                if p.peek()[0] != 'num': break
                ix.append(int(p.nxt()[1]))
            return Ins('extractvalue', d, t, (a,), ix)
        if op == 'insertvalue':
            t, a = p.tv(); p.exp(','); t2, b = p.tv(); ix = []
            while p.acc(','):
                if p.peek()[0] != 'num': break
                ix.append(int(p.nxt()[1]))
            return Ins('insertvalue', d, t, (a, b), ix)
        if op == 'freeze':
            t, a = p.tv(); return Ins('freeze', d, t, (a,))
        if op == 'extractelement':
            t, a = p.tv(); p.exp(','); t2, b = p.tv()
            return Ins('extractelement', d, t, (a, b))
        if op == 'insertelement':
            t, a = p.tv(); p.exp(','); t2, b = p.tv(); p.exp(','); t3, c = p.tv()
            return Ins('insertelement', d, t, (a, b, c))
        if op == 'shufflevector':
            t, a = p.tv(); p.exp(','); t2, b = p.tv(); p.exp(','); t3, c = p.tv()
            return Ins('shufflevector', d, t, (a, b, c), t3)
        if op == 'atomicrmw':
            p.acc('volatile'); o = p.nxt()[1]; _, a = p.tv(); p.exp(','); t, v = p.tv()
            return Ins('atomicrmw', d, t, (a, v), o)
        if op == 'fence': return None
        raise SyntaxError('instr ' + s)

    # ------------------------------------------------------------ CFG / loops
    def _succ(self, ins):
        if ins.op == 'jmp': return [ins.a[0]]
        if ins.op == 'br': return [ins.a[1], ins.a[2]]
        if ins.op == 'switch': return [ins.x[0]] + [b for _, b in ins.x[1]]
        if ins.op == 'call' and ins.x: return list(ins.x)
        return []
    def _cfg(self, f):
        succ = {b: self._succ(f.blocks[b][-1]) for b in f.order}
        preds = {b: [] for b in f.order}
        for b in f.order:
            for s in succ[b]: preds[s].append(b)
        f.preds = preds
        entry = f.order[0]
        # reverse postorder
        seen = set(); post = []
        st = [(entry, iter(succ[entry]))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(succ[s]))); break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]; num = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                nd = None
                for p in preds[b]:
                    if p in idom:
                        if nd is None: nd = p
                        else:
                            x, y = p, nd
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            nd = x
                if idom.get(b) != nd: idom[b] = nd; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == entry: return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in idom and dom(s, b):
                    body = loops.setdefault(s, {s})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x in body: continue
                        body.add(x); w += [q for q in preds[x] if q in num]
        f.loops = loops
    PURE = ('bin', 'icmp', 'cast', 'select', 'load', 'gep', 'phi', 'br', 'jmp', 'switch', 'freeze', 'extractvalue', 'insertvalue', 'fcmp')
    def _pure(self, ins):
        if ins.op in self.PURE: return True
        if ins.op == 'call' and not ins.x and ins.a[0][0] == 'G':
            n = ins.a[0][1]
            return n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax', 'llvm.abs', 'llvm.ctlz', 'llvm.cttz', 'llvm.ctpop',
                                 'llvm.bswap', 'llvm.fsh', 'llvm.uadd', 'llvm.sadd', 'llvm.usub', 'llvm.ssub', 'llvm.umul', 'llvm.smul', 'llvm.expect', 'llvm.experimental.noalias'))
        return False
    def join_of(self, f, b):
        """the nearest block J that every path from b reaches (paths ending in 'unreachable' aside), when all code between b and J
        is free of side effects and acyclic; None otherwise"""
        if f.joins is None: f.joins = {}
        if b in f.joins: return f.joins[b]
        f.joins[b] = None
        succ = lambda x: self._succ(f.blocks[x][-1])
        # breadth-first order of what is reachable
        order = []; seen = {b}; q = [b]
        while q and len(order) < 60:
            x = q.pop(0)
            if x != b: order.append(x)
            for y in succ(x):
                if y not in seen: seen.add(y); q.append(y)
        for J in order:
            reg = set(); w = list(succ(b)); ok = True; hits = 0
            while w and ok:
                x = w.pop()
                if x == J: hits += 1; continue
                if x == b or x in f.loops: ok = False; break
                if x in reg: continue
                reg.add(x)
                if len(reg) > 40: ok = False; break
                t = f.blocks[x][-1]
                if t.op == 'unreachable': continue
                if t.op in ('ret', 'resume') or not all(self._pure(i) for i in f.blocks[x]): ok = False; break
                w += succ(x)
            if ok and hits: 
                f.joins[b] = J; break
        return f.joins[b]
