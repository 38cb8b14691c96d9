"""LLVM IR (textual, as emitted by rustc) -> Python code, one Python function per IR
function, compiled lazily. Nothing here knows about the code under test."""
import re
from . import terms as T

TOK = re.compile(r'''c"(?:[^"\\]|\\.)*"|[%@](?:"[^"]*"|[-\w.$]+)|"[^"]*"|f?0x[0-9A-Fa-f]+|[-+]?\d+\.\d*(?:[eE][-+]?\d+)?|[-+](?:inf|qnan)\b|-?\d+|\.\.\.|![\w.]*|\#\d+|[A-Za-z_][\w.]*|[-()\[\]{}<>,=*|:]''')


class IRError(Exception):
    pass


def toks(s):
    return TOK.findall(s)


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'a', 'b', '_sz', '_al', 'offs')
    def __init__(self, k, a=None, b=None):
        self.k, self.a, self.b = k, a, b
        self._sz = self._al = self.offs = None
    def __repr__(self):
        return 'Ty(%s,%s)' % (self.k, self.a)


I = {}
def ity(n):
    t = I.get(n)
    if t is None:
        t = I[n] = Ty('i', n)
    return t


PTR = Ty('ptr'); DBL = Ty('double'); FLT = Ty('float'); VOID = Ty('void'); META = Ty('meta'); LABEL = Ty('label')


def size(t):
    if t._sz is None:
        layout(t)
    return t._sz


def align(t):
    if t._al is None:
        layout(t)
    return t._al


def layout(t):
    k = t.k
    if k == 'i':
        n = (t.a + 7) // 8
        p = 1
        while p < n:
            p *= 2
        t._al = min(p, 16); t._sz = (n + t._al - 1) // t._al * t._al
    elif k == 'ptr' or k == 'double':
        t._sz = t._al = 8
    elif k == 'float':
        t._sz = t._al = 4
    elif k == 's':
        off = 0; al = 1; offs = []
        for e in t.a:
            ea = 1 if t.b else align(e)
            off = (off + ea - 1) // ea * ea
            offs.append(off); off += size(e); al = max(al, ea)
        t._sz = (off + al - 1) // al * al; t._al = al; t.offs = offs
    elif k == 'a':
        t._sz = t.a * size(t.b); t._al = align(t.b)
    elif k == 'v':
        if t.b.k == 'i' and t.b.a == 1:
            t._sz = (t.a + 7) // 8
        else:
            t._sz = t.a * size(t.b)
        t._al = t._sz
    elif k == 'void':
        t._sz = 0; t._al = 1
    else:
        raise IRError('layout ' + k)


class P:
    """token cursor"""
    def __init__(self, ts, mod):
        self.t = ts; self.i = 0; self.mod = mod
    def peek(self, d=0):
        j = self.i + d
        return self.t[j] if j < len(self.t) else None
    def next(self):
        x = self.t[self.i]; self.i += 1
        return x
    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False
    def need(self, x):
        y = self.next()
        if y != x:
            raise IRError('expected %r got %r in %s' % (x, y, ' '.join(self.t)[:300]))

    def type(self):
        x = self.next()
        if x == 'ptr':
            if self.peek() == 'addrspace':
                self.next(); self.skip_paren()
            return PTR
        if x[0] == 'i' and x[1:].isdigit():
            return ity(int(x[1:]))
        if x == 'double': return DBL
        if x == 'float': return FLT
        if x == 'void': return VOID
        if x == 'metadata': return META
        if x == 'label': return LABEL
        if x == '{':
            es = []
            if not self.eat('}'):
                while True:
                    es.append(self.type())
                    if self.eat('}'): break
                    self.need(',')
            return Ty('s', es, False)
        if x == '[':
            n = int(self.next()); self.need('x'); e = self.type(); self.need(']')
            return Ty('a', n, e)
        if x == '<':
            if self.eat('{'):
                es = []
                if not self.eat('}'):
                    while True:
                        es.append(self.type())
                        if self.eat('}'): break
                        self.need(',')
                self.need('>')
                return Ty('s', es, True)
            n = int(self.next()); self.need('x'); e = self.type(); self.need('>')
            return Ty('v', n, e)
        if x[0] == '%':
            return self.mod.named_type(x)
        raise IRError('type %r in %s' % (x, ' '.join(self.t)[:200]))

    def skip_paren(self):
        self.need('(')
        d = 1
        while d:
            x = self.next()
            if x == '(': d += 1
            elif x == ')': d -= 1

    ATTR0 = {'align'}
    def attrs(self):
        while True:
            x = self.peek()
            if x is None:
                return
            if x == 'align':
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                else:
                    self.next()
                continue
            if x[0] == '"':
                self.next()
                if self.eat('='): self.next()
                continue
            if x[0] == '#':
                self.next(); continue
            if re.match(r'^[a-z_]+$', x) and x not in VALWORDS and not is_type_word(x):
                self.next()
                if self.peek() == '(':
                    self.skip_paren()
                continue
            return


VALWORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'none', 'getelementptr', 'ptrtoint',
            'inttoptr', 'bitcast', 'splat', 'add', 'sub', 'trunc', 'asm', 'to', 'x', 'c', 'dso_local_equivalent', 'no_cfi', 'unwind'}


def is_type_word(x):
    return x in ('ptr', 'double', 'float', 'void', 'metadata', 'label') or (x[0] == 'i' and x[1:].isdigit())


def unq(name):
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


def cstr(tok):
    s = tok[2:-1]
    out = bytearray(); i = 0
    b = s.encode('latin-1', 'replace')
    n = len(b)
    while i < n:
        if b[i] == 92:
            if b[i+1] == 92:
                out.append(92); i += 2
            else:
                out.append(int(b[i+1:i+3], 16)); i += 3
        else:
            out.append(b[i]); i += 1
    return bytes(out)


def fconst(x):
    if x.startswith('f0x'):
        return T.float_of(int(x[3:], 16))
    if x.startswith('0x'):
        return T.float_of(int(x, 16))
    if x[1:] == 'qnan': return T.float_of(0x7ff8000000000000 | (0x8000000000000000 if x[0] == '-' else 0))
    return float(x)


class Const:
    """parsed constant: python value for scalars, tuple for aggregates; 'bytes' for c"" """


class Module:
    def __init__(self, path, rt):
        self.rt = rt
        rt.mod = self
        txt = open(path, encoding='latin-1').read()
        self.fn_src = {}
        self.globals_src = {}
        self.decls = set()
        self.types = {}
        self.alias = {}
        pos = 0
        # functions
        for m in re.finditer(r'^define [^\n]*\{[^\n]*\n(.*?)^\}', txt, re.M | re.S):
            head = txt[m.start():txt.index('\n', m.start())]
            nm = re.search(r'@("[^"]*"|[-\w.$]+)\(', head).group(1)
            if nm[0] == '"': nm = nm[1:-1]
            self.fn_src['@' + nm] = (head, m.group(1))
        for m in re.finditer(r'^(@(?:"[^"]*"|[-\w.$]+)) = ([^\n]*)$', txt, re.M):
            self.globals_src[unq(m.group(1))] = m.group(2)
        for m in re.finditer(r'^declare [^\n]*?@("[^"]*"|[-\w.$]+)\(', txt, re.M):
            self.decls.add(unq('@' + m.group(1)))
        for m in re.finditer(r'^(%(?:"[^"]*"|[-\w.$]+)) = type ([^\n]*)$', txt, re.M):
            self.types[unq(m.group(1))] = m.group(2)
        self._tcache = {}
        self.compiled = {}
        self.gaddr = {}
        self.faddr = {}
        self.addr2f = {}

    def named_type(self, x):
        x = unq(x)
        if x not in self._tcache:
            self._tcache[x] = P(toks(self.types[x]), self).type()
        return self._tcache[x]

    # ---------------------------------------------------------- symbols
    def addr_of(self, name):
        name = unq(name)
        if name in self.fn_src or name in self.decls:
            a = self.faddr.get(name)
            if a is None:
                a = self.faddr[name] = (1 << 32) + 16 * (len(self.faddr) + 1)
                self.addr2f[a] = name
            return a
        a = self.gaddr.get(name)
        if a is None:
            a = self.make_global(name)
        return a

    def make_global(self, name):
        src = self.globals_src.get(name)
        if src is None:
            raise IRError('unknown symbol ' + name)
        ts = toks(re.sub(r'(, ![\w.]+ !\d+)+$', '', src))
        p = P(ts, self)
        const = False
        while True:
            x = p.peek()
            if x in ('constant', 'global'):
                const = x == 'constant'
                p.next(); break
            if x == 'alias':
                p.next(); p.type(); p.need(',')
                p.type()
                a = self.gaddr[name] = self.addr_of(p.next())
                return a
            if x == 'external' or x == 'extern_weak':
                # undefined symbol
                if x == 'extern_weak':
                    self.gaddr[name] = 0
                    return 0
            p.next()
            if p.peek() == '(':
                p.skip_paren()
        ty = p.type()
        ob = self.rt.new_global(size(ty), name, const)
        a = self.gaddr[name] = ob << 32
        if p.peek() is not None and p.peek() != ',':
            buf = bytearray(size(ty))
            self.init(p, ty, buf, 0)
            self.rt.objs[ob].data[:] = buf
        self.rt.global_done(ob)
        return a

    def init(self, p, ty, buf, off):
        """parse a constant of type ty into buf at off"""
        x = p.peek()
        if x in ('zeroinitializer', 'undef', 'poison', 'null', 'none'):
            p.next()
            return
        k = ty.k
        if k == 'a':
            if x[:2] == 'c"':
                b = cstr(p.next())
                buf[off:off + len(b)] = b
                return
            p.need('[')
            sz = size(ty.b)
            for i in range(ty.a):
                if i: p.need(',')
                t = p.type()
                self.init(p, t, buf, off + i * sz)
            p.need(']')
            return
        if k == 's':
            layout(ty)
            if ty.b:
                p.need('<')
            p.need('{')
            for i, e in enumerate(ty.a):
                if i: p.need(',')
                t = p.type()
                self.init(p, t, buf, off + ty.offs[i])
            p.need('}')
            if ty.b:
                p.need('>')
            return
        v = self.const(p, ty)
        n = size(ty)
        if k == 'double':
            v = T.fbits_of(v)
        elif k == 'v':
            v = vec_bits(v, ty)
        elif k == 'float':
            import struct
            v = struct.unpack('<I', struct.pack('<f', v))[0]
        buf[off:off + n] = (v & ((1 << (8 * n)) - 1)).to_bytes(n, 'little')

    def const(self, p, ty):
        """constant operand -> python value"""
        x = p.next()
        k = ty.k
        if k == 'i':
            if x == 'true': return 1
            if x == 'false': return 0
            if x in ('undef', 'poison', 'zeroinitializer'): return 0
            if x == 'ptrtoint':
                p.need('('); t = p.type(); v = self.const(p, t); p.need('to'); p.type(); p.need(')')
                return v & T.M[ty.a]
            if x in ('sub', 'add'):
                while p.peek() in ('nuw', 'nsw'): p.next()
                p.need('('); t = p.type(); a = self.const(p, t); p.need(','); t = p.type(); b = self.const(p, t); p.need(')')
                return (a - b if x == 'sub' else a + b) & T.M[ty.a]
            if x == 'trunc':
                p.need('('); t = p.type(); v = self.const(p, t); p.need('to'); p.type(); p.need(')')
                return v & T.M[ty.a]
            if re.match(r'^-?\d+$', x):
                return int(x) & T.M[ty.a]
            raise IRError('const int %r' % x)
        if k == 'ptr':
            if x in ('null', 'undef', 'poison', 'zeroinitializer'): return 0
            if x[0] == '@':
                return self.addr_of(x)
            if x == 'inttoptr':
                p.need('('); t = p.type(); v = self.const(p, t); p.need('to'); p.type(); p.need(')')
                return v
            if x == 'getelementptr':
                while p.peek() in ('inbounds', 'nuw', 'nusw', 'inrange'):
                    p.next()
                    if p.peek() == '(' and p.peek(-1) == 'inrange': p.skip_paren()
                p.need('(')
                t = p.type(); p.need(',')
                bt = p.type(); v = self.const(p, bt)
                first = True
                while p.eat(','):
                    it = p.type(); iv = self.const(p, it)
                    iv = T._sgn(iv, it.a)
                    if first:
                        v += iv * size(t); first = False
                    else:
                        t, o = gep_step(t, iv)
                        v += o
                p.need(')')
                return v & T.M[64]
            raise IRError('const ptr %r' % x)
        if k == 'double' or k == 'float':
            if x in ('undef', 'poison', 'zeroinitializer'): return 0.0
            return fconst(x)
        if k in ('s', 'a', 'v'):
            if x in ('undef', 'poison', 'zeroinitializer'):
                return zero_of(ty)
            if x == 'splat':
                p.need('('); t = p.type(); v = self.const(p, t); p.need(')')
                return (v,) * ty.a
            if x[:2] == 'c"':
                return tuple(cstr(x))
            if k == 's' and ty.b and x == '<':
                p.need('{'); close = '}'
            else:
                close = {'{': '}', '[': ']', '<': '>'}[x]
            out = []
            if not p.eat(close):
                while True:
                    t = p.type(); out.append(self.const(p, t))
                    if p.eat(close): break
                    p.need(',')
            if k == 's' and ty.b:
                p.need('>')
            return tuple(out)
        raise IRError('const %s %r' % (k, x))

    # ---------------------------------------------------------- functions
    def fn(self, name):
        f = self.compiled.get(name)
        if f is None:
            f = self.compile(name)
        return f

    def compile(self, name):
        rt = self.rt
        f = rt.override(name)
        if f is None:
            if name not in self.fn_src:
                def f(*a, _n=name):
                    raise IRError('call to unmodelled external ' + _n)
            else:
                f = Compiler(self, name).build()
        self.compiled[name] = f
        return f


def vec_bits(v, ty):
    w = ty.b.a if ty.b.k == 'i' else 64
    r = 0
    for i, e in enumerate(v):
        if ty.b.k == 'double':
            e = T.to_bits(e)
        e = int(e) if not T.is_t(e) else e
        r = r | (e << (w * i)) if not T.is_t(r) and not T.is_t(e) else T.concat(e, w, r, w * i) if i else e
    return r


def vec_unbits(r, ty):
    w = ty.b.a if ty.b.k == 'i' else 64
    out = []
    for i in range(ty.a):
        e = T.extract(r, w * i, w)
        if ty.b.k == 'double':
            e = T.from_bits(e)
        out.append(e)
    return tuple(out)


def zero_of(ty):
    if ty.k in ('i', 'ptr'): return 0
    if ty.k in ('double', 'float'): return 0.0
    if ty.k == 's': return tuple(zero_of(e) for e in ty.a)
    return tuple(zero_of(ty.b) for _ in range(ty.a))


def gep_step(t, i):
    if t.k == 's':
        layout(t)
        return t.a[i], t.offs[i]
    return t.b, i * size(t.b)


LBL = re.compile(r'^("[^"]*"|[-\w.$]+):')


class Compiler:
    def __init__(self, mod, name):
        self.mod = mod; self.name = name
        self.head, self.body = mod.fn_src[name]
        self.names = {}
        self.consts = {}
        self.env = {}

    def loc(self, n):
        n = unq(n)
        v = self.names.get(n)
        if v is None:
            v = self.names[n] = 'v%d' % len(self.names)
        return v

    def parse_params(self):
        # the parameter list follows @name(
        h = self.head
        m = re.search(r'@("[^"]*"|[-\w.$]+)\(', h)
        ts = toks(h[m.end():])
        p = P(ts, self.mod)
        ps = []
        i = 0
        if not p.eat(')'):
            while True:
                if p.peek() == '...':
                    p.next(); p.need(')'); break
                t = p.type(); p.attrs()
                x = p.peek()
                if x and x[0] == '%':
                    ps.append((t, p.next()))
                else:
                    ps.append((t, '%' + str(i)))
                i += 1
                if p.eat(')'): break
                p.need(',')
        return ps

    def value(self, p, ty):
        """operand -> python expression"""
        x = p.peek()
        if x[0] == '%':
            p.next()
            return self.loc(x)
        v = self.mod.const(p, ty)
        return self.lit(v)

    def lit(self, v):
        if type(v) is float:
            if v != v or v in (T.INF, -T.INF):
                nm = 'c%d' % len(self.consts)
                self.consts[nm] = v
                return nm
            return repr(v)
        if type(v) is tuple:
            nm = 'c%d' % len(self.consts)
            self.consts[nm] = v
            return nm
        return repr(v)

    def build(self):
        params = self.parse_params()
        pn = [self.loc(n) for _, n in params]
        blocks = []   # (label, [lines])
        cur = None
        first_label = str(len(params))
        lines = self.body.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]; i += 1
            if not ln or ln.startswith('  #dbg') or ln.lstrip().startswith(';'):
                continue
            if ln[0] != ' ':
                m = LBL.match(ln)
                if m:
                    lb = m.group(1)
                    if lb[0] == '"': lb = lb[1:-1]
                    cur = []
                    blocks.append((lb, cur))
                continue
            if cur is None:
                cur = []
                blocks.append((first_label, cur))
            s = ln.strip()
            # multi-line: switch [ ... ], invoke ... to label, landingpad clauses
            if s.startswith('switch ') and s.endswith('['):
                while True:
                    l2 = lines[i].strip(); i += 1
                    s += ' ' + l2
                    if l2.startswith(']'): break
            elif ' invoke ' in ' ' + s:
                if ' unwind label ' not in s:
                    s += ' ' + lines[i].strip(); i += 1
            elif 'landingpad ' in s:
                while i < n and lines[i].startswith('          '):
                    i += 1
            cur.append(s)
        self.blocks = blocks
        self.bid = {lb: k for k, (lb, _) in enumerate(blocks)}
        # collect phis first
        self.phis = {}
        for lb, ins in blocks:
            ph = []
            for s in ins:
                m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = phi (.*)$', s)
                if not m: break
                p = P(toks(re.sub(r'(, ![\w.]+ !\d+)+$', '', m.group(2))), self.mod)
                ty = p.type()
                inc = {}
                while True:
                    p.need('[')
                    v = self.value(p, ty); p.need(','); l = unq(p.next())[1:]; p.need(']')
                    inc[l] = v
                    if not p.eat(','): break
                ph.append((self.loc(m.group(1)), inc))
            self.phis[lb] = ph
        self.uses_alloca = ' alloca ' in self.body
        # which blocks have single uncond pred could be merged; use binary dispatch
        codes = []
        for lb, ins in blocks:
            codes.append(self.block(lb, ins))
        out = []
        out.append('def F(%s):' % ', '.join(pn))
        ind = 1
        w = out.append
        w(' STEP(%r)' % self.name)
        if self.uses_alloca:
            w(' _al = []')
            w(' try:')
            ind = 2
        if len(blocks) == 1:
            for c in codes[0]:
                w(' ' * ind + c)
        else:
            w(' ' * ind + '_b = 0')
            w(' ' * ind + 'while True:')
            def tree(lo, hi, d):
                if hi - lo == 1:
                    for c in codes[lo]:
                        w(' ' * d + c)
                    return
                mid = (lo + hi) // 2
                w(' ' * d + 'if _b < %d:' % mid)
                tree(lo, mid, d + 1)
                w(' ' * d + 'else:')
                tree(mid, hi, d + 1)
            tree(0, len(blocks), ind + 1)
        if self.uses_alloca:
            w(' finally:')
            w('  for _a in _al: FREEA(_a)')
        src = '\n'.join(out)
        env = dict(self.mod.rt.env)
        env.update(self.consts)
        env.update(self.env)
        try:
            code = compile(src, '<ir %s>' % self.name[:60], 'exec')
        except SyntaxError:
            print(src)
            raise
        exec(code, env)
        self.src = src
        self.mod.rt.n_compiled += 1
        return env['F']

    def jump(self, frm, to):
        """statements for a branch frm -> to"""
        c = []
        ph = self.phis[to]
        if ph:
            ls = [a for a, inc in ph]
            rs = [inc[frm] for a, inc in ph]
            prs = [(a, b) for a, b in zip(ls, rs) if a != b]
            if prs:
                c.append('%s = %s' % (', '.join(a for a, b in prs), ', '.join(b for a, b in prs)))
        c.append('_b = %d' % self.bid[to])
        c.append('continue')
        return c

    def callee(self, name):
        """expression that calls a direct callee"""
        nm = 'g_' + re.sub(r'\W', '_', name)[-60:] + '_%d' % len(self.env)
        mod = self.mod
        # late binding cell
        for k, v in self.env.items():
            if getattr(v, '_cell', None) == name:
                return k
        ov = mod.rt.override(name)
        if ov is not None:
            def stub(*a, _f=ov):
                return _f(*a)
            stub = ov
            self.env[nm] = ov
            return nm
        cell = [None]
        def stub(*a):
            f = cell[0]
            if f is None:
                f = cell[0] = mod.fn(name)
            return f(*a)
        stub._cell = name
        self.env[nm] = stub
        return nm

    def block(self, lb, ins):
        out = []
        for s in ins:
            r = self.instr(lb, s)
            if r:
                out.extend(r)
        return out or ['pass']

    def instr(self, lb, s):
        dst = None
        m = re.match(r'^(%(?:"[^"]*"|[-\w.$]+)) = ', s)
        if m:
            dst = self.loc(m.group(1))
            s = s[m.end():]
        s = re.sub(r'(, ![\w.]+ !\d+)+$', '', s)
        p = P(toks(s), self.mod)
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        f = getattr(self, 'i_' + op, None)
        if f is None:
            raise IRError('instruction %s: %s' % (op, s))
        return f(p, dst, lb)

    # ------------------------------------------------------ instructions
    def i_phi(self, p, d, lb):
        return None

    def i_ret(self, p, d, lb):
        t = p.type()
        if t is VOID:
            return ['return None']
        return ['return ' + self.value(p, t)]

    def i_br(self, p, d, lb):
        if p.eat('label'):
            return self.jump(lb, unq(p.next())[1:])
        p.type(); c = self.value(p, ity(1)); p.need(','); p.need('label')
        a = unq(p.next())[1:]; p.need(','); p.need('label'); b = unq(p.next())[1:]
        out = ['if %s:' % c]
        out += [' ' + x for x in self.jump(lb, a)]
        out += self.jump(lb, b)
        return out

    def i_switch(self, p, d, lb):
        t = p.type(); v = self.value(p, t); p.need(','); p.need('label')
        dflt = unq(p.next())[1:]
        p.need('[')
        cases = []
        while not p.eat(']'):
            ct = p.type(); c = self.mod.const(p, ct); p.need(','); p.need('label'); cases.append((c, unq(p.next())[1:]))
        out = []
        for c, l in cases:
            out.append('if %s == %d:' % (v, c))
            out += [' ' + x for x in self.jump(lb, l)]
        out += self.jump(lb, dflt)
        return out

    def i_unreachable(self, p, d, lb):
        return ['UNREACHABLE(%r)' % self.name]

    def i_alloca(self, p, d, lb):
        t = p.type()
        n = '1'
        if p.eat(','):
            if p.peek() != 'align':
                it = p.type(); n = self.value(p, it)
        if n == '1':
            return ['%s = ALLOCA(%d)' % (d, size(t)), '_al.append(%s)' % d]
        return ['%s = ALLOCA(%d*(%s))' % (d, size(t), n), '_al.append(%s)' % d]

    def i_load(self, p, d, lb):
        if p.peek() in ('atomic', 'volatile'): p.next()
        if p.peek() in ('atomic', 'volatile'): p.next()
        t = p.type(); p.need(','); p.type(); a = self.value(p, PTR)
        return ['%s = %s' % (d, self.load(t, a))]

    def load(self, t, a):
        k = t.k
        if k == 'ptr' : return 'LD8(%s)' % a
        if k == 'double': return 'LDD(%s)' % a
        if k == 'i':
            if t.a == 64: return 'LD8(%s)' % a
            if t.a == 8: return 'LD1(%s)' % a
            if t.a == 1: return '(LD1(%s) & 1)' % a if False else 'LDB(%s)' % a
            return 'LDN(%s, %d, %d)' % (a, (t.a + 7) // 8, t.a)
        if k in ('s', 'a', 'v'):
            nm = self.tyc(t)
            return 'LDAGG(%s, %s)' % (a, nm)
        if k == 'float':
            return 'LDF(%s)' % a
        raise IRError('load ' + k)

    def tyc(self, t):
        nm = 't%d' % len(self.consts)
        self.consts[nm] = t
        return nm

    def i_store(self, p, d, lb):
        if p.peek() in ('atomic', 'volatile'): p.next()
        if p.peek() in ('atomic', 'volatile'): p.next()
        t = p.type(); v = self.value(p, t); p.need(','); p.type(); a = self.value(p, PTR)
        k = t.k
        if k == 'ptr' or (k == 'i' and t.a == 64): return ['ST8(%s, %s)' % (a, v)]
        if k == 'double': return ['STD(%s, %s)' % (a, v)]
        if k == 'i': return ['STN(%s, %s, %d, %d)' % (a, v, (t.a + 7) // 8, t.a)]
        if k in ('s', 'a', 'v'): return ['STAGG(%s, %s, %s)' % (a, v, self.tyc(t))]
        if k == 'float': return ['STF(%s, %s)' % (a, v)]
        raise IRError('store ' + k)

    def i_getelementptr(self, p, d, lb):
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        t = p.type(); p.need(','); bt = p.type(); base = self.value(p, PTR)
        parts = []
        off = 0
        first = True
        while p.eat(','):
            it = p.type()
            x = p.peek()
            if x[0] == '%':
                v = self.value(p, it)
                if it.a != 64:
                    v = 'SEXT(%s, %d, 64)' % (v, it.a)
                if first:
                    sz = size(t); first = False
                else:
                    if t.k == 's': raise IRError('gep struct var index')
                    t = t.b; sz = size(t)
                parts.append('%s * %d' % (v, sz) if sz != 1 else v)
            else:
                iv = T._sgn(self.mod.const(p, it), it.a)
                if first:
                    off += iv * size(t); first = False
                else:
                    t, o = gep_step(t, iv)
                    off += o
        e = ' + '.join([base] + parts)
        if off:
            e += ' + %d' % off
        if not parts and off >= 0:
            return ['%s = (%s) & 0xFFFFFFFFFFFFFFFF' % (d, e)] if off else ['%s = %s' % (d, e)]
        return ['%s = (%s) & 0xFFFFFFFFFFFFFFFF' % (d, e)]

    def bin(self, p):
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'samesign', 'nneg', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        t = p.type(); a = self.value(p, t); p.need(','); b = self.value(p, t)
        return t, a, b

    def vecop(self, d, t, f, a, b):
        return ['%s = tuple(%s for _x, _y in zip(%s, %s))' % (d, f('_x', '_y', t.b), a, b)]

    def arith(self, p, d, f):
        t, a, b = self.bin(p)
        if t.k == 'v':
            return self.vecop(d, t, f, a, b)
        return ['%s = %s' % (d, f(a, b, t))]

    def i_add(self, p, d, lb): return self.arith(p, d, lambda a, b, t: '(%s + %s) & %d' % (a, b, T.M[t.a]))
    def i_sub(self, p, d, lb): return self.arith(p, d, lambda a, b, t: '(%s - %s) & %d' % (a, b, T.M[t.a]))
    def i_mul(self, p, d, lb): return self.arith(p, d, lambda a, b, t: '(%s * %s) & %d' % (a, b, T.M[t.a]))
    def i_and(self, p, d, lb): return self.arith(p, d, lambda a, b, t: '%s & %s' % (a, b))
    def i_or(self, p, d, lb): return self.arith(p, d, lambda a, b, t: '%s | %s' % (a, b))
    def i_xor(self, p, d, lb): return self.arith(p, d, lambda a, b, t: '%s ^ %s' % (a, b))
    def i_shl(self, p, d, lb): return self.arith(p, d, lambda a, b, t: 'SHL(%s, %s, %d)' % (a, b, t.a))
    def i_lshr(self, p, d, lb): return self.arith(p, d, lambda a, b, t: '%s >> %s' % (a, b))
    def i_ashr(self, p, d, lb): return self.arith(p, d, lambda a, b, t: 'ASHR(%s, %s, %d)' % (a, b, t.a))
    def i_udiv(self, p, d, lb): return self.arith(p, d, lambda a, b, t: 'UDIV(%s, %s, %d)' % (a, b, t.a))
    def i_urem(self, p, d, lb): return self.arith(p, d, lambda a, b, t: 'UREM(%s, %s, %d)' % (a, b, t.a))
    def i_sdiv(self, p, d, lb): return self.arith(p, d, lambda a, b, t: 'SDIV(%s, %s, %d)' % (a, b, t.a))
    def i_srem(self, p, d, lb): return self.arith(p, d, lambda a, b, t: 'SREM(%s, %s, %d)' % (a, b, t.a))
    def i_fadd(self, p, d, lb): return self.arith(p, d, lambda a, b, t: '%s + %s' % (a, b))
    def i_fsub(self, p, d, lb): return self.arith(p, d, lambda a, b, t: '%s - %s' % (a, b))
    def i_fmul(self, p, d, lb): return self.arith(p, d, lambda a, b, t: '%s * %s' % (a, b))
    def i_fdiv(self, p, d, lb): return self.arith(p, d, lambda a, b, t: 'FDIV(%s, %s)' % (a, b))
    def i_fneg(self, p, d, lb):
        t = p.type(); a = self.value(p, t)
        return ['%s = FNEG(%s)' % (d, a)]

    ICMP = {'eq': '%s == %s', 'ne': '%s != %s', 'ult': '%s < %s', 'ugt': '%s > %s', 'ule': '%s <= %s', 'uge': '%s >= %s'}
    def i_icmp(self, p, d, lb):
        p.eat('samesign')
        pr = p.next()
        t, a, b = self.bin(p)
        def f(a, b, t):
            w = t.a if t.k == 'i' else 64
            if pr in self.ICMP: return self.ICMP[pr] % (a, b)
            if pr == 'slt': return 'SLT(%s, %s, %d)' % (a, b, w)
            if pr == 'sgt': return 'SLT(%s, %s, %d)' % (b, a, w)
            if pr == 'sle': return 'NOT1(SLT(%s, %s, %d))' % (b, a, w)
            if pr == 'sge': return 'NOT1(SLT(%s, %s, %d))' % (a, b, w)
            raise IRError(pr)
        if t.k == 'v':
            return self.vecop(d, t, f, a, b)
        return ['%s = %s' % (d, f(a, b, t))]

    def i_fcmp(self, p, d, lb):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
        pr = p.next()
        if pr in ('true', 'false'):
            return ['%s = %d' % (d, pr == 'true')]
        t, a, b = self.bin(p)
        f = lambda a, b, t: 'FCMP(%r, %s, %s)' % (pr, a, b)
        if t.k == 'v':
            return self.vecop(d, t, f, a, b)
        return ['%s = %s' % (d, f(a, b, t))]

    def cast(self, p):
        while p.peek() in ('nuw', 'nsw', 'nneg', 'samesign', 'fast', 'nnan', 'ninf', 'nsz'): p.next()
        t = p.type(); a = self.value(p, t); p.need('to'); t2 = p.type()
        return t, a, t2

    def castop(self, p, d, f):
        t, a, t2 = self.cast(p)
        if t.k == 'v' and t2.k == 'v':
            return ['%s = tuple(%s for _x in %s)' % (d, f('_x', t.b, t2.b), a)]
        return ['%s = %s' % (d, f(a, t, t2))]

    def i_trunc(self, p, d, lb): return self.castop(p, d, lambda a, t, u: 'TRUNC(%s, %d)' % (a, u.a))
    def i_zext(self, p, d, lb): return self.castop(p, d, lambda a, t, u: 'ZEXT(%s, %d, %d)' % (a, t.a, u.a))
    def i_sext(self, p, d, lb): return self.castop(p, d, lambda a, t, u: 'SEXT(%s, %d, %d)' % (a, t.a, u.a))
    def i_ptrtoint(self, p, d, lb): return self.castop(p, d, lambda a, t, u: a if u.a == 64 else 'TRUNC(%s, %d)' % (a, u.a))
    def i_ptrtoaddr(self, p, d, lb): return self.i_ptrtoint(p, d, lb)
    def i_inttoptr(self, p, d, lb): return self.castop(p, d, lambda a, t, u: a)
    def i_uitofp(self, p, d, lb): return self.castop(p, d, lambda a, t, u: 'UITOFP(%s, %d)' % (a, t.a))
    def i_sitofp(self, p, d, lb): return self.castop(p, d, lambda a, t, u: 'SITOFP(%s, %d)' % (a, t.a))
    def i_fptoui(self, p, d, lb): return self.castop(p, d, lambda a, t, u: 'FPTOUI(%s, %d)' % (a, u.a))
    def i_fptosi(self, p, d, lb): return self.castop(p, d, lambda a, t, u: 'FPTOSI(%s, %d)' % (a, u.a))
    def i_fpext(self, p, d, lb): return self.castop(p, d, lambda a, t, u: a)
    def i_fptrunc(self, p, d, lb): return self.castop(p, d, lambda a, t, u: 'FPTRUNC(%s)' % a)
    def i_bitcast(self, p, d, lb):
        t, a, u = self.cast(p)
        if t.k == u.k == 'ptr' or (t.k == u.k == 'i'): return ['%s = %s' % (d, a)]
        if t.k == 'double' and u.k == 'i': return ['%s = TOBITS(%s)' % (d, a)]
        if t.k == 'i' and u.k == 'double': return ['%s = FROMBITS(%s)' % (d, a)]
        ta, tb = self.tyc(t), self.tyc(u)
        return ['%s = BITCAST(%s, %s, %s)' % (d, a, ta, tb)]

    def i_freeze(self, p, d, lb):
        t = p.type()
        return ['%s = %s' % (d, self.value(p, t))]

    def i_select(self, p, d, lb):
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'): p.next()
        ct = p.type(); c = self.value(p, ct); p.need(','); t = p.type(); a = self.value(p, t); p.need(','); t2 = p.type(); b = self.value(p, t2)
        if ct.k == 'v':
            return ['%s = tuple(SELI(_c, _x, _y, 64) for _c, _x, _y in zip(%s, %s, %s))' % (d, c, a, b)]
        if t.k == 'i':
            return ['%s = SELI(%s, %s, %s, %d)' % (d, c, a, b, t.a)]
        return ['%s = %s if %s else %s' % (d, a, c, b)]

    def i_extractvalue(self, p, d, lb):
        t = p.type(); a = self.value(p, t)
        e = a
        while p.eat(','):
            e += '[%s]' % p.next()
        return ['%s = %s' % (d, e)]

    def i_insertvalue(self, p, d, lb):
        t = p.type(); a = self.value(p, t); p.need(','); et = p.type(); v = self.value(p, et)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()))
        return ['%s = INSERT(%s, %r, %s)' % (d, a, tuple(idx), v)]

    def i_extractelement(self, p, d, lb):
        t = p.type(); a = self.value(p, t); p.need(','); it = p.type(); i = self.value(p, it)
        return ['%s = %s[%s]' % (d, a, i)]

    def i_insertelement(self, p, d, lb):
        t = p.type(); a = self.value(p, t); p.need(','); et = p.type(); v = self.value(p, et); p.need(','); it = p.type(); i = self.value(p, it)
        return ['%s = INSERT(%s, (%s,), %s)' % (d, a, i, v)]

    def i_shufflevector(self, p, d, lb):
        t = p.type(); a = self.value(p, t); p.need(','); t2 = p.type(); b = self.value(p, t2); p.need(',')
        mt = p.type(); m = self.mod.const(p, mt)
        return ['%s = tuple((tuple(%s) + tuple(%s))[_i] for _i in %r)' % (d, a, b, m)]

    def i_fence(self, p, d, lb): return None

    def i_atomicrmw(self, p, d, lb):
        p.eat('volatile')
        op = p.next(); p.type(); a = self.value(p, PTR); p.need(','); t = p.type(); v = self.value(p, t)
        n = 64 if t.k == 'ptr' else t.a
        return ['%s = RMW(%r, %s, %s, %d)' % (d, op, a, v, n)]

    def i_cmpxchg(self, p, d, lb):
        p.eat('weak'); p.eat('volatile')
        p.type(); a = self.value(p, PTR); p.need(','); t = p.type(); e = self.value(p, t); p.need(','); t = p.type(); v = self.value(p, t)
        n = 64 if t.k == 'ptr' else t.a
        return ['%s = CMPXCHG(%s, %s, %s, %d)' % (d, a, e, v, n)]

    def i_landingpad(self, p, d, lb):
        return ['UNREACHABLE("landingpad")']
    def i_resume(self, p, d, lb):
        return ['UNREACHABLE("resume")']
    def i_cleanupret(self, p, d, lb):
        return ['UNREACHABLE("cleanupret")']

    def call(self, p, d):
        # [fast-math] [cc] [ret attrs] ty [fnty] callee(args)
        while p.peek() in ('fastcc', 'ccc', 'coldcc', 'cc', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'preserve_allcc', 'preserve_mostcc'):
            p.next()
        p.attrs()
        rt = p.type()
        if p.peek() == '(':   # function type with varargs
            p.skip_paren()
        x = p.next()
        if x == 'asm':
            while p.peek() in ('sideeffect', 'inteldialect', 'alignstack', 'unwind'): p.next()
            s = p.next(); p.need(','); c = p.next()
            args = self.args(p)
            return '%sASM(%r, %r, (%s))' % ('%s = ' % d if d else '', s, c, ''.join(a + ', ' for a, _ in args)), rt
        args = self.args(p)
        if x[0] == '@':
            nm = unq(x)
            if nm.startswith('@llvm.'):
                e = self.intrinsic(nm, args, rt)
                if e is None:
                    return None, rt
            else:
                e = '%s(%s)' % (self.callee(nm), ', '.join(a for a, _ in args))
        else:
            if x[0] == '%':
                f = self.loc(x)
            else:
                p.i -= 1
                f = None
                raise IRError('callee %r' % x)
            e = 'ICALL(%s, %s)' % (f, '(' + ''.join(a + ', ' for a, _ in args) + ')')
        return ('%s = %s' % (d, e)) if d else e, rt

    def args(self, p):
        p.need('(')
        out = []
        if p.eat(')'):
            return out
        while True:
            t = p.type()
            if t is META:
                d = 0
                while not (d == 0 and p.peek() in (',', ')')):
                    y = p.next()
                    if y in '({[': d += 1
                    elif y in ')}]': d -= 1
                out.append(('None', t))
            else:
                p.attrs()
                out.append((self.value(p, t), t))
            if p.eat(')'):
                return out
            p.need(',')

    def i_call(self, p, d, lb):
        e, rt = self.call(p, d)
        return [e] if e else None

    def i_invoke(self, p, d, lb):
        e, rt = self.call(p, d)
        while p.peek() != 'to':
            p.next()
        p.need('to'); p.need('label'); ok = unq(p.next())[1:]
        return ([e] if e else []) + self.jump(lb, ok)

    def intrinsic(self, nm, args, rt):
        n = nm[6:]
        a = [x for x, _ in args]
        if n.startswith(('lifetime', 'assume', 'experimental.noalias', 'dbg', 'invariant', 'prefetch', 'donothing', 'x86.sse2.pause')):
            return None
        if n.startswith('memcpy') or n.startswith('memmove'):
            return 'MEMCPY(%s, %s, %s)' % (a[0], a[1], a[2])
        if n.startswith('memset'):
            return 'MEMSET(%s, %s, %s)' % (a[0], a[1], a[2])
        m = re.match(r'^([a-z0-9.]+?)\.(?:v(\d+))?(i\d+|f\d+|p0)', n)
        if n.startswith(('trap', 'debugtrap')): return 'TRAP()'
        t = args[0][1]
        w = t.a if t.k == 'i' else 64
        base = n.split('.')[0]
        if n.startswith(('umul.with', 'uadd.with', 'usub.with', 'smul.with', 'sadd.with', 'ssub.with')):
            return 'OVF(%r, %s, %s, %d)' % (base, a[0], a[1], w)
        if n.startswith(('umin', 'umax', 'smin', 'smax', 'usub.sat', 'uadd.sat', 'ssub.sat', 'sadd.sat')):
            op = '.'.join(n.split('.')[:-1])
            if t.k == 'v':
                return 'tuple(MINMAX(%r, _x, _y, %d) for _x, _y in zip(%s, %s))' % (op.split('.v')[0], t.b.a, a[0], a[1])
            return 'MINMAX(%r, %s, %s, %d)' % (op, a[0], a[1], w)
        if base in ('ctlz', 'cttz', 'ctpop', 'bswap', 'bitreverse'):
            return 'BITOP(%r, %s, %d)' % (base, a[0], w)
        if base in ('fshl', 'fshr'):
            return 'FSH(%r, %s, %s, %s, %d)' % (base, a[0], a[1], a[2], w)
        if base in ('minimumnum', 'minnum'):
            return 'FMIN(%s, %s)' % (a[0], a[1])
        if base in ('maximumnum', 'maxnum'):
            return 'FMAX(%s, %s)' % (a[0], a[1])
        if base == 'fabs': return 'FABS(%s)' % a[0]
        if base in ('sqrt', 'sin', 'cos', 'exp', 'log', 'floor', 'ceil', 'trunc', 'round', 'rint', 'exp2', 'log10', 'log2', 'roundeven', 'tan'):
            return 'FUN1(%r, %s)' % (base, a[0])
        if base == 'pow': return 'FPOW(%s, %s)' % (a[0], a[1])
        if base == 'powi': return 'FPOWI(%s, %s)' % (a[0], a[1])
        if base in ('fma', 'fmuladd'): return 'FMA(%s, %s, %s)' % (a[0], a[1], a[2])
        if base == 'copysign': return 'COPYSIGN(%s, %s)' % (a[0], a[1])
        if base == 'abs': return 'IABS(%s, %d)' % (a[0], w)
        if base in ('ucmp', 'scmp'): return 'CMP3(%r, %s, %s, %d, %d)' % (base, a[0], a[1], w, rt.a)
        if n.startswith('is.constant'): return '0'
        if n.startswith('expect'): return a[0]
        if n.startswith('threadlocal.address'): return a[0]
        if n.startswith('trap') or n.startswith('debugtrap'): return 'TRAP()'
        if n.startswith('is.fpclass'): return 'FPCLASS(%s, %s)' % (a[0], a[1])
        if n.startswith('vector.reduce'):
            return 'VREDUCE(%r, %s)' % (n, a[0])
        if n.startswith('fptoui.sat'): return 'FPTOUISAT(%s, %d)' % (a[0], rt.a)
        if n.startswith('fptosi.sat'): return 'FPTOSISAT(%s, %d)' % (a[0], rt.a)
        if n.startswith('ptrmask'): return '%s & %s' % (a[0], a[1])
        if n.startswith('stacksave'): return '0'
        if n.startswith('stackrestore'): return None
        if n.startswith('load.relative'): raise IRError(nm)
        raise IRError('intrinsic ' + nm)
