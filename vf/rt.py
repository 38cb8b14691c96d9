"""Runtime of the symbolic executor: memory, builtins, externals, path exploration by
deterministic re-execution with a recorded decision prefix."""
import re
import struct
import time
from . import terms as T
from . import ir
from .ir import IRError

M64 = (1 << 64) - 1


class PathEnd(Exception):
    """the path ended abnormally (panic, abort, memory error)"""
    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class Infeasible(Exception):
    pass


class Budget(Exception):
    pass


# models of library functions: (regex, factory(rt, name) -> function)
MODELS = []
INSTALL = []


class Obj:
    __slots__ = ('data', 'sym', 'size', 'const')
    def __init__(self, n, const=False):
        self.data = bytearray(n)
        self.sym = None
        self.size = n
        self.const = const


PANIC = re.compile(r'^@(_RNv[A-Za-z0-9_]*?(4core9panicking|5alloc7raw_vec17capacity_overflow|5alloc5alloc18handle_alloc_error|4core6option13(?:unwrap|expect)_failed|4core6result13unwrap_failed|4core4cell22panic_already|3std9panicking|4core5slice5index\w*fail|4core3str16slice_error_fail))|^@_R\w*(rust_begin_unwind|__rust_alloc_error_handler|slice_index_fail|handle_alloc_error|handle_error)|^@rust_begin_unwind|^@rust_panic')


class Runtime:
    def __init__(self, path):
        self.objs = {}
        self.next_id = 16
        self.env = {}
        self.n_compiled = 0
        self.pristine = {}
        self.base_objs = {}
        self.base_next = None
        self.called = set()
        self.steps = 0
        self.max_steps = 3_000_000
        self.ext = {}
        self.ex = None          # the Explorer
        self.make_env()
        self.mod = None
        self.overrides = []     # (regex, function)
        self._ov = {}
        self.overrides += MODELS
        ir.Module(path, self)

    # ------------------------------------------------------------ globals
    def new_global(self, n, name, const):
        i = self.next_id
        self.next_id += 1
        o = Obj(n, const)
        self.objs[i] = o
        return i

    def global_done(self, i):
        o = self.objs[i]
        self.base_objs[i] = o
        if not o.const:
            self.pristine[i] = bytes(o.data)

    def reset(self):
        # ids of globals are stable; everything else is dropped
        self.objs.clear()
        self.objs.update(self.base_objs)
        for i, d in self.pristine.items():
            o = self.objs[i]
            o.data[:] = d
            o.sym = None
        self.heap_next = 1 << 24
        self.steps = 0

    # ------------------------------------------------------------ overrides
    def override(self, name):
        if name in self._ov:
            return self._ov[name]
        r = self.ext.get(name[1:])
        if r is None:
            for rx, f in self.overrides:
                if rx.search(name):
                    r = f(self, name) if getattr(f, '_factory', False) else f
                    break
        if r is None and PANIC.search(name):
            def r(*a, _n=name):
                raise PathEnd('panic', demangle(_n))
        self._ov[name] = r
        return r

    # ------------------------------------------------------------ memory
    def make_env(self):
        rt = self
        objs = self.objs
        E = self.env
        unpack_d = struct.Struct('<d').unpack_from
        pack_d = struct.Struct('<d').pack_into
        unpack_q = struct.Struct('<Q').unpack_from
        pack_q = struct.Struct('<Q').pack_into

        def bad(a, n, what):
            if a < 4096:
                raise PathEnd('memory', '%s of %d bytes through null pointer' % (what, n))
            o = objs.get(a >> 32)
            raise PathEnd('memory', '%s of %d bytes at offset %d of object %d (size %s)' % (what, n, a & 0xFFFFFFFF, a >> 32, o.size if o else 'freed/unknown'))

        def conc(a):
            return rt.ex.concretize(a)
        self.conc = conc

        def LD8(a):
            if a.__class__ is not int: a = conc(a)
            o = objs.get(a >> 32)
            f = a & 0xFFFFFFFF
            if o is None or f + 8 > o.size: bad(a, 8, 'read')
            if o.sym:
                return loadsym(o, f, 8)
            return unpack_q(o.data, f)[0]

        def LDD(a):
            if a.__class__ is not int: a = conc(a)
            o = objs.get(a >> 32)
            f = a & 0xFFFFFFFF
            if o is None or f + 8 > o.size: bad(a, 8, 'read')
            if o.sym:
                e = o.sym.get(f)
                if e is not None and e[1] == 8:
                    return e[0] if e[0].__class__ is T.FTerm else T.from_bits(e[0])
                return T.from_bits(loadsym(o, f, 8))
            return unpack_d(o.data, f)[0]

        def LDN(a, n, w):
            if a.__class__ is not int: a = conc(a)
            o = objs.get(a >> 32)
            f = a & 0xFFFFFFFF
            if o is None or f + n > o.size: bad(a, n, 'read')
            if o.sym:
                v = loadsym(o, f, n)
                return T.extract(v, 0, w) if w != 8 * n else v
            v = int.from_bytes(o.data[f:f + n], 'little')
            return v if w == 8 * n else v & T.M[w]

        def LD1(a):
            if a.__class__ is not int: a = conc(a)
            o = objs.get(a >> 32)
            f = a & 0xFFFFFFFF
            if o is None or f >= o.size: bad(a, 1, 'read')
            if o.sym:
                return loadsym(o, f, 1)
            return o.data[f]

        def LDB(a):
            return T.trunc(LD1(a), 1)

        def loadsym(o, f, n):
            e = o.sym.get(f)
            if e is not None and e[1] == n:
                return T.to_bits(e[0]) if e[0].__class__ is T.FTerm else e[0]
            # assemble
            r = None; rw = 0
            i = f
            end = f + n
            while i < end:
                s = find(o, i)
                if s is None:
                    v = o.data[i]; k = 1
                else:
                    t, tn = o.sym[s]
                    if t.__class__ is T.FTerm: t = T.to_bits(t)
                    k = min(s + tn, end) - i
                    v = T.extract(t, 8 * (i - s), 8 * k)
                if r is None:
                    r, rw = v, 8 * k
                else:
                    r = T.concat(v, 8 * k, r, rw); rw += 8 * k
                i += k
            return r

        def find(o, i):
            sym = o.sym
            for s in range(i, i - 16, -1):
                e = sym.get(s)
                if e is not None:
                    return s if s + e[1] > i else None
            return None

        def clear(o, f, n):
            """remove symbolic content of [f, f+n), keeping pieces outside"""
            sym = o.sym
            if n > 64 and len(sym) < n:
                ks = [s for s in sym if s < f + n and s + sym[s][1] > f]
            else:
                ks = [s for s in range(f - 15, f + n) if s in sym and s + sym[s][1] > f]
            for s in ks:
                t, tn = sym.pop(s)
                if s >= f and s + tn <= f + n:
                    continue
                if t.__class__ is T.FTerm: t = T.to_bits(t)
                for b in range(tn):
                    if not (f <= s + b < f + n):
                        x = T.extract(t, 8 * b, 8)
                        if T.is_t(x): sym[s + b] = (x, 1)
                        else: o.data[s + b] = x

        def target(a, n):
            if a.__class__ is not int: a = conc(a)
            o = objs.get(a >> 32)
            f = a & 0xFFFFFFFF
            if o is None or f + n > o.size: bad(a, n, 'write')
            if o.const: raise PathEnd('memory', 'write to constant')
            return o, f

        def ST8(a, v):
            if a.__class__ is not int: a = conc(a)
            o = objs.get(a >> 32)
            f = a & 0xFFFFFFFF
            if o is None or f + 8 > o.size: bad(a, 8, 'write')
            if o.sym: clear(o, f, 8)
            if v.__class__ is int:
                pack_q(o.data, f, v)
            elif v.__class__ is bool:
                pack_q(o.data, f, int(v))
            else:
                if o.sym is None: o.sym = {}
                o.sym[f] = (v, 8)

        def STD(a, v):
            if a.__class__ is not int: a = conc(a)
            o = objs.get(a >> 32)
            f = a & 0xFFFFFFFF
            if o is None or f + 8 > o.size: bad(a, 8, 'write')
            if o.sym: clear(o, f, 8)
            if v.__class__ is float:
                pack_d(o.data, f, v)
            else:
                if o.sym is None: o.sym = {}
                o.sym[f] = (v, 8)

        def STN(a, v, n, w):
            o, f = target(a, n)
            if o.sym: clear(o, f, n)
            if isinstance(v, T.Term):
                if w != 8 * n:
                    v = T.zext(v, w, 8 * n)
                if o.sym is None: o.sym = {}
                o.sym[f] = (v, n)
            else:
                o.data[f:f + n] = int(v).to_bytes(n, 'little')

        def LDAGG(a, t):
            if t.k == 'v':
                n = ir.size(t)
                w = t.a * (t.b.a if t.b.k == 'i' else 64)
                return ir.vec_unbits(LDN(a, n, w), t)
            if t.k == 's':
                ir.layout(t)
                return tuple(ldt(a + o, e) for o, e in zip(t.offs, t.a))
            sz = ir.size(t.b)
            return tuple(ldt(a + i * sz, t.b) for i in range(t.a))

        def ldt(a, t):
            if t.k == 'ptr': return LD8(a)
            if t.k == 'double': return LDD(a)
            if t.k == 'i': return LDN(a, (t.a + 7) // 8, t.a)
            return LDAGG(a, t)

        def STAGG(a, v, t):
            if t.k == 'v':
                n = ir.size(t)
                STN(a, ir.vec_bits(v, t), n, t.a * (t.b.a if t.b.k == 'i' else 64))
                return
            if t.k == 's':
                ir.layout(t)
                for o, e, x in zip(t.offs, t.a, v): stt(a + o, x, e)
                return
            sz = ir.size(t.b)
            for i in range(t.a): stt(a + i * sz, v[i], t.b)

        def stt(a, v, t):
            if t.k == 'ptr': ST8(a, v)
            elif t.k == 'double': STD(a, v)
            elif t.k == 'i': STN(a, v, (t.a + 7) // 8, t.a)
            else: STAGG(a, v, t)

        def LDF(a):
            return struct.unpack('<f', struct.pack('<I', LDN(a, 4, 32)))[0]

        def STF(a, v):
            STN(a, struct.unpack('<I', struct.pack('<f', v))[0], 4, 32)

        def MEMCPY(d, s, n):
            if n.__class__ is not int: n = conc(n)
            if n == 0: return
            if s.__class__ is not int: s = conc(s)
            so = objs.get(s >> 32); sf = s & 0xFFFFFFFF
            if so is None or sf + n > so.size: bad(s, n, 'read')
            do, df = target(d, n)
            ents = None
            if so.sym:
                ents = []
                for k, (t, tn) in list(so.sym.items()):
                    if k >= sf and k + tn <= sf + n:
                        ents.append((k - sf, t, tn))
                    elif k < sf + n and k + tn > sf:
                        if t.__class__ is T.FTerm: t = T.to_bits(t)
                        for b in range(tn):
                            if sf <= k + b < sf + n:
                                ents.append((k + b - sf, T.extract(t, 8 * b, 8), 1))
            chunk = so.data[sf:sf + n]
            if do.sym: clear(do, df, n)
            do.data[df:df + n] = chunk
            if ents:
                if do.sym is None: do.sym = {}
                for o, t, tn in ents:
                    if T.is_t(t): do.sym[df + o] = (t, tn)
                    else: do.data[df + o] = t

        def MEMSET(d, v, n):
            if n.__class__ is not int: n = conc(n)
            if n == 0: return
            do, df = target(d, n)
            if do.sym: clear(do, df, n)
            if T.is_t(v):
                if do.sym is None: do.sym = {}
                for i in range(n): do.sym[df + i] = (v, 1)
            else:
                do.data[df:df + n] = bytes([v & 255]) * n

        def ALLOCA(n):
            i = rt.heap_next
            rt.heap_next = i + 1
            objs[i] = Obj(n)
            return i << 32

        def FREEA(a):
            objs.pop(a >> 32, None)

        def STEP(name):
            rt.called.add(name)
            rt.steps += 1
            if rt.steps > rt.max_steps:
                raise Budget('step budget')

        def UNREACHABLE(n):
            raise PathEnd('unreachable', demangle(n))

        def ICALL(f, args):
            if f.__class__ is not int: f = conc(f)
            n = rt.mod.addr2f.get(f)
            if n is None:
                raise PathEnd('memory', 'indirect call to %x' % f)
            return rt.mod.fn(n)(*args)

        def SHL(a, b, w):
            if a.__class__ is int and b.__class__ is int:
                return (a << b) & T.M[w] if b < w else 0
            if T.is_t(a): return T.bshl(a, b)
            return T.mk(T.ITerm, 'shl', w, int(a), b)

        def SELI(c, a, b, w):
            if isinstance(c, T.Term):
                if w > 64 : return a if c else b
                return T.ite(c, a, b, w)
            return a if c else b

        def INSERT(a, idx, v):
            l = list(a)
            if len(idx) == 1:
                l[idx[0]] = v
            else:
                l[idx[0]] = INSERT(l[idx[0]], idx[1:], v)
            return tuple(l)

        def RMW(op, a, v, w):
            n = w // 8
            old = LDN(a, n, w)
            if op == 'xchg': r = v
            elif op == 'add': r = (old + v) & T.M[w]
            elif op == 'sub': r = (old - v) & T.M[w]
            elif op == 'and': r = old & v
            elif op == 'or': r = old | v
            elif op == 'xor': r = old ^ v
            elif op == 'umax': r = max(old, v)
            elif op == 'umin': r = min(old, v)
            else: raise IRError('rmw ' + op)
            STN(a, r, n, w)
            return old

        def CMPXCHG(a, e, v, w):
            n = w // 8
            old = LDN(a, n, w)
            if old == e:
                STN(a, v, n, w)
                return (old, 1)
            return (old, 0)

        def OVF(op, a, b, w):
            m = T.M[w]
            if not T.is_t(a) and not T.is_t(b):
                if op[0] == 'u':
                    r = a * b if op == 'umul' else a + b if op == 'uadd' else a - b
                    return (r & m, not 0 <= r <= m)
                x, y = T._sgn(a, w), T._sgn(b, w)
                r = x * y if op == 'smul' else x + y if op == 'sadd' else x - y
                return (r & m, not -(1 << (w - 1)) <= r < (1 << (w - 1)))
            if op == 'uadd':
                r = (a + b) & m
                return (r, T.ult(r, a))
            if op == 'usub':
                return ((a - b) & m, T.ult(a, b))
            if op == 'umul':
                z = T.mk(T.ITerm, 'umulo', 1, a, b)
                return ((a * b) & m, z)
            raise IRError('ovf symbolic ' + op)

        def MINMAX(op, a, b, w):
            if not T.is_t(a) and not T.is_t(b):
                if op == 'umin': return min(a, b)
                if op == 'umax': return max(a, b)
                if op == 'usub.sat': return max(a - b, 0)
                if op == 'uadd.sat': return min(a + b, T.M[w])
                x, y = T._sgn(a, w), T._sgn(b, w)
                if op == 'smin': return min(x, y) & T.M[w]
                if op == 'smax': return max(x, y) & T.M[w]
                lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
                r = x - y if op == 'ssub.sat' else x + y
                return max(lo, min(hi, r)) & T.M[w]
            if op == 'umin': return T.ite(T.ult(a, b), a, b, w)
            if op == 'umax': return T.ite(T.ult(a, b), b, a, w)
            if op == 'smin': return T.ite(T.slt(a, b, w), a, b, w)
            if op == 'smax': return T.ite(T.slt(a, b, w), b, a, w)
            if op == 'usub.sat': return T.ite(T.ult(a, b), 0, (a - b) & T.M[w], w)
            if op == 'uadd.sat':
                r = (a + b) & T.M[w]
                return T.ite(T.ult(r, a), T.M[w], r, w)
            raise IRError(op)

        def BITOP(op, a, w):
            if T.is_t(a):
                if op == 'bswap':
                    r = None; rw = 0
                    for i in range(w // 8):
                        b = T.extract(a, w - 8 - 8 * i, 8)
                        if r is None: r, rw = b, 8
                        else: r = T.concat(b, 8, r, rw); rw += 8
                    return r
                a = conc(a)
            if op == 'ctpop': return bin(a).count('1')
            if op == 'ctlz': return w - a.bit_length()
            if op == 'cttz': return w if a == 0 else (a & -a).bit_length() - 1
            if op == 'bswap': return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
            if op == 'bitreverse': return int(bin(a)[2:].zfill(w)[::-1], 2)

        def FSH(op, a, b, c, w):
            c = conc(c) % w
            if not T.is_t(a) and not T.is_t(b):
                v = (a << w) | b
                return (v >> (w - c)) & T.M[w] if op == 'fshl' else (v >> c) & T.M[w]
            if c == 0: return a if op == 'fshl' else b
            k = w - c if op == 'fshl' else c
            return T.concat(T.extract(a, 0, k), k, T.extract(b, k, w - k), w - k)

        def IABS(a, w):
            if T.is_t(a): raise IRError('abs symbolic')
            x = T._sgn(a, w)
            return abs(x) & T.M[w]

        def CMP3(op, a, b, w, rw):
            if T.is_t(a) or T.is_t(b):
                lt = T.ult(a, b) if op == 'ucmp' else T.slt(a, b, w)
                return T.ite(lt, T.M[rw], T.ite(T.eq(a, b), 0, 1, rw), rw)
            if op == 'scmp': a, b = T._sgn(a, w), T._sgn(b, w)
            return T.M[rw] if a < b else (1 if a > b else 0)

        def UITOFP(a, w):
            if T.is_t(a):
                return T.mk(T.FTerm, 'uitofp', 64, a)
            return float(int(a))

        def SITOFP(a, w):
            if T.is_t(a):
                return T.mk(T.FTerm, 'sitofp', 64, a)
            return float(T._sgn(int(a), w))

        def FPTOUI(a, w):
            if T.is_t(a): raise IRError('fptoui symbolic')
            return int(a) & T.M[w]

        def FPTOUISAT(a, w):
            if T.is_t(a): raise IRError('fptoui symbolic')
            if a != a or a <= 0: return 0
            return min(int(a), T.M[w]) if a != T.INF else T.M[w]

        def FPTOSISAT(a, w):
            if T.is_t(a): raise IRError('fptosi symbolic')
            if a != a: return 0
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
            if a == T.INF: return hi
            if a == -T.INF: return lo & T.M[w]
            return max(lo, min(hi, int(a))) & T.M[w]

        def FPTRUNC(a):
            return struct.unpack('<f', struct.pack('<f', a))[0]

        import math
        PYF = {'sqrt': T.csqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
               'exp': lambda x: math.exp(x) if x < 709.7 else T.INF, 'log': lambda x: math.log(x),
               'exp2': lambda x: 2.0 ** x, 'log10': math.log10, 'log2': math.log2,
               'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)), 'trunc': lambda x: float(math.trunc(x)),
               'round': lambda x: float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1), 'rint': lambda x: float(round(x)), 'roundeven': lambda x: float(round(x))}

        def FUN1(n, a):
            return T.fun1(n, a, PYF[n])

        def FPOWI(a, n):
            if T.is_t(n): n = conc(n)
            n = T._sgn(n & 0xFFFFFFFF, 32)
            r = 1.0
            for _ in range(abs(n)): r = r * a
            return r if n >= 0 else T.fdiv(1.0, r)

        def COPYSIGN(a, b):
            if T.is_t(a) or T.is_t(b):
                m = T.to_bits(T.fabs(a)); s = T.to_bits(b)
                return T.from_bits((m & (M64 >> 1)) | (s & (1 << 63)))
            return math.copysign(a, b)

        def FMA(a, b, c):
            return a * b + c

        def FPCLASS(a, mask):
            if T.is_t(a) and REAL[0] is not None:
                k = _sign(a)
                return bool(mask & (64 if k == 0 else 256 if k > 0 else 8))
            if T.is_t(a): a = T.to_bits(a)
            else: a = T.fbits_of(a)
            # classes: 1 snan 2 qnan 4 -inf 8 -normal 16 -sub 32 -0 64 +0 128 +sub 256 +norm 512 +inf
            s = T.extract(a, 63, 1); e = T.extract(a, 52, 11); f = T.extract(a, 0, 52)
            sg = bool(s == 1)
            if e == 0x7FF:
                if f == 0: c = 4 if sg else 512
                else: c = 2 if T.extract(f, 51, 1) == 1 else 1
            elif e == 0:
                if f == 0: c = 32 if sg else 64
                else: c = 16 if sg else 128
            else: c = 8 if sg else 256
            return bool(mask & c)

        def BITCAST(v, ta, tb):
            if ta.k == 'v': v = ir.vec_bits(v, ta)
            elif ta.k == 'double': v = T.to_bits(v)
            if tb.k == 'v': return ir.vec_unbits(v, tb)
            if tb.k == 'double': return T.from_bits(v)
            return v

        def ASM(s, c, args):
            if 'cpuid' in s: return (0, 0, 0, 0)
            if s in ('""',): return args[0] if args else None
            raise IRError('asm ' + s)

        def VREDUCE(n, a):
            op = n.split('.')[3]
            r = a[0]
            for x in a[1:]:
                if op == 'or': r = r | x
                elif op == 'and': r = r & x
                elif op == 'add': r = r + x
                else: raise IRError(n)
            return r

        def TRAP():
            raise PathEnd('trap', 'llvm.trap')

        E.update(locals())
        del E['rt'], E['self'], E['E']
        E.update(TRUNC=T.trunc, ZEXT=T.zext, SEXT=T.sext, SLT=lambda a, b, w: T.slt(a, b, w), NOT1=T.bnot1, UDIV=T.udiv, UREM=T.urem,
                 SDIV=T.sdiv, SREM=T.srem, ASHR=T.bashr, FDIV=lambda a, b: T.fdiv(a, b), FNEG=T.fneg, FCMP=lambda p, a, b: T.fcmp(p, a, b), FABS=T.fabs,
                 FMIN=T.fminnum, FMAX=T.fmaxnum, FPOW=lambda a, b: T.fpow(a, b), TOBITS=T.to_bits, FROMBITS=T.from_bits)
        self.make_ext()
        for f in INSTALL: f(self)

    def read_bytes(self, a, n):
        """concrete bytes, or a list with terms"""
        if a.__class__ is not int: a = self.conc(a)
        if n.__class__ is not int: n = self.conc(n)
        if n == 0: return b''
        o = self.objs[a >> 32]
        f = a & 0xFFFFFFFF
        if f + n > o.size: raise PathEnd('memory', 'read_bytes')
        if o.sym:
            l = [self.env['LD1'](a + i) for i in range(n)]
            if any(T.is_t(x) for x in l):
                return l
            return bytes(l)
        return bytes(o.data[f:f + n])

    def write_bytes(self, a, b):
        if not b: return
        o, f = self.env['target'](a, len(b))
        if o.sym: self.env['clear'](o, f, len(b))
        if isinstance(b, (bytes, bytearray)):
            o.data[f:f + len(b)] = b
        else:
            for i, x in enumerate(b):
                self.env['STN'](a + i, x, 1, 8)

    def cstring(self, a):
        out = bytearray()
        while True:
            c = self.env['LD1'](a + len(out))
            if T.is_t(c): c = self.conc(c)
            if c == 0: return bytes(out)
            out.append(c)

    # ------------------------------------------------------------ externals
    def make_ext(self):
        X = self.ext
        E = self.env
        rt = self
        MEMCPY, MEMSET = E['MEMCPY'], E['MEMSET']
        objs = self.objs

        def malloc(n):
            n = rt.conc(n)
            if n > 1 << 28:
                raise PathEnd('alloc', 'allocation of %d bytes' % n)
            i = rt.heap_next
            rt.heap_next = i + 1
            objs[i] = Obj(n)
            return i << 32
        def calloc(n, m):
            return malloc(rt.conc(n) * rt.conc(m))
        def free(a):
            if a == 0: return
            if a & 0xFFFFFFFF or (a >> 32) not in objs:
                raise PathEnd('memory', 'invalid or double free')
            del objs[a >> 32]
        def realloc(a, n):
            if a == 0: return malloc(n)
            n = rt.conc(n)
            o = objs[a >> 32]
            b = malloc(n)
            MEMCPY(b, a, min(n, o.size))
            free(a)
            return b
        def posix_memalign(pp, al, n):
            E['ST8'](pp, malloc(n))
            return 0
        def bcmp(a, b, n):
            x = rt.read_bytes(a, n); y = rt.read_bytes(b, n)
            if isinstance(x, bytes) and isinstance(y, bytes):
                return 0 if x == y else 1
            for p, q in zip(x, y):
                if not (p == q): return 1
            return 0
        def memcmp(a, b, n):
            x = rt.read_bytes(a, n); y = rt.read_bytes(b, n)
            for p, q in zip(x, y):
                if not (p == q):
                    return 0xFFFFFFFF if p < q else 1
            return 0
        def strlen(a):
            return len(rt.cstring(a))
        def memchr(a, c, n):
            b = rt.read_bytes(a, n)
            for i, x in enumerate(b):
                if x == (c & 255): return a + i
            return 0
        X.update(malloc=malloc, calloc=calloc, free=free, realloc=realloc, posix_memalign=posix_memalign, bcmp=bcmp,
                 memcmp=memcmp, strlen=strlen, memchr=memchr,
                 memcpy=lambda d, s, n: (MEMCPY(d, s, n), d)[1], memmove=lambda d, s, n: (MEMCPY(d, s, n), d)[1],
                 memset=lambda d, c, n: (MEMSET(d, c, n), d)[1])
        def abort():
            raise PathEnd('abort', 'abort()')
        X['abort'] = abort
        X['getenv'] = lambda p: 0

        def s_(p, n):
            b = rt.read_bytes(p, n)
            return b.decode('latin-1')
        def vf_f64(p, n):
            return rt.ex.input('f', s_(p, n))
        def vf_u64(p, n):
            return rt.ex.input('u', s_(p, n))
        def vf_out_f(v):
            rt.ex.output(v)
        def vf_out_u(v):
            rt.ex.output(v if T.is_t(v) else int(v))
        def vf_push(p, n):
            rt.ex.path.append(s_(p, n))
        def vf_push_i(i):
            rt.ex.path.append(str(i))
        def vf_pop():
            rt.ex.path.pop()
        def vf_user(c, t, ys, n):
            ys = [E['LDD'](ys + 8 * i) for i in range(n)]
            return rt.ex.user(c, t, ys)
        X.update(vf_f64=vf_f64, vf_u64=vf_u64, vf_out_f=vf_out_f, vf_out_u=vf_out_u, vf_push=vf_push, vf_push_i=vf_push_i, vf_pop=vf_pop, vf_user=vf_user)


def demangle(n):
    """rough demangling of a v0 symbol: the identifiers in it"""
    n = n.lstrip('@')
    out = []
    i = 0
    while i < len(n):
        m = re.match(r'(\d+)_?', n[i:])
        if m and not n[i - 1:i] in ('s',):
            k = int(m.group(1))
            j = i + len(m.group(1))
            w = n[j:j + k]
            if w.startswith('_') and re.match(r'_[a-zA-Z]', w): w = n[j + 1:j + 1 + k]; j += 1
            if 1 < k < 60 and re.match(r'^[A-Za-z_]\w*$', w) and len(w) == k:
                out.append(w)
                i = j + k
                continue
        i += 1
    return '::'.join(out[:12]) or n


class Path:
    def __init__(self):
        self.pc = []          # list of (cond term, bool)
        self.outs = {}
        self.order = []
        self.status = 'ok'
        self.msg = ''
        self.users = []
        self.steps = 0
        self.tokens, self.detok, self.tokvals = {}, {}, []

    def __repr__(self):
        return 'Path(%s %s, %d conds, %d outs)' % (self.status, self.msg, len(self.pc), len(self.outs))


class Explorer:
    """explores every feasible path of an entry point.

    oracle: object with  check(pc, extra) -> 'sat'/'unsat'/'unknown' and value(pc, term)
    """
    def __init__(self, rt, oracle, inputs, max_paths=2000, user=None, real=False, ite_min=False):
        self.rt = rt
        rt.ex = self
        self.oracle = oracle
        self.inputs_fn = inputs       # (kind, name) -> value (float/int/Term)
        self.max_paths = max_paths
        self.user_fn = user
        self.real = real
        self.n_decisions = 0
        self.n_checks = 0
        self.unknowns = 0

    # -- called by the runtime
    cut = None
    at_start = None
    token_style = 0
    finite = False      # float inputs are finite (True), or of one of the classes normal but no power of 2, power of 2, subnormal, zero
    split = None        # integer inputs with these names are 0 or 1, a path for each
    spec = None
    on_path = None
    deadline = None

    def input(self, kind, name):
        return self.input_full(kind, '.'.join(self.path + ([name] if name else [])))

    def input_full(self, kind, full):
        k = (kind, full)
        if k not in self.in_cache:
            v = self.in_cache[k] = self.inputs_fn(kind, full)
            if self.finite and T.is_t(v) and kind == 'f':
                cs = [T.fcmp('olt', v, T.INF), T.fcmp('olt', -T.INF, v)]
                e = T.to_bits(v) & 0x7ff0000000000000
                m = T.eq(T.to_bits(v) & 0xfffffffffffff, 0)
                if self.finite == 'normal': cs += [T.bnot1(T.eq(e, 0)), T.bnot1(m)]
                if self.finite == 'power': cs += [T.bnot1(T.eq(e, 0)), m]
                if self.finite == 'subnormal': cs += [T.eq(e, 0), T.bnot1(m)]
                if self.finite == 'zero': cs += [T.eq(e, 0), m]
                for c in cs:
                    if not T.is_t(c): continue
                    b = True
                    while c.op == 'not': c, b = c.args[0], not b
                    if c.id not in self.known:
                        self.known[c.id] = b
                        self.cur.pc.append((c, b))
            if self.split and T.is_t(v) and kind == 'u' and re.fullmatch(self.split, full):
                v = self.in_cache[k] = int(self.decide(T.eq(T.trunc(v, 1), 1)))
        return self.in_cache[k]

    def output(self, v):
        name = '.'.join(self.path)
        o = self.cur.outs
        if name in o:
            k = 1
            while '%s#%d' % (name, k) in o: k += 1
            name = '%s#%d' % (name, k)
        o[name] = v

    def user(self, c, t, ys):
        cut = self.cut
        if isinstance(cut, dict): cut = cut.get(self.path[0] if self.path else '')     # by run
        if cut is not None and len(self.cur.users) >= cut:
            raise PathEnd('cut', 'more than %d evaluations of the right-hand side' % cut)
        if self.user_fn is not None:
            r = self.user_fn(c, t, ys)
        else:
            r = T.fuf('f%d' % c, t, *ys)
        self.cur.users.append((c, t, ys, r))
        return r

    def decide(self, c):
        if not T.is_t(c):
            return bool(c)
        neg = False
        while c.op == 'not':
            c = c.args[0]; neg = not neg
            if not T.is_t(c): return bool(c) != neg
        k = self.known.get(c.id)
        if k is not None:
            return k != neg
        i = self.pos
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            self.n_decisions += 1
            st = self.oracle.feasible(self.cur.pc, c)   # (can_true, can_false)
            ct, cf = st
            if ct and cf:
                self.work.append(self.log + [False])
                v = True
            elif ct: v = True
            elif cf: v = False
            else:
                raise Infeasible()
        self.pos += 1
        self.log.append(v)
        self.known[c.id] = v
        self.cur.pc.append((c, v))
        return v != neg

    def concretize(self, t):
        if not T.is_t(t):
            return int(t)
        while True:
            i = self.pos
            if i < len(self.prefix):
                v = self.prefix[i][1]
            else:
                v = self.oracle.value(self.cur.pc, t)
                if v is None:
                    raise Infeasible()
            self.pos += 1
            self.log.append(('v', v))
            if self.decide(T.eq(t, v)):
                return v

    def explore(self, entry, args=()):
        self.work = [[]]
        paths = []
        T.DECIDE[0] = self.decide
        T.NONAN[0] = self.real
        REAL[0] = self if self.real else None
        rt = self.rt
        rt.ex = self
        fn = rt.mod.fn('@' + entry)
        while self.work:
            self.prefix = self.work.pop()
            self.pos = 0
            self.log = []
            self.known = {}
            self.path = []
            self.in_cache = {}
            self.cur = Path()
            rt.reset()
            self.oracle.begin()
            self.cur.claims = []
            self.cur.skipped = []
            try:
                if self.at_start is not None: self.at_start()
                fn(*args)
                if self.spec is not None:
                    cut, self.cut = self.cut, None
                    try:
                        self.spec(self.cur)
                    finally:
                        self.cut = cut
            except PathEnd as e:
                self.cur.status = e.kind
                self.cur.msg = e.msg
            except Infeasible:
                continue
            except Budget:
                self.cur.status = 'budget'
            self.cur.steps = rt.steps
            self.cur.inputs = self.in_cache
            if self.on_path is not None:
                paths.append(None)
                self.on_path(self.cur)
            else:
                paths.append(self.cur)
            if len(paths) >= self.max_paths and self.work:
                raise Budget('more than %d paths' % self.max_paths)
            if self.deadline is not None and time.time() > self.deadline:
                raise Budget('out of time')
        return paths


REAL = [None]


# ------------------------------------------------------------------ extended reals
# In real mode FTerms denote finite reals. Infinities and NaN stay concrete floats and
# are propagated here with IEEE rules, asking the path for signs where needed.
def _spec(x):
    return x.__class__ is float and (x != x or x in (T.INF, -T.INF))


def _sign(x):
    """-1/0/1 of a finite value, decided by the path"""
    if x.__class__ is float:
        return 0 if x == 0 else (1 if x > 0 else -1)
    if T.fcmp('oeq', x, 0.0): return 0
    return 1 if T.fcmp('olt', 0.0, x) else -1


_fbin0 = T.fbin


def fbin(op, a, b):
    if REAL[0] is not None:
        if _spec(a) or _spec(b):
            if a != a if a.__class__ is float else False: return a
            if b != b if b.__class__ is float else False: return b
            if op in ('fadd', 'fsub'):
                if _spec(a) and not _spec(b): return a
                return b if op == 'fadd' else -b
            # fmul: one side infinite, the other a term
            i, f = (a, b) if _spec(a) else (b, a)
            s = _sign(f)
            return float('nan') if s == 0 else i * s
        # cheap identities valid for reals
        if op == 'fmul':
            if a.__class__ is float and a == 1.0: return b
            if b.__class__ is float and b == 1.0: return a
            if (a.__class__ is float and a == 0.0) or (b.__class__ is float and b == 0.0): return 0.0
        elif op == 'fadd':
            if a.__class__ is float and a == 0.0: return b
            if b.__class__ is float and b == 0.0: return a
        elif op == 'fsub':
            if b.__class__ is float and b == 0.0: return a
            if a is b: return 0.0
            if a.__class__ is float and a == 0.0: return T.fneg(b)
    return _fbin0(op, a, b)


_fdiv0 = T.fdiv


def fdiv(a, b):
    if REAL[0] is not None and not (a.__class__ is float and b.__class__ is float):
        if b.__class__ is float:
            if b != b: return b
            if b in (T.INF, -T.INF): return 0.0
            if b == 0.0:
                s = _sign(a)
                return float('nan') if s == 0 else s * _fdiv0(1.0, b)
            return _fdiv0(a, b)
        if a.__class__ is float and a != a: return a
        s = None
        if T.fcmp('oeq', b, 0.0):
            if a.__class__ is float and a in (T.INF, -T.INF): return a
            s = _sign(a)
            return float('nan') if s == 0 else s * T.INF
        if a.__class__ is float and a in (T.INF, -T.INF):
            return a * _sign(b)
        if a.__class__ is float and a == 0.0: return 0.0
    return _fdiv0(a, b)


_fcmp0 = T.fcmp


def fcmp(pred, a, b):
    if REAL[0] is not None:
        if _spec(a) or _spec(b):
            if not (a.__class__ is float and b.__class__ is float):
                # replace the finite term by 0.0: comparisons with inf/NaN do not depend on it
                return _fcmp0(pred, a if a.__class__ is float else 0.0, b if b.__class__ is float else 0.0)
        if pred == 'uno' and not (a.__class__ is float and b.__class__ is float): return False
        if pred == 'ord' and not (a.__class__ is float and b.__class__ is float): return True
        if a is b and a.__class__ is not float:
            return pred in ('oeq', 'ole', 'oge', 'ueq', 'ule', 'uge')
    return _fcmp0(pred, a, b)


_fpow0 = T.fpow


def fpow(a, b):
    if REAL[0] is not None and (_spec(a) or _spec(b)):
        if a.__class__ is float and b.__class__ is float:
            return T.cpow(a, b)
        if a.__class__ is float and a == T.INF:
            s = _sign(b)
            return 1.0 if s == 0 else (T.INF if s > 0 else 0.0)
        return float('nan')
    return _fpow0(a, b)


_slt0 = T.slt


def slt(a, b, w):
    """the sign bit of a real is its sign"""
    if REAL[0] is not None and w == 64:
        if isinstance(a, T.ITerm) and a.op == 'fbits' and b == 0: return fcmp('olt', a.args[0], 0.0)
        if isinstance(b, T.ITerm) and b.op == 'fbits' and a == M64: return T.bnot1(fcmp('olt', b.args[0], 0.0))
    return _slt0(a, b, w)


T.slt = slt
T.fbin = fbin
T.fdiv = fdiv
T.fcmp = fcmp
T.fpow = fpow
