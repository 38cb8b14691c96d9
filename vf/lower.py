"""Lowerings of terms to z3: exact reals, bit patterns with uninterpreted arithmetic, and
full IEEE floating point."""
import re
import time
from fractions import Fraction
import z3
from . import terms as T

_rat = {}


def rational(x):
    """the rational a double constant of the source stands for: the simplest fraction
    within 2^-50 relative, when it is really simple; else the exact dyadic value"""
    b = T.fbits_of(x)
    r = _rat.get(b)
    if r is not None:
        return r
    ex = Fraction(x)
    if ex.denominator <= 4096:
        r = ex
    else:
        tol = abs(ex) / (1 << 50)
        lo, hi = ex - tol, ex + tol
        s = simplest(abs(lo) if x > 0 else abs(hi), abs(hi) if x > 0 else abs(lo))
        if x < 0:
            s = -s
        r = s if s.denominator <= (1 << 20) and abs(s.numerator) <= (1 << 24) else None
        if r is None:
            # decimal literals such as 1e-9
            d = Fraction(repr(x))
            r = d if d.denominator <= 10 ** 18 and len(str(d.numerator)) <= 9 else ex
    _rat[b] = r
    return r


def simplest(lo, hi):
    """simplest fraction in [lo, hi], 0 < lo <= hi"""
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = simplest(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def rv(fr):
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(fr.numerator)


class Lower:
    """common part: integer terms"""
    def __init__(self):
        self.c = {}
        self.axioms = []        # side facts about introduced symbols
        self.vars = {}
        self.keep = []
        self.ufs = {}
        self.apps = []          # (uf name, arg terms, term)

    def begin(self):
        pass

    def lo(self, t):
        if not isinstance(t, T.Term):
            if t.__class__ is float:
                return self.fconst(t)
            raise TypeError('int constant needs a width')
        r = self.c.get(t.id)
        if r is None:
            # iterative post-order to avoid deep recursion
            st = [t]
            while st:
                x = st[-1]
                if x.id in self.c:
                    st.pop(); continue
                todo = [a for a in x.args if isinstance(a, T.Term) and a.id not in self.c]
                if todo:
                    st.extend(todo)
                    continue
                self.c[x.id] = self.node(x)
                st.pop()
            r = self.c[t.id]
        return r

    def bv(self, a, w):
        if isinstance(a, T.Term):
            r = self.lo(a)
            if a.w == 1 and z3.is_bool(r):
                return z3.If(r, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            return r
        return z3.BitVecVal(int(a), w)

    def cond(self, c):
        if not isinstance(c, T.Term):
            return z3.BoolVal(bool(c))
        r = self.lo(c)
        if z3.is_bool(r):
            return r
        return r == z3.BitVecVal(1, 1)

    def node(self, t):
        if t.__class__ is T.FTerm:
            return self.fnode(t)
        op = t.op
        a = t.args
        w = t.w
        if op == 'var':
            v = z3.BitVec(a[0], w)
            self.vars[a[0]] = (v, t)
            return v
        if op == 'not':
            return z3.Not(self.cond(a[0]))
        if op in ('and', 'or', 'xor') and w == 1:
            x, y = self.cond(a[0]), self.cond(a[1])
            return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y)
        if op == 'ite':
            if w == 1:
                return z3.If(self.cond(a[0]), self.cond(a[1]), self.cond(a[2]))
            return z3.If(self.cond(a[0]), self.bv(a[1], w), self.bv(a[2], w))
        if op in ('eq', 'ult', 'slt', 'umulo'):
            ww = a[0].w if isinstance(a[0], T.Term) else a[1].w
            x, y = self.bv(a[0], ww), self.bv(a[1], ww)
            if op == 'eq': return x == y
            if op == 'ult': return z3.ULT(x, y)
            if op == 'slt': return x < y
            return z3.Not(z3.BVMulNoOverflow(x, y, False))
        if op in ('foeq', 'folt', 'fole', 'funo'):
            return self.fcmp(op, a[0], a[1])
        if op == 'fbits':
            return self.fbits(a[0])
        if op == 'zext': return z3.ZeroExt(w - a[0].w, self.bv(a[0], a[0].w))
        if op == 'sext': return z3.SignExt(w - a[0].w, self.bv(a[0], a[0].w))
        if op == 'extract': return z3.Extract(a[1] + w - 1, a[1], self.bv(a[0], a[0].w))
        if op == 'concat':
            hw = a[0].w if isinstance(a[0], T.Term) else w - a[1].w
            return z3.Concat(self.bv(a[0], hw), self.bv(a[1], w - hw))
        x, y = self.bv(a[0], w), self.bv(a[1], w)
        if op == 'add': return x + y
        if op == 'sub': return x - y
        if op == 'mul': return x * y
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if op == 'shl': return x << y
        if op == 'lshr': return z3.LShR(x, y)
        if op == 'ashr': return x >> y
        if op == 'udiv': return z3.UDiv(x, y)
        if op == 'urem': return z3.URem(x, y)
        if op == 'sdiv': return x / y
        if op == 'srem': return z3.SRem(x, y)
        raise NotImplementedError(op)

    def uf(self, name, n, dom, rng):
        k = (name, n)
        f = self.ufs.get(k)
        if f is None:
            f = self.ufs[k] = z3.Function('%s_%d' % (name, n), *([dom] * n + [rng])) if n else z3.Const(name, rng)
        return f


class Bits(Lower):
    """floats as 64-bit patterns; arithmetic uninterpreted, comparisons exact IEEE"""
    name = 'bits'
    B = z3.BitVecSort(64)

    def fconst(self, x):
        return z3.BitVecVal(T.fbits_of(x), 64)

    def fnode(self, t):
        op, a = t.op, t.args
        if op == 'var':
            v = z3.BitVec(a[0], 64)
            self.vars[a[0]] = (v, t)
            return v
        if op == 'frombits': return self.bv(a[0], 64)
        if op == 'fneg': return self.lo(a[0]) ^ z3.BitVecVal(1 << 63, 64)
        if op == 'fabs': return self.lo(a[0]) & z3.BitVecVal((1 << 63) - 1, 64)
        if op == 'fite': return z3.If(self.cond(a[0]), self.lo(a[1]), self.lo(a[2]))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            return self.uf(op, 2, self.B, self.B)(self.lo(a[0]), self.lo(a[1]))
        if op == 'fun':
            xs = [self.lo(x) for x in a[1:]]
            return self.uf('fn_' + a[0], len(xs), self.B, self.B)(*xs)
        if op == 'uf':
            xs = [self.lo(x) for x in a[1:]]
            self.apps.append((a[0], a[1:], t))
            f = self.uf(a[0], len(xs), self.B, self.B)
            return f(*xs) if xs else f
        if op in ('uitofp', 'sitofp'):
            x = self.bv(a[0], a[0].w)
            return self.uf(op, 1, z3.BitVecSort(a[0].w), self.B)(x) if False else z3.Function(op + str(a[0].w), z3.BitVecSort(a[0].w), self.B)(x)
        raise NotImplementedError('bits ' + op)

    def fbits(self, a):
        return self.lo(a)

    def fcmp(self, op, a, b):
        x, y = self.lo(a), self.lo(b)
        m, z, inf = z3.BitVecVal((1 << 63) - 1, 64), z3.BitVecVal(0, 64), z3.BitVecVal(0x7ff << 52, 64)
        nan = lambda v: z3.ULT(inf, v & m)
        if op == 'funo': return z3.Or(nan(x), nan(y))
        zero = (x | y) & m == z
        if op == 'foeq': return z3.Or(z3.And(x == y, z3.Not(nan(x))), zero)
        neg = lambda v: z3.Extract(63, 63, v) == 1
        lt = z3.And(z3.Not(zero), z3.If(neg(x), z3.Or(z3.Not(neg(y)), z3.ULT(y, x)), z3.And(z3.Not(neg(y)), z3.ULT(x, y))))
        if op == 'fole': lt = z3.Or(lt, x == y, zero)
        return z3.And(z3.Not(nan(x)), z3.Not(nan(y)), lt)


class Abs(Bits):
    """floats as elements of an abstract sort: arithmetic and comparisons all uninterpreted.
    Coarser than Bits; what it cannot discharge is decided by Bits."""
    name = 'abs'
    F = z3.DeclareSort('Double')
    B = F

    def __init__(self):
        Bits.__init__(self)
        self.tobits = z3.Function('bits_of_double', self.F, z3.BitVecSort(64))
        self.frombits = z3.Function('double_of_bits', z3.BitVecSort(64), self.F)

    def fconst(self, x): return self.frombits(z3.BitVecVal(T.fbits_of(x), 64))

    def fnode(self, t):
        op, a = t.op, t.args
        if op == 'var':
            v = z3.Const(a[0], self.F)
            self.vars[a[0]] = (v, t)
            return v
        if op == 'frombits': return self.frombits(self.bv(a[0], 64))
        if op in ('fneg', 'fabs'): return self.uf(op, 1, self.F, self.F)(self.lo(a[0]))
        return Bits.fnode(self, t)

    def fbits(self, a): return self.tobits(self.lo(a))

    def fcmp(self, op, a, b):
        f = z3.Function(op, self.F, self.F, z3.BoolSort())
        if op in ('folt', 'fole'): return f(self.lo(a), self.lo(b))
        x, y = self.lo(a), self.lo(b)
        return z3.And(f(x, y), f(y, x)) if op == 'foeq' else z3.Or(f(x, y), f(y, x))


class FP(Lower):
    """full IEEE binary64 semantics"""
    name = 'fp'
    S = z3.Float64()
    RM = z3.RNE()

    def fconst(self, x):
        return z3.fpBVToFP(z3.BitVecVal(T.fbits_of(x), 64), self.S)

    def fnode(self, t):
        op, a = t.op, t.args
        if op == 'var':
            v = z3.FP(a[0], self.S)
            self.vars[a[0]] = (v, t)
            return v
        if op == 'frombits': return z3.fpBVToFP(self.bv(a[0], 64), self.S)
        if op == 'fneg': return z3.fpNeg(self.lo(a[0]))
        if op == 'fabs': return z3.fpAbs(self.lo(a[0]))
        if op == 'fite': return z3.If(self.cond(a[0]), self.lo(a[1]), self.lo(a[2]))
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            g = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
            return g(self.RM, self.lo(a[0]), self.lo(a[1]))
        if op == 'fun' and a[0] == 'sqrt': return z3.fpSqrt(self.RM, self.lo(a[1]))
        if op in ('fun', 'uf'):
            xs = [self.lo(x) for x in a[1:]]
            f = self.uf('fn_' + a[0], len(xs), self.S, self.S)
            return f(*xs) if xs else f
        if op == 'uitofp': return z3.fpUnsignedToFP(self.RM, self.bv(a[0], a[0].w), self.S)
        if op == 'sitofp': return z3.fpSignedToFP(self.RM, self.bv(a[0], a[0].w), self.S)
        raise NotImplementedError('fp ' + op)

    def fbits(self, a):
        return z3.fpToIEEEBV(self.lo(a))

    def fcmp(self, op, a, b):
        x, y = self.lo(a), self.lo(b)
        if op == 'foeq': return z3.fpEQ(x, y)
        if op == 'folt': return z3.fpLT(x, y)
        if op == 'fole': return z3.fpLEQ(x, y)
        return z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))


TIMELIKE = re.compile(r'(^|\.)(state\.time|t_report\.\d+|v\.\d+)$')


class Rnd(Lower):
    """Finite doubles as reals. Every sum or difference involving the time variable is rounded:
    off by at most half an ulp (relative 2^-53, no underflow in sums), monotone with respect
    to doubles, exact by Sterbenz' lemma. All other arithmetic is uninterpreted."""
    name = 'rnd'
    rounding = True
    R = z3.RealSort()
    U = z3.RealVal('1/%d' % (1 << 53))

    def __init__(self):
        Lower.__init__(self)
        self.tl = {}
        self.anchors = [z3.RealVal(0)]
        self.rounded = []
        self.bv64 = z3.Function('bits_of', self.R, z3.BitVecSort(64))

    def begin(self):
        self.axioms = list(self.axioms)

    def timelike(self, t):
        if t.__class__ is not T.FTerm: return False
        r = self.tl.get(t.id)
        if r is None:
            if t.op == 'var': r = bool(TIMELIKE.search(t.args[0]))
            elif t.op in ('fadd', 'fsub'): r = self.timelike(t.args[0]) or self.timelike(t.args[1])
            elif t.op == 'fite': r = self.timelike(t.args[1]) or self.timelike(t.args[2])
            else: r = False
            self.tl[t.id] = r
        return r

    def fconst(self, x):
        if x != x or x in (T.INF, -T.INF): return z3.Real('special_%x' % T.fbits_of(x))
        f = Fraction(x)
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))

    def anchor(self, v):
        for r, e in self.rounded:
            self.mono(r, e, v)
        self.anchors.append(v)

    def mono(self, r, e, v):
        self.axioms.append((None, z3.And(z3.Implies(e <= v, r <= v), z3.Implies(e >= v, r >= v))))

    def fnode(self, t):
        op, a = t.op, t.args
        if op == 'var':
            v = z3.Real(a[0])
            self.vars[a[0]] = (v, t)
            if self.timelike(t): self.anchor(v)
            return v
        if op == 'frombits': return self.uf('frombits', 1, z3.BitVecSort(64), self.R)(self.bv(a[0], 64)) if False else z3.Function('frombits', z3.BitVecSort(64), self.R)(self.bv(a[0], 64))
        if op == 'fneg': return -self.lo(a[0])
        if op == 'fabs':
            x = self.lo(a[0])
            return z3.If(x >= 0, x, -x)
        if op == 'fite': return z3.If(self.cond(a[0]), self.lo(a[1]), self.lo(a[2]))
        if op in ('fadd', 'fsub'):
            x, y = self.lo(a[0]), self.lo(a[1])
            r = self.uf(op, 2, self.R, self.R)(x, y)
            if self.timelike(t) and not self.rounding: return x + y if op == 'fadd' else x - y
            if self.timelike(t):
                e = x + y if op == 'fadd' else x - y
                m = z3.If(e >= 0, e, -e) * self.U
                self.axioms.append((None, z3.And(r <= e + m, r >= e - m)))
                for v in self.anchors: self.mono(r, e, v)
                if op == 'fsub': self.axioms.append((None, z3.Implies(z3.And(y >= 0, y <= 2 * x, x <= 2 * y), r == e)))
                self.rounded.append((r, e))
            return r
        if op in ('fmul', 'fdiv'):
            x, y = self.lo(a[0]), self.lo(a[1])
            r = self.uf(op, 2, self.R, self.R)(x, y)
            if op == 'fmul' and (a[0].__class__ is float) != (a[1].__class__ is float):
                e = x * y
                if not self.rounding: return e
                m = z3.If(e >= 0, e, -e) * self.U + z3.RealVal(Fraction(1, 1 << 1074))
                self.axioms.append((None, z3.And(r <= e + m, r >= e - m)))
            return r
        if op in ('fun', 'uf'):
            xs = [self.lo(x) for x in a[1:]]
            f = self.uf('fn_' + a[0], len(xs), self.R, self.R)
            return f(*xs) if xs else f
        if op in ('uitofp', 'sitofp'):
            x = self.bv(a[0], a[0].w)
            return z3.Function(op + str(a[0].w), z3.BitVecSort(a[0].w), self.R)(x)
        raise NotImplementedError('rnd ' + op)

    def fbits(self, a): return self.bv64(self.lo(a))

    def fcmp(self, op, a, b):
        x, y = self.lo(a), self.lo(b)
        if op == 'foeq': return x == y
        if op == 'folt': return x < y
        if op == 'fole': return x <= y
        return z3.BoolVal(False)


class Lra(Rnd):
    """as Rnd, without rounding: linear exact arithmetic on the time variable"""
    name = 'lra'
    rounding = False
    def anchor(self, v): pass


_free = {}


def free(t):
    """inputs and uninterpreted functions a term depends on"""
    r = _free.get(t.id)
    if r is not None: return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in _free: stack.pop(); continue
        todo = [a for a in x.args if T.is_t(a) and a.id not in _free]
        if todo: stack.extend(todo); continue
        r = set()
        for a in x.args:
            if T.is_t(a): r |= _free[a.id]
        if x.op == 'var': r.add(x.args[0])
        elif x.op in ('fun', 'uf'): r.add(x.op + ' ' + str(x.args[0]))
        elif x.op in ('fadd', 'fsub', 'fmul', 'fdiv', 'uitofp', 'sitofp'): r.add(x.op)
        _free[x.id] = frozenset(r)
        stack.pop()
    return _free[t.id]


class Oracle:
    """feasibility of path conditions; keeps statistics"""
    def __init__(self, low, assume=(), timeout_ms=5000, stats=None, tactic=None):
        self.low = low
        self.assume = list(assume)     # condition terms or z3 booleans
        self.timeout = timeout_ms
        self.stats = stats if stats is not None else Stats()
        self.s = None
        self.memo = {}

    def begin(self):
        self.low.begin()
        self.s = z3.Solver()
        self.s.set('timeout', self.timeout)
        self.n_ax = 0
        self.n_pc = 0
        self.n_sl = 0
        self.group = {}
        self.slicing = self.low.name == 'bits' and all(T.is_t(a) for a in self.assume)
        for a in self.assume:
            self.s.add(a if isinstance(a, (z3.BoolRef, bool)) else self.low.cond(a))
        self.ax()

    def ax(self):
        L = self.low.axioms
        while self.n_ax < len(L):
            self.s.add(L[self.n_ax][1])
            self.n_ax += 1

    def sync(self, pc):
        while self.n_pc < len(pc):
            c, v = pc[self.n_pc]
            z = self.low.cond(c)
            self.s.add(z if v else z3.Not(z))
            self.n_pc += 1
        self.ax()

    def chk(self, *extra):
        t0 = time.time()
        r = self.s.check(*extra)
        self.stats.add('path', str(r), time.time() - t0)
        return r

    def sliced(self, pc, c):
        """as feasible, with only the conditions that share inputs with c, directly or through
        others: the rest is satisfiable on its own and has no say"""
        if self.n_sl == 0:
            for a in self.assume: self.link(a, True)
        while self.n_sl < len(pc):
            self.link(*pc[self.n_sl])
            self.n_sl += 1
        gs = {id(g): g for g in (self.group.get(v) for v in free(c)) if g is not None}
        cs = {}
        for g in gs.values(): cs.update(g[1])
        key = (c.id, frozenset(cs))
        r = self.memo.get(key)
        if r is None:
            s = z3.Solver()
            s.set('timeout', self.timeout)
            for (_, v), t in cs.items():
                z = self.low.cond(t)
                s.add(z if v else z3.Not(z))
            z = self.low.cond(c)
            if self.low.axioms: return None
            r = []
            for x in (z, z3.Not(z)):
                t0 = time.time()
                v = s.check(x)
                self.stats.add('path', str(v), time.time() - t0)
                r.append(v != z3.unsat)
            r = self.memo[key] = tuple(r)
        return r

    def link(self, c, v):
        while c.op == 'not': c, v = c.args[0], not v
        g = (set(free(c)), {(c.id, v): c})
        for x in list(g[0]):
            h = self.group.get(x)
            if h is not None and h is not g:
                g[0].update(h[0]); g[1].update(h[1])
        for x in g[0]: self.group[x] = g

    def feasible(self, pc, c):
        if self.slicing and not self.low.axioms:
            r = self.sliced(pc, c)
            if r is not None: return r
        self.sync(pc)
        z = self.low.cond(c)
        self.ax()
        nz = z3.Not(z)
        ct = self.chk(z) != z3.unsat
        if not ct:
            return (False, True)
        cf = self.chk(nz) != z3.unsat
        return (ct, cf)

    def value(self, pc, t):
        self.sync(pc)
        z = self.low.bv(t, t.w)
        self.ax()
        r = self.chk()
        if r != z3.sat:
            if r == z3.unsat: return None
            raise RuntimeError('concretize: solver gave up')
        return self.s.model().eval(z, model_completion=True).as_long()


class Stats:
    def __init__(self):
        self.q = {}
        self.t = 0.0
    def add(self, kind, res, dt):
        k = kind + ':' + res
        self.q[k] = self.q.get(k, 0) + 1
        self.t += dt
