"""Hash-consed term DAG for symbolic values.

ITerm: bit-vector of width w (w=1 for conditions).  FTerm: an IEEE binary64 value.
Operators on terms build terms; `bool(cond)` asks the running path to decide it.
Concrete values are plain Python ints (unsigned) and floats.
"""
import struct

_table = {}
_n = [0]
DECIDE = [None]       # callable(ITerm w=1) -> bool, installed by the path explorer


def fbits_of(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def float_of(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


class Term:
    __slots__ = ('op', 'args', 'w', 'id')
    def __hash__(self):
        return self.id
    def __repr__(self):
        return show(self)


def show(t, depth=6):
    if not isinstance(t, Term):
        return repr(t)
    if t.op in ('var',):
        return str(t.args[0])
    if depth == 0:
        return '..'
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) if isinstance(a, Term) else repr(a) for a in t.args))


def _key(a):
    if isinstance(a, Term):
        return a.id
    if type(a) is float:
        return ('f', fbits_of(a))
    return ('c', a)


def mk(cls, op, w, *args):
    k = (cls is FTerm, op, w) + tuple([_key(a) for a in args])
    t = _table.get(k)
    if t is None:
        t = cls()
        t.op = op
        t.args = args
        t.w = w
        _n[0] += 1
        t.id = _n[0]
        _table[k] = t
    return t


class ITerm(Term):
    __slots__ = ()
    __hash__ = Term.__hash__
    def __bool__(self):
        return DECIDE[0](self if self.w == 1 else ne(self, 0))
    def __add__(self, o): return badd(self, o)
    def __radd__(self, o): return badd(self, o)
    def __sub__(self, o): return bsub(self, o, self.w)
    def __rsub__(self, o): return bsub(o, self, self.w)
    def __mul__(self, o): return bmul(self, o)
    def __rmul__(self, o): return bmul(self, o)
    def __and__(self, o): return band(self, o)
    def __rand__(self, o): return band(self, o)
    def __or__(self, o): return bor(self, o)
    def __ror__(self, o): return bor(self, o)
    def __xor__(self, o): return bxor(self, o)
    def __rxor__(self, o): return bxor(self, o)
    def __lshift__(self, o): return bshl(self, o)
    def __rlshift__(self, o): return mk(ITerm, 'shl', self.w, o, self)
    def __rshift__(self, o): return blshr(self, o)
    def __rrshift__(self, o): return mk(ITerm, 'lshr', self.w, o, self)
    def __eq__(self, o): return eq(self, o)
    def __ne__(self, o): return ne(self, o)
    def __lt__(self, o): return ult(self, o)
    def __gt__(self, o): return ult(o, self)
    def __le__(self, o): return bnot1(ult(o, self))
    def __ge__(self, o): return bnot1(ult(self, o))


class FTerm(Term):
    __slots__ = ()
    __hash__ = Term.__hash__
    def __add__(self, o): return fbin('fadd', self, o)
    def __radd__(self, o): return fbin('fadd', o, self)
    def __sub__(self, o): return fbin('fsub', self, o)
    def __rsub__(self, o): return fbin('fsub', o, self)
    def __mul__(self, o): return fbin('fmul', self, o)
    def __rmul__(self, o): return fbin('fmul', o, self)
    def __neg__(self): return fneg(self)
    def __eq__(self, o): raise TypeError('FTerm ==')
    def __bool__(self): raise TypeError('bool(FTerm)')


M = {w: (1 << w) - 1 for w in range(1, 129)}


def full(t):
    return M[t.w]


def is_t(x):
    return isinstance(x, Term)


# ---------------------------------------------------------------- integers
def _w(a, b):
    return a.w if isinstance(a, Term) else b.w


def badd(a, b):
    if b.__class__ is int:
        b &= M[a.w]
        if b == 0:
            return a
        if a.op == 'add' and a.args[1].__class__ is int:
            return badd(a.args[0], (a.args[1] + b) & M[a.w])
    return mk(ITerm, 'add', a.w, a, b)


def bsub(a, b, w):
    if b.__class__ is int:
        return badd(a, (-b) & M[w])
    if a is b:
        return 0
    return mk(ITerm, 'sub', w, a, b)


def bmul(a, b):
    if b.__class__ is int:
        b &= M[a.w]
        if b == 0:
            return 0
        if b == 1:
            return a
    return mk(ITerm, 'mul', a.w, a, b)


def band(a, b):
    if not isinstance(a, Term):
        a, b = b, a
    if b.__class__ is int or b.__class__ is bool:
        b = int(b) & M[a.w]
        if b == M[a.w]:
            return a
        if b == 0:
            return 0
        if a.op == 'zext' and (b & M[a.args[0].w]) == M[a.args[0].w]:
            return a
        if a.op == 'and' and a.args[1].__class__ is int:
            return band(a.args[0], a.args[1] & b)
    elif a is b:
        return a
    return mk(ITerm, 'and', a.w, a, b)


def bor(a, b):
    if not isinstance(a, Term):
        a, b = b, a
    if b.__class__ is int or b.__class__ is bool:
        b = int(b)
        if b == 0:
            return a
        if b == M[a.w]:
            return b
    elif a is b:
        return a
    # or of disjoint shifted pieces: recombine bytes
    r = _recombine(a, b)
    if r is not None:
        return r
    return mk(ITerm, 'or', a.w, a, b)


def _recombine(a, b):
    return None


def bxor(a, b):
    if not isinstance(a, Term):
        a, b = b, a
    if b.__class__ is int or b.__class__ is bool:
        b = int(b)
        if b == 0:
            return a
        if a.w == 1 and b == 1:
            return bnot1(a)
    elif a is b:
        return 0
    return mk(ITerm, 'xor', a.w, a, b)


def bshl(a, b):
    if b.__class__ is int:
        if b == 0:
            return a
        if b >= a.w:
            return 0
    return mk(ITerm, 'shl', a.w, a, b)


def blshr(a, b):
    if b.__class__ is int:
        if b == 0:
            return a
        if b >= a.w:
            return 0
        if a.op == 'zext' and b >= a.args[0].w:
            return 0
        if a.op == 'concat':
            hi, lo = a.args
            lw = lo.w if is_t(lo) else None
            if lw == b:
                return zext(hi, a.w - b, a.w)
    return mk(ITerm, 'lshr', a.w, a, b)


def bashr(a, b, w):
    if not is_t(a) and not is_t(b):
        s = a - (1 << w) if a >> (w - 1) else a
        return (s >> min(b, w - 1)) & M[w]
    return mk(ITerm, 'ashr', w, a, b)


def bnot1(a):
    if not is_t(a):
        return not a
    if a.op == 'not':
        return a.args[0]
    return mk(ITerm, 'not', 1, a)


def eq(a, b):
    if a is b:
        return True
    if not is_t(a):
        a, b = b, a
    if b.__class__ is int or b.__class__ is bool:
        b = int(b)
        if a.w == 1:
            return a if b == 1 else bnot1(a)
        if a.op == 'zext':
            x = a.args[0]
            if b > M[x.w]:
                return False
            return eq(x, b)
        if a.op == 'ite' and a.args[1].__class__ is int and a.args[2].__class__ is int:
            p, q = a.args[1] == b, a.args[2] == b
            if p and q: return True
            if p: return a.args[0]
            if q: return bnot1(a.args[0])
            return False
        if a.op == 'add' and a.args[1].__class__ is int:
            return eq(a.args[0], (b - a.args[1]) & M[a.w])
    return mk(ITerm, 'eq', 1, a, b)


def ne(a, b):
    return bnot1(eq(a, b))


def ult(a, b):
    if a is b:
        return False
    if not is_t(b) and b == 0:
        return False
    if not is_t(b) and b == 1:
        return eq(a, 0)
    if is_t(a) and a.op == 'zext' and not is_t(b) and b > M[a.args[0].w]:
        return True
    return mk(ITerm, 'ult', 1, a, b)


def slt(a, b, w):
    if not is_t(a) and not is_t(b):
        h = 1 << (w - 1)
        return (a ^ h) < (b ^ h)
    if a is b:
        return False
    return mk(ITerm, 'slt', 1, a, b)


def udiv(a, b, w):
    if not is_t(a) and not is_t(b):
        return a // b
    return mk(ITerm, 'udiv', w, a, b)


def urem(a, b, w):
    if not is_t(a) and not is_t(b):
        return a % b
    return mk(ITerm, 'urem', w, a, b)


def _sgn(a, w):
    return a - (1 << w) if a >> (w - 1) else a


def sdiv(a, b, w):
    if not is_t(a) and not is_t(b):
        x, y = _sgn(a, w), _sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & M[w]
    return mk(ITerm, 'sdiv', w, a, b)


def srem(a, b, w):
    if not is_t(a) and not is_t(b):
        x, y = _sgn(a, w), _sgn(b, w)
        r = abs(x) % abs(y)
        return (-r if x < 0 else r) & M[w]
    return mk(ITerm, 'srem', w, a, b)


def zext(a, w0, w1):
    if not is_t(a):
        return int(a)
    if a.w == w1:
        return a
    if a.op == 'zext':
        a = a.args[0]
    return mk(ITerm, 'zext', w1, a)


def sext(a, w0, w1):
    if not is_t(a):
        a = int(a)
        return (a | (M[w1] ^ M[w0])) if a >> (w0 - 1) else a
    return mk(ITerm, 'sext', w1, a)


def trunc(a, w1):
    if not is_t(a):
        return a & M[w1]
    if a.w == w1:
        return a
    if a.op in ('zext', 'sext'):
        x = a.args[0]
        if x.w == w1:
            return x
        if x.w > w1:
            return trunc(x, w1)
        return mk(ITerm, a.op, w1, x)
    if a.op == 'concat':
        lo = a.args[1]
        if is_t(lo) and lo.w == w1:
            return lo
    return extract(a, 0, w1)


def extract(a, lo, w):
    """bits lo..lo+w-1"""
    if not is_t(a):
        return (a >> lo) & M[w]
    if lo == 0 and a.w == w:
        return a
    if a.op == 'extract':
        return extract(a.args[0], a.args[1] + lo, w)
    if a.op == 'concat':
        h, l = a.args
        lw = l.w if is_t(l) else a.w - h.w
        if lo >= lw:
            return extract(h, lo - lw, w) if is_t(h) else (h >> (lo - lw)) & M[w]
        if lo + w <= lw:
            return extract(l, lo, w) if is_t(l) else (l >> lo) & M[w]
    if a.op == 'zext':
        x = a.args[0]
        if lo >= x.w:
            return 0
        if lo + w <= x.w:
            return extract(x, lo, w)
    return mk(ITerm, 'extract', w, a, lo)


def concat(hi, hw, lo, lw):
    """hi:lo"""
    if not is_t(hi) and not is_t(lo):
        return (hi << lw) | lo
    if not is_t(hi) and hi == 0:
        return zext(lo, lw, hw + lw)
    if is_t(hi) and is_t(lo) and hi.op == 'extract' and lo.op == 'extract' \
            and hi.args[0] is lo.args[0] and hi.args[1] == lo.args[1] + lw:
        return extract(hi.args[0], lo.args[1], hw + lw)
    if is_t(hi) and is_t(lo) and hi.op == 'extract' and hi.args[0] is lo and hi.args[1] == lw:
        return extract(lo, 0, hw + lw)
    return mk(ITerm, 'concat', hw + lw, hi, lo)


def ite(c, a, b, w=None):
    if not is_t(c):
        return a if c else b
    if a is b or (not is_t(a) and not is_t(b) and type(a) is type(b) and _key(a) == _key(b)):
        return a
    if isinstance(a, (FTerm, float)) or isinstance(b, (FTerm, float)):
        return mk(FTerm, 'fite', 64, c, a, b)
    if w is None:
        w = a.w if is_t(a) else b.w
    if w == 1:
        if not is_t(a):
            return bor(c, b) if a else band(bnot1(c), b)
        if not is_t(b):
            return bor(bnot1(c), a) if b else band(c, a)
    return mk(ITerm, 'ite', w, c, a, b)


# ---------------------------------------------------------------- floats
def fvar(name):
    return mk(FTerm, 'var', 64, name)


def ivar(name, w):
    return mk(ITerm, 'var', w, name)


def fuf(name, *args):
    return mk(FTerm, 'uf', 64, name, *args)


INF = float('inf')


def fbin(op, a, b):
    return mk(FTerm, op, 64, a, b)


def fdiv(a, b):
    if a.__class__ is float and b.__class__ is float:
        if b == 0.0:
            if a == 0.0 or a != a:
                return float('nan')
            neg = (fbits_of(a) ^ fbits_of(b)) >> 63
            return -INF if neg else INF
        return a / b
    return mk(FTerm, 'fdiv', 64, a, b)


def fneg(a):
    if a.__class__ is float:
        return float_of(fbits_of(a) ^ (1 << 63))
    if a.op == 'fneg':
        return a.args[0]
    return mk(FTerm, 'fneg', 64, a)


def fabs(a):
    if a.__class__ is float:
        return abs(a)
    return mk(FTerm, 'fabs', 64, a)


def fun1(name, a, pyf):
    if a.__class__ is float:
        return pyf(a)
    return mk(FTerm, 'fun', 64, name, a)


def fpow(a, b):
    if a.__class__ is float and b.__class__ is float:
        return cpow(a, b)
    return mk(FTerm, 'fun', 64, 'pow', a, b)


def cpow(a, b):
    import math
    try:
        return math.pow(a, b)
    except ZeroDivisionError:
        return INF
    except ValueError:
        if a == 0.0 and b < 0:
            return INF
        return float('nan')
    except OverflowError:
        return INF


def csqrt(a):
    import math
    return math.sqrt(a) if a >= 0 or a != a else float('nan')


_flip = {}


def fcmp(pred, a, b):
    """pred: oeq une olt ole ogt oge ult ule ugt uge ueq one ord uno"""
    if a.__class__ is float and b.__class__ is float:
        un = a != a or b != b
        if pred == 'ord': return not un
        if pred == 'uno': return un
        base = {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]]
        if pred[0] == 'o':
            return base and not un
        return base or un
    # normalise to: foeq, folt, fole, funo ; negations for unordered predicates
    if pred == 'ogt': return fcmp('olt', b, a)
    if pred == 'oge': return fcmp('ole', b, a)
    if pred == 'uge': return bnot1(fcmp('olt', a, b))
    if pred == 'ugt': return bnot1(fcmp('ole', a, b))
    if pred == 'ule': return bnot1(fcmp('olt', b, a))
    if pred == 'ult': return bnot1(fcmp('ole', b, a))
    if pred == 'une': return bnot1(fcmp('oeq', a, b))
    if pred == 'ord': return bnot1(fcmp('uno', a, b))
    if pred == 'one':
        return band_(fcmp('olt', a, b), fcmp('olt', b, a), 'or')
    if pred == 'ueq':
        return bnot1(fcmp('one', a, b))
    # symmetric: one order only
    if pred in ('oeq', 'uno') and (a.__class__ is float or (b.__class__ is not float and b.id < a.id)): a, b = b, a
    return mk(ITerm, 'f' + pred, 1, a, b)


def band_(a, b, how):
    if how == 'or':
        if not is_t(a): return True if a else b
        if not is_t(b): return True if b else a
        return bor(a, b)
    if not is_t(a): return b if a else False
    if not is_t(b): return a if b else False
    return band(a, b)


NONAN = [True]        # real-arithmetic modes have no NaN


def fminnum(a, b):
    """minimumNumber: the smaller one; the running path decides which"""
    if a.__class__ is float and b.__class__ is float:
        if a != a: return b
        if b != b: return a
        if a == b: return a if fbits_of(a) >> 63 else b
        return a if a < b else b
    if a is b:
        return a
    if fcmp('olt', a, b):
        return a
    if NONAN[0] or fcmp('olt', b, a):
        return b
    if fcmp('uno', a, a):
        return b
    if fcmp('uno', b, b):
        return a
    return b


def fmaxnum(a, b):
    if a.__class__ is float and b.__class__ is float:
        if a != a: return b
        if b != b: return a
        if a == b: return b if fbits_of(a) >> 63 else a
        return a if a > b else b
    if a is b:
        return a
    if fcmp('olt', b, a):
        return a
    if NONAN[0] or fcmp('olt', a, b):
        return b
    if fcmp('uno', a, a):
        return b
    if fcmp('uno', b, b):
        return a
    return b


def to_bits(a):
    """float -> 64-bit integer pattern"""
    if a.__class__ is float:
        return fbits_of(a)
    if a.op == 'frombits':
        return a.args[0]
    return mk(ITerm, 'fbits', 64, a)


def from_bits(a):
    if not is_t(a):
        return float_of(a)
    if a.op == 'fbits':
        return a.args[0]
    return mk(FTerm, 'frombits', 64, a)


def term_bytes(t, k):
    """byte k of an integer term"""
    return extract(t, 8 * k, 8)
