"""Exact-real lowering through canonical polynomials.

Every real-valued term becomes a Laurent polynomial over atoms (inputs, applications of the
user's function to canonical arguments, square roots, powers, inverses of sums), with exact
rational coefficients.  Lin maps every monomial to an opaque real variable: queries are
linear arithmetic, an over-approximation (unsat is conclusive).  Nra multiplies the atoms
out: queries are nonlinear real arithmetic, with the congruence of user-function
applications spelled out."""
from fractions import Fraction
import z3
from . import terms as T
from .lower import Lower, rational, rv

ONE = ()


class Atoms:
    def __init__(self):
        self.key = {}
        self.rec = []      # (kind, name, args)  args: tuple of frozen polys

    def get(self, kind, name, args=()):
        k = (kind, name, args)
        i = self.key.get(k)
        if i is None:
            i = self.key[k] = len(self.rec)
            self.rec.append(k)
        return i


def freeze(p):
    return tuple(sorted(p.items()))


def padd(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if s == 1 else -c
        else:
            v = v + c if s == 1 else v - c
            if v: r[m] = v
            else: del r[m]
    return r


def pscale(a, k):
    if k == 0: return {}
    if k == 1: return a
    return {m: c * k for m, c in a.items()}


_mm = {}


def mmul(x, y):
    if not x: return y
    if not y: return x
    k = (x, y)
    r = _mm.get(k)
    if r is None:
        d = dict(x)
        for a, e in y:
            v = d.get(a, 0) + e
            if v: d[a] = v
            else: d.pop(a, None)
        r = _mm[k] = tuple(sorted(d.items()))
    return r


class TooBig(Exception):
    pass


class PolyLower(Lower):
    LIMIT = 200000

    def __init__(self, expand=False):
        Lower.__init__(self)
        self.expand = expand   # multiply squares of sums out
        self.at = Atoms()
        self.p = {}
        self.sqrt_of = {}      # atom -> poly
        self.facts = {}        # atom -> [(kind, payload)]
        self.mono = {}
        self.atomv = {}
        self.subst = {}        # variable -> polynomial it equals on this path
        self.begin()

    def begin(self):
        """forget what the current solver has been told"""
        self.axioms = []
        self.c = {}
        self.seen_m = set()
        self.seen_a = set()

    def touch(self, m):
        if m in self.seen_m: return
        self.seen_m.add(m)
        for a, e in m:
            self.touch_atom(a)
        self.mono_facts(m)

    def touch_atom(self, a):
        if a in self.seen_a: return
        self.seen_a.add(a)
        for kind, payload in self.facts.get(a, ()):
            self.axioms.append((kind, self.axiom(kind, payload)))

    # ------------------------------------------------ polynomials
    def pmul(self, a, b):
        if len(a) == 1 and ONE in a: return pscale(b, a[ONE])
        if len(b) == 1 and ONE in b: return pscale(a, b[ONE])
        if len(a) * len(b) > self.LIMIT:
            raise TooBig()
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = mmul(m, n)
                v = r.get(k, 0) + c * d
                if v: r[k] = v
                else: r.pop(k, None)
        if self.sqrt_of:
            r = self.reduce(r)
        return r

    def reduce(self, p):
        sq = self.sqrt_of
        for m in p:
            for a, e in m:
                if a in sq and (e >= 2 or e <= -2):
                    break
            else:
                continue
            break
        else:
            return p
        out = {}
        for m, c in p.items():
            q = {ONE: c}
            rest = []
            hit = False
            for a, e in m:
                if a in sq and e >= 2:
                    hit = True
                    for _ in range(e // 2): q = self.pmul(q, sq[a])
                    if e % 2: rest.append((a, 1))
                else:
                    rest.append((a, e))
            if hit: q = self.pmul(q, {tuple(rest): Fraction(1)})
            else: q = {m: c}
            out = padd(out, q)
        return out

    def atom(self, kind, name, args=()):
        return self.at.get(kind, name, args)

    def patom(self, i, e=1):
        return {((i, e),): Fraction(1)}

    def poly(self, t):
        if t.__class__ is float:
            if t != t or t in (T.INF, -T.INF):
                raise ValueError('special float in real lowering')
            r = rational(t)
            return {ONE: r} if r else {}
        if t.__class__ is int or t.__class__ is Fraction:
            return {ONE: Fraction(t)} if t else {}
        r = self.p.get(t.id)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.p:
                st.pop(); continue
            todo = [a for a in x.args if a.__class__ is T.FTerm and a.id not in self.p]
            if todo:
                st.extend(todo); continue
            self.p[x.id] = self.pnode(x)
            st.pop()
        return self.p[t.id]

    def pnode(self, t):
        op, a = t.op, t.args
        if op == 'var':
            q = self.subst.get(a[0])
            return q if q is not None else self.patom(self.atom('var', a[0]))
        if op == 'fadd': return padd(self.poly(a[0]), self.poly(a[1]))
        if op == 'fsub': return padd(self.poly(a[0]), self.poly(a[1]), -1)
        if op == 'fneg': return pscale(self.poly(a[0]), Fraction(-1))
        if op == 'fmul':
            x, y = self.poly(a[0]), self.poly(a[1])
            if not self.expand and len(x) > 1 and len(x) == len(y):
                return self.square(x, y)
            return self.pmul(x, y)
        if op == 'fdiv':
            return self.pmul(self.poly(a[0]), self.inv(self.poly(a[1])))
        if op == 'uf':
            args = tuple(freeze(self.poly(x)) for x in a[1:])
            i = self.atom('uf', a[0], args)
            return self.patom(i)
        if op == 'fun':
            return self.fun(a)
        if op == 'fabs':
            # both signs are possible: an atom with its defining facts
            p = self.poly(a[0])
            if freeze(pscale(p, -1)) < freeze(p): p = pscale(p, Fraction(-1))
            i = self.atom('fabs', '', (freeze(p),))
            self.fact(i, 'abs', (i, p))
            return self.patom(i)
        if op == 'uitofp':
            i = self.atom('uitofp', a[0].id)
            return self.patom(i)
        if op == 'fite':
            i = self.atom('fite', t.id)
            self.fact(i, 'ite', (i, a))
            return self.patom(i)
        raise NotImplementedError('poly ' + op)

    def inv(self, q):
        if len(q) == 1:
            (m, c), = q.items()
            return {tuple((x, -e) for x, e in m): 1 / c}
        # inverse of a sum: normalise the leading coefficient
        f = freeze(q)
        lead = f[0][1]
        qn = pscale(q, 1 / lead)
        i = self.atom('inv', '', (freeze(qn),))
        self.fact(i, 'inv', (i, qn))
        return {((i, 1),): 1 / lead}

    def eliminate(self, d):
        """d = 0 holds: express one variable through the rest. Sound whatever is chosen."""
        for m, c in sorted(d.items(), reverse=True):
            if len(m) == 1 and m[0][1] == 1:
                i = m[0][0]
                k, n, _ = self.at.rec[i]
                if k != 'var': continue
                rest = {x: y for x, y in d.items() if x != m}
                if any(a == i for x in rest for a, _ in x): continue
                q = pscale(rest, -1 / c)
                for v, p in list(self.subst.items()):
                    self.subst[v] = self.replace(p, i, q)
                self.subst[n] = q
                self.p = {}
                self.begin()
                return n
        return None

    def replace(self, p, i, q):
        out = {}
        for m, c in p.items():
            e = dict(m).get(i, 0)
            if e <= 0:
                out = padd(out, {m: c})
                continue
            r = {tuple((a, x) for a, x in m if a != i): c}
            for _ in range(e): r = self.pmul(r, q)
            out = padd(out, r)
        return out

    def square(self, x, y):
        """x*y for sums of the same length: an atom when y is a multiple of x"""
        f = freeze(x)
        m0, c0 = f[0]
        d0 = y.get(m0)
        if d0 is None or any(y.get(m) != c * d0 / c0 for m, c in f):
            return self.pmul(x, y)
        q = pscale(x, 1 / c0)
        i = self.atom('sq', '', (freeze(q),))
        self.fact(i, 'sq', q)
        return {((i, 1),): c0 * d0}

    def fact(self, i, kind, payload):
        l = self.facts.setdefault(i, [])
        if all(k != kind for k, _ in l):
            l.append((kind, payload))

    def fun(self, a):
        name = a[0]
        ps = [self.poly(x) for x in a[1:]]
        if name == 'sqrt':
            p = ps[0]
            if not p: return {}
            # perfect square of a monomial
            i = self.atom('sqrt', '', (freeze(p),))
            self.sqrt_of[i] = p
            self.fact(i, 'sqrt', (i, p))
            return self.patom(i)
        i = self.atom('fun', name, tuple(freeze(p) for p in ps))
        if name == 'pow':
            self.fact(i, 'pow', (i, ps[0], ps[1]))
        elif name == 'exp':
            self.fact(i, 'pos', (i,))
        return self.patom(i)

    # ------------------------------------------------ z3
    def axiom(self, kind, x):
        if kind == 'sq':
            i = self.atom('sq', '', (freeze(x),))
            v, q = self.z(self.patom(i)), self.z(x)
            return z3.And(v >= 0, (v == 0) == (q == 0), self.sqa_ax(v, q))
        if kind == 'sqrt':
            i, p = x
            s = self.z(self.patom(i))
            return z3.And(s >= 0, z3.Implies(self.z(p) == 0, s == 0), z3.Implies(self.z(p) > 0, s > 0), self.sq_ax(i, p))
        if kind == 'pos': return self.z(self.patom(x[0])) > 0
        if kind == 'abs':
            i, p = x
            v = self.z(self.patom(i)); q = self.z(p)
            return z3.And(v >= 0, z3.Or(v == q, v == -q))
        if kind == 'inv':
            i, q = x
            return self.inv_ax(i, q)
        if kind == 'ite':
            i, a = x
            return self.z(self.patom(i)) == z3.If(self.cond(a[0]), self.z(self.poly(a[1])), self.z(self.poly(a[2])))
        if kind == 'pow':
            i, b, e = x
            r, b, e = self.z(self.patom(i)), self.z(b), self.z(e)
            return z3.And(z3.Implies(b > 0, r > 0), z3.Implies(z3.And(b >= 1, e > 0), r >= 1),
                          z3.Implies(z3.And(b > 1, e > 0), r > 1), z3.Implies(z3.And(b > 0, b < 1, e > 0), r < 1),
                          z3.Implies(z3.And(b == 0, e > 0), r == 0), z3.Implies(b == 1, r == 1))
        raise NotImplementedError(kind)

    def sq_ax(self, i, p): return z3.BoolVal(True)
    def sqa_ax(self, v, q): return z3.BoolVal(True)
    def inv_ax(self, i, q): return self.z(self.patom(i)) != 0

    def z(self, p):
        """polynomial -> z3 real expression"""
        ts = []
        for m, c in p.items():
            if m == ONE: ts.append(rv(c))
            else:
                v = self.mono_z(m)
                ts.append(v if c == 1 else rv(c) * v)
        if not ts: return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def mono_z(self, m):
        v = self.mono.get(m)
        if v is None:
            v = self.mono[m] = self.mono_new(m)
        self.touch(m)
        return v

    def mono_facts(self, m): pass

    def lo(self, t):
        if isinstance(t, float) or t.__class__ is T.FTerm:
            return self.z(self.poly(t))
        return Lower.lo(self, t)

    def node(self, t):
        if t.__class__ is T.FTerm:
            return None
        return Lower.node(self, t)

    def fcmp(self, op, a, b):
        if op == 'funo': return z3.BoolVal(False)
        d = padd(self.poly(a), self.poly(b), -1)
        # canonical sign and scale
        if not d:
            return z3.BoolVal(op != 'folt')
        f = freeze(d)
        lead = f[0][1] if f[0][0] != ONE or len(f) == 1 else f[1][1]
        d = pscale(d, 1 / abs(lead))
        e = self.z(d)
        if op == 'foeq':
            return e == 0
        if op == 'folt': return e < 0
        return e <= 0

    def fbits(self, a):
        return z3.Function('fbits', z3.RealSort(), z3.BitVecSort(64))(self.z(self.poly(a)))

    def atom_z(self, i):
        v = self.atomv.get(i)
        if v is None:
            k, n, _ = self.at.rec[i]
            v = self.atomv[i] = z3.Real(n if k == 'var' else '%s!%s!%d' % (k, n, i))
            if k == 'var': self.vars[n] = (v, None)
            if k == 'uitofp':
                pass
        return v

    def diff(self, a, b):
        return padd(self.poly(a), self.poly(b), -1)


class Lin(PolyLower):
    name = 'real-linear'
    def mono_new(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom_z(m[0][0])
        return z3.Real('mono!%d' % len(self.mono))

    def fcmp(self, op, a, b):
        r = PolyLower.fcmp(self, op, a, b)
        if op != 'funo': self.clear(self.diff(a, b))
        return r

    def clear(self, d):
        """a comparison of two monomials keeps its outcome when denominators are cleared"""
        if len(d) != 2: return
        neg = {}
        for m in d:
            for a, e in m:
                if e < 0: neg[a] = max(neg.get(a, 0), -e)
        if not neg: return
        m = tuple(sorted(neg.items()))
        k = ('clear', freeze(d))
        if k in self.seen_a: return
        self.seen_a.add(k)
        D = {m: Fraction(1)}
        x, y = self.z(d), self.z(self.pmul(d, D))
        self.axioms.append(('clear', z3.Implies(z3.And([self.atom_z(a) > 0 for a in neg]),
                                                z3.And((x < 0) == (y < 0), (x == 0) == (y == 0)))))

    def mono_facts(self, m):
        if len(m) == 1 and m[0][1] == 1 or m == ONE: return
        v = self.mono[m]
        for a, e in m:
            k, n, _ = self.at.rec[a]
            if k == 'fun' and n == 'pow' and e == 1:
                w, p = self.mono_z(tuple(x for x in m if x[0] != a)), self.atom_z(a)
                self.axioms.append(('pow', z3.And(z3.Implies(z3.And(w > 0, p < 1), v < w), z3.Implies(z3.And(w > 0, p > 1), v > w),
                                                  z3.Implies(p == 1, v == w))))
        den = tuple((a, -e) for a, e in m if e < 0)
        if den and len(m) <= 4:
            num = tuple((a, e) for a, e in m if e > 0)
            x = self.mono_z(num) if num else z3.RealVal(1)
            y = self.mono_z(den)
            self.axioms.append(('quo', z3.Implies(z3.And([self.atom_z(a) > 0 for a, _ in den]),
                                                  z3.And((v < 1) == (x < y), (v == 1) == (x == y)))))
        if all(e % 2 == 0 for _, e in m):
            self.axioms.append(('sq', v >= 0))
        # sign of a product of atoms
        if len(m) <= 4:
            xs = [self.atom_z(a) for a, e in m if e % 2]
            ev = [self.atom_z(a) for a, e in m if e % 2 == 0]
            if xs:
                self.axioms.append(('sgn', z3.Implies(z3.And([x > 0 for x in xs] + [x != 0 for x in ev]), v > 0)))
                self.axioms.append(('sgn', z3.Implies(z3.And([x >= 0 for x in xs]), v >= 0)))
            if any(e > 0 for _, e in m):
                self.axioms.append(('z', z3.Implies(z3.Or([self.atom_z(a) == 0 for a, e in m if e > 0]), v == 0)))


class Nra(PolyLower):
    name = 'real-nonlinear'
    def mono_new(self, m):
        r = None
        for a, e in m:
            x = self.atom_z(a)
            if e < 0:
                x, e = self.inv_z(a), -e
            for _ in range(e):
                r = x if r is None else r * x
        return r
    def inv_z(self, a):
        k = ('i', a)
        y = self.atomv.get(k)
        if y is None:
            y = self.atomv[k] = z3.Real('inv!' + str(self.atom_z(a)))
        return y
    def mono_facts(self, m):
        for a, e in m:
            if e < 0 and ('i', a) not in self.seen_a:
                self.seen_a.add(('i', a))
                self.axioms.append(('inv', self.inv_z(a) * self.atom_z(a) == 1))
    def sqa_ax(self, v, q): return v == q * q
    def sq_ax(self, i, p):
        s = self.z(self.patom(i))
        return z3.Implies(self.z(p) >= 0, s * s == self.z(p))
    def inv_ax(self, i, q):
        return self.z(self.patom(i)) * self.z(q) == 1

    def congruence(self, limit=400):
        """axioms: equal arguments give equal values, for applications of one function"""
        by = {}
        for i, (k, n, args) in enumerate(self.at.rec):
            if k in ('uf', 'fun') and i in self.atomv:
                by.setdefault((k, n, len(args)), []).append((i, args))
        out = []
        for l in by.values():
            for x in range(len(l)):
                for y in range(x):
                    if len(out) >= limit: return out
                    out.append(z3.Implies(z3.And([self.z(dict(p)) == self.z(dict(q)) for p, q in zip(l[x][1], l[y][1])]),
                                          self.atom_z(l[x][0]) == self.atom_z(l[y][0])))
        return out


class Series(Lin):
    """Lin with arithmetic modulo a power of one variable (a ring homomorphism: terms with a
    higher power of it never come back to a lower one)"""
    def __init__(self, var, order):
        Lin.__init__(self, True)
        self.h = self.atom('var', var)
        self.order = order

    def pmul(self, a, b):
        h, order = self.h, self.order
        def split(p):
            d = {}
            for m, c in p.items():
                e = 0
                for x, k in m:
                    if x == h: e = k
                if e < 0: raise NotImplementedError('division by the series variable')
                d.setdefault(e, []).append((m, c))
            return d
        x, y = split(a), split(b)
        r = {}
        for i, u in x.items():
            for j, v in y.items():
                if i + j > order: continue
                for m, c in u:
                    for n, d in v:
                        k = mmul(m, n)
                        w = r.get(k, 0) + c * d
                        if w: r[k] = w
                        else: r.pop(k, None)
        return r

    def mono_facts(self, m): pass
    def inv(self, q):
        if len(q) != 1 or any(x == self.h for x, _ in next(iter(q))): raise NotImplementedError('division in a series')
        return Lin.inv(self, q)
