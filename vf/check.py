"""Scenarios, their symbolic exploration, the discharge of their claims by the solver, the
replay of counterexamples against the really compiled code, and the evidence."""
import json
import math
import multiprocessing
import multiprocessing.connection
import os
import random
import re
import resource
import sys
import time
import traceback
import z3
from . import terms as T
from . import rt as R
from . import host as HO
from . import lower as L
from . import poly as PL
from . import native as N
from . import build

sys.setrecursionlimit(200000)
EV = os.path.join(build.V, 'evidence')
TOL = 1e-9          # native disagreement, relative to the scale of the run, that counts


REALS = ('real', 'rnd', 'lra')


class Inconclusive(Exception):
    pass


class Scenario:
    """One symbolic execution of one entry point.

    cfg      concrete integer inputs (lengths, selectors); names ending in .len or .some
             default to 0; other integer inputs are symbolic
    spec     function(ctx): states claims about the outputs; runs at the end of every path
             (symbolically, and again on floats for replays)
    mode     'real': exact real arithmetic; 'bits': IEEE bit patterns, uninterpreted + - * /
    assume   function(ctx) -> list of conditions on the inputs
    alias    function(kind, name) -> other input name or concrete value
    user     function(ctx, c, t, ys) -> value: the right-hand side (default: uninterpreted)
    cut      paths that call the user function more often are out of bounds; or {run: calls so far}
    ends     the ways a path may end without being a violation
    draw     function(name, rng) -> float: distribution for concrete runs
    mod      the module the entry point is in
    host     host.Scratch: the files at the start; native runs happen in a scratch directory
    """
    def __init__(self, name, entry, cfg, spec, mode='real', assume=None, alias=None, user=None, cut=None,
                 ends=('ok',), draw=None, max_paths=4000, bounds='', symu=None, expand=False, path_ms=2000, claim_ms=20000,
                 traces=2, ext=None, steps=3_000_000, fdefault=None, reach=None, tol=False, mod='ir', host=None, setup=None):
        self.__dict__.update(locals())
        del self.__dict__['self']


class Ctx:
    def __init__(self):
        self.claims = []
        self.skipped = []
    def eq(self, label, l, r): self.claims.append(('eq', label, l, r))
    def ok(self, label, c): self.claims.append(('ok', label, c, None))
    def le(self, label, a, b): self.ok(label, self.cle(a, b))
    def fail(self, label): self.ok(label, False)
    def ser(self, label, f, var, order):
        """the two sides f(self) agree as power series in the input var up to its power order"""
        l, r = f(self)
        self.claims.append(('ser', label, (l, r), (var, order)))
    def outside(self, why):
        """the rest of this path is outside the claim"""
        self.skipped.append(why)
    # values
    def cle(self, a, b): return T.fcmp('ole', a, b)
    def clt(self, a, b): return T.fcmp('olt', a, b)
    def ceq(self, a, b): return T.fcmp('oeq', a, b)
    def lt(self, a, b): return bool(T.fcmp('olt', a, b))
    def leq(self, a, b): return bool(T.fcmp('ole', a, b))
    def div(self, a, b): return T.fdiv(a, b)
    def sqrt(self, a): return T.fun1('sqrt', a, T.csqrt)
    def pow(self, a, b): return T.fpow(a, b)
    def fun(self, name, a): return T.fun1(name, a, {'sin': math.sin, 'cos': math.cos, 'exp': math.exp}[name])
    def fbits(self, x): return T.to_bits(x)
    def min(self, a, b): return T.fminnum(a, b)
    def has(self, name): return name in self.outs
    def out(self, name):
        if name not in self.outs:
            self.fail('missing output ' + name)
            raise Missing(name)
        return self.outs[name]
    def outs_below(self, prefix):
        p = prefix + '.'
        return [k for k in self.outs if k.startswith(p)]
    def vec(self, prefix):
        n = self.out(prefix + '.len')
        if T.is_t(n): n = self.conc(n)
        return [self.out('%s.%d' % (prefix, i)) for i in range(n)]
    def fvec(self, prefix, n): return [self.f('%s.%d' % (prefix, i)) for i in range(n)]
    def unchanged(self, label, out_prefix, in_prefix, skip=None):
        """every output below out_prefix equals the input of the same name below in_prefix"""
        n = 0
        for k in self.outs_below(out_prefix):
            rel = k[len(out_prefix) + 1:]
            if skip and skip(rel): continue
            self.eq('%s: %s' % (label, rel), self.outs[k], self.narrow(k_kind(self.outs[k]), in_prefix + '.' + rel))
            n += 1
        if n == 0: self.fail(label + ': nothing compared')
        return n
    def same(self, label, pa, pb, skip=None):
        """outputs below pa and pb agree"""
        a = [k[len(pa) + 1:] for k in self.outs_below(pa)]
        b = [k[len(pb) + 1:] for k in self.outs_below(pb)]
        if skip:
            a = [x for x in a if not skip(x)]; b = [x for x in b if not skip(x)]
        if sorted(a) != sorted(b):
            d = sorted(set(a) ^ set(b))
            self.fail('%s: different layout at %s' % (label, d[:3]))
            return
        if not a: self.fail(label + ': nothing compared')
        for x in a:
            self.eq('%s: %s' % (label, x), self.outs[pa + '.' + x], self.outs[pb + '.' + x])
    def narrow(self, kind, name):
        """the input, cut to the width of the field it goes to"""
        v = self.input(kind, name)
        if kind == 'f': return v
        l = [x for x in name.split('.') if not x.isdigit()][-1]
        w = WIDTH.get(l)
        if w is None: return v
        return T.trunc(v, w) if self.sym and T.is_t(v) else v & ((1 << w) - 1)
    def f(self, name): return self.input('f', name)
    def u(self, name): return self.input('u', name)


WIDTH = {'k': 32, 'id': 32, 'n_iter': 8, 'max_iter': 8, 'save': 1, 'save_states': 1, 'flag': 1}


class Missing(Exception):
    pass


def k_kind(v):
    return 'f' if isinstance(v, (float, T.FTerm)) else 'u'


class SymCtx(Ctx):
    def __init__(self, ex, outs):
        Ctx.__init__(self)
        self.ex, self.outs, self.sym = ex, outs, True
    def input(self, kind, name): return self.ex.input_full(kind, name)
    def user(self, c, t, ys): return self.ex.user(c, t, list(ys))
    def conc(self, t): return self.ex.concretize(t)
    def u8(self, name): return T.trunc(self.u(name), 8)
    def read(self, v): return HO.untoken(self.ex, v)


class NatCtx(Ctx):
    def __init__(self, outs, inp, user):
        Ctx.__init__(self)
        self.outs, self.inp, self.usr, self.sym = outs, inp, user, False
    def input(self, kind, name): return self.inp(kind, name)
    def user(self, c, t, ys): return self.usr(int(c), t, list(ys))
    def conc(self, t): return t
    # comparisons of the reference that rounding could turn around make a replay worthless
    fuzzy, exact, scale = False, False, 1.0
    def near(self, a, b):
        if isinstance(a, float) and isinstance(b, float) and not self.exact and a != b and abs(a) != T.INF and abs(b) != T.INF \
                and abs(a - b) <= TOL * max(self.scale, abs(a), abs(b)):
            self.fuzzy = True
    def cle(self, a, b): self.near(a, b); return a <= b
    def clt(self, a, b): self.near(a, b); return a < b
    def ceq(self, a, b): self.near(a, b); return a == b
    def lt(self, a, b): self.near(a, b); return a < b
    def leq(self, a, b): self.near(a, b); return a <= b
    def u8(self, name): return self.u(name) & 255
    def read(self, v): return v
    rerun = None
    def ser(self, label, f, var, order):
        """the power of var at which the two sides start to differ, observed on the compiled code"""
        l, r = f(self)
        ds = []
        for k in range(3, 8):
            h = 2.0 ** -k
            c = self.rerun(var, h)
            if c is None: return
            try: l, r = f(c)
            except Missing: return
            ds.append(abs(l - r))
        seen = [math.log2(a / b) for a, b in zip(ds, ds[1:]) if a > 1e-12 and b > 1e-12]
        if len(seen) >= 2 and all(x < order + 0.5 for x in seen[-2:]):
            self.ok('%s: the difference shrinks only with power %.2f of the step size' % (label, seen[-1]), False)


def input_name(sc, kind, name):
    """-> concrete value or symbolic variable for an input"""
    if sc.alias is not None:
        a = sc.alias(kind, name)
        if a is not None:
            if not isinstance(a, str): return a
            name = a
    if kind == 'u':
        if name in sc.cfg:
            v = sc.cfg[name]
            return T.ivar(name, 64) if v == 'sym' else v
        for rx, v in sc.cfg.items():
            if rx.startswith('~') and re.fullmatch(rx[1:], name): return T.ivar(name, 64) if v == 'sym' else v
        if name.endswith('.len') or name.endswith('.some'): return 0
        if name.endswith(('.max_iter', '.save', '.save_states', '.method', '.op', '.m', 'sys', '.n_ops', 'runs')):
            raise Inconclusive('no value for ' + name)
        w = 64
        return T.ivar(name, w)
    if name in sc.cfg: return sc.cfg[name]
    for rx, v in sc.cfg.items():
        if rx.startswith('~') and v.__class__ is float and re.fullmatch(rx[1:], name): return v
    return T.fvar(name)


def draw(sc, name, rng):
    if sc.draw is not None:
        v = sc.draw(name, rng)
        if v is not None: return v
    last = name.split('.')[-1]
    if last in ('rtol', 'atol'): return 10.0 ** rng.uniform(-4, 1)
    if last in ('dt', 'dt_max'): return rng.choice([0.125, 0.25, 0.5, 1.0, 0.7, 1.3])
    if name.endswith(('.c', '.h')): return rng.choice([0.5, 0.75, 1.0, 1.5, 2.25])
    return rng.randint(-128, 128) / 64.0


def make_lower(sc, kind):
    if sc.mode == 'real':
        return PL.Lin(sc.expand) if kind == 'lin' else PL.Nra(sc.expand)
    return {'fp': L.FP, 'rnd': L.Rnd, 'lra': L.Lra, 'bits': L.Bits, 'abs': L.Abs}[sc.mode]()


class Run:
    """explores and discharges one scenario"""
    def __init__(self, rt, sc, binary, seed, deadline):
        self.rt, self.sc, self.bin, self.deadline = rt, sc, binary, deadline
        self.rng = random.Random('%d %s' % (seed, sc.name))
        self.stats = L.Stats()
        self.res = dict(name=sc.name, paths=0, decisions=0, claims=0, labels=set(), cuts=0, traces=0, steps=0,
                        violations=[], inconclusive=[], nra=0, ends={}, outside={}, sample=None)
        self.since = time.time()
        self.turn = lambda: None
        self.ser_done = {}

    # ---------------------------------------------------------------- main
    def go(self):
        sc = self.sc
        t0 = time.time()
        low = make_lower(sc, 'lin')
        try:
            for k, f in (sc.ext or {}).items():
                self.rt.ext[k] = f
            self.rt._ov.clear()
            self.rt.max_steps = sc.steps
            T.NONAN[0] = sc.mode in REALS
            self.oracle = L.Oracle(low, (), sc.path_ms, self.stats)
            ex = self.ex = R.Explorer(self.rt, self.oracle, lambda k, n: input_name(sc, k, n), max_paths=sc.max_paths,
                                      user=None, real=sc.mode in REALS)
            if sc.user is not None:
                ex.user_fn = lambda c, t, ys: sc.user(SymCtx(ex, {}), c, t, ys)
            ex.cut = sc.cut
            ex.in_cache = {}
            if sc.setup or sc.host: ex.at_start = lambda: ((sc.setup or (lambda *a: 0))(self.rt, ex), sc.host and sc.host.setup(ex))
            T.DECIDE[0] = ex.decide
            self.assume = []
            if sc.assume:
                c = SymCtx(ex, {})
                R.REAL[0] = None
                self.assume = [a for a in sc.assume(c) if a is not True]
            self.oracle.assume = self.assume
            self.traces(sc.traces)
            ex.spec = self.spec
            ex.on_path = self.path
            ex.deadline = self.deadline
            try:
                ex.explore(sc.entry)
            except R.Budget as e:
                self.res['inconclusive'].append('exploration stopped: %s' % e)
            if self.res['violations']:
                self.res['inconclusive'] = []
            if self.res['paths'] - self.res['cuts'] <= 0:
                self.res['inconclusive'].append('no complete path')
            self.res['decisions'] = ex.n_decisions
        except Stop:
            pass
        except Exception as e:
            self.res['inconclusive'].append('%s: %s' % (type(e).__name__, e))
            self.res['trace'] = traceback.format_exc()[-700:]
        finally:
            for k in (sc.ext or {}):
                self.rt.ext.pop(k, None)
            self.rt._ov.clear()
        if self.res['violations']:
            self.res['inconclusive'] = []
        self.res['wall'] = time.time() - t0
        self.res['q'] = self.stats.q
        self.res['solver_s'] = self.stats.t
        self.res['functions'] = set(self.rt.called)
        self.res['labels'] = set(self.res['labels'])
        return self.res

    def spec(self, path):
        c = SymCtx(self.ex, path.outs)
        if self.sc.host: path.outs['fs.files'] = len(HO.fs(self.ex).live())
        try:
            self.sc.spec(c)
        except Missing:
            pass
        path.claims = c.claims
        path.skipped = c.skipped

    # ---------------------------------------------------------------- one path
    def path(self, p):
        r, sc = self.res, self.sc
        self.turn()
        r['paths'] += 1
        r['steps'] += p.steps
        r['ends'][p.status] = r['ends'].get(p.status, 0) + 1
        if p.status == 'cut':
            r['cuts'] += 1
            return
        if p.status != 'ok' and p.status not in sc.ends:
            # the code does not come back normally: a violation if it is real
            self.stats.add('end', 'abnormal', 0)
            self.refute(p, ('ok', 'ends with %s: %s' % (p.status, p.msg), False, None))
            return
        for w in p.skipped:
            r['outside'][w] = r['outside'].get(w, 0) + 1
        claims = p.claims
        if sc.mode == 'bits': claims = claims + []
        r['claims'] += len(claims)
        for c in claims: r['labels'].add(re.sub(r'\d+', '#', c[1]))
        if r['sample'] is None and claims:
            r['sample'] = dict(scenario=sc.name, path=[('' if v else 'not ') + T.show(c, 4)[:120] for c, v in p.pc[:6]],
                               claims=['%s: %s' % (c[1], T.show(c[2][0] if c[0] == 'ser' else c[2], 4)[:120]) for c in claims[:3]])
        bad = self.discharge(p, claims)
        for c in bad[:2]:
            self.refute(p, c)

    def negation(self, low, c, margin=0):
        kind, label, l, r = c
        if kind == 'ok':
            if not T.is_t(l): return z3.BoolVal(not l)
            return z3.Not(low.cond(l))
        return self.neq(low, l, r, margin)

    def neq(self, low, l, r, margin=0):
        if l is r: return z3.BoolVal(False)
        lf, rf = isinstance(l, (float, T.FTerm)), isinstance(r, (float, T.FTerm))
        if lf != rf: return z3.BoolVal(True)
        if not lf:
            if not T.is_t(l) and not T.is_t(r): return z3.BoolVal(int(l) != int(r))
            w = l.w if T.is_t(l) else r.w
            if T.is_t(l) and T.is_t(r) and l.w != r.w:
                w = max(l.w, r.w)
                l, r = T.zext(l, l.w, w), T.zext(r, r.w, w)
            return low.bv(l, w) != low.bv(r, w)
        if self.sc.mode != 'real':
            if self.sc.mode in ('rnd', 'lra'):
                if l is r: return z3.BoolVal(False)
                ls, rs = R._spec(l), R._spec(r)
                if ls or rs: return z3.BoolVal(not (ls and rs and (l == r or (l != l and r != r))))
            if self.sc.mode == 'fp': return z3.Not(z3.fpEQ(low.lo(l), low.lo(r)))
            return low.lo(l) != low.lo(r)
        ls, rs = R._spec(l), R._spec(r)
        if ls or rs:
            if ls and rs: return z3.BoolVal(not (l == r or (l != l and r != r)))
            return z3.BoolVal(True)
        d = low.diff(l, r)
        if not d: return z3.BoolVal(False)
        z = low.z(d)
        if margin: return z3.Or(z > margin, z < -margin)
        return z != 0

    def discharge(self, p, claims):
        """one query per path; the failing claims if it is not unsat"""
        bad = [c for c in claims if c[0] == 'ser' and not self.series(c)]
        claims = [c for c in claims if c[0] != 'ser']
        return bad + (self.discharge_(p, claims) if claims else [])

    def series(self, c):
        """does the solver rule out a difference of the two sides modulo var^(order+1)?"""
        _, label, (l, r), (var, order) = c
        key = (T.is_t(l) and l.id, T.is_t(r) and r.id, var, order)
        if key in self.ser_done: return self.ser_done[key]
        low = PL.Series(var, order)
        a, b = low.poly(l), low.poly(r)
        s = z3.Solver()
        s.set('timeout', self.sc.claim_ms)
        t0 = time.time()
        s.add(low.z(a) != low.z(b))
        v = s.check()
        self.stats.add('series', str(v), time.time() - t0)
        self.res['monomials'] = self.res.get('monomials', 0) + len(a)
        self.ser_done[key] = v == z3.unsat
        return v == z3.unsat

    def discharge_(self, p, claims):
        o = self.oracle
        o.sync(p.pc)
        low = o.low
        neg = [self.negation(low, c) for c in claims]
        t0 = time.time()
        s = o.s
        s.set('timeout', self.sc.claim_ms)
        s.push()
        o.ax()
        s.add(z3.Or(neg) if neg else z3.BoolVal(False))
        v = s.check()
        self.stats.add('claims', str(v), time.time() - t0)
        bad = []
        if v != z3.unsat:
            for c, n in zip(claims, neg):
                n2 = z3.simplify(n)
                if z3.is_false(n2): continue
                s.push(); s.add(n)
                t0 = time.time()
                v2 = s.check()
                self.stats.add('claim', str(v2), time.time() - t0)
                if v2 != z3.unsat:
                    m = None
                    if v2 == z3.sat: m = s.model()
                    bad.append(c)
                    self.model0 = self.read_model(low, m) if m is not None else {}
                s.pop()
        s.pop()
        if bad and self.sc.mode == 'real':
            bad = self.with_equalities(p, bad)
        s.set('timeout', self.sc.path_ms)
        return bad

    def with_equalities(self, p, bad):
        """the path condition may force equalities (ties): rewrite with them and retry"""
        o = self.oracle
        s = o.s
        low = o.low
        s.set('timeout', 2000)
        eqs = []
        for c, v in [(a, True) for a in self.assume] + p.pc:
            while c.op == 'not': c, v = c.args[0], not v
            if c.op not in ('foeq', 'folt', 'fole'): continue
            if c.op == 'foeq' and not v: continue
            a, b = c.args
            if R._spec(a) or R._spec(b): continue
            d = low.diff(a, b)
            if not d: continue
            t0 = time.time()
            z = low.z(d)
            o.ax()
            r = s.check(z != 0)
            self.stats.add('tie', str(r), time.time() - t0)
            if r == z3.unsat: eqs.append((a, b))
        s.set('timeout', self.sc.claim_ms)
        if not eqs: return bad
        l2 = PL.Lin(self.sc.expand)
        got = False
        for a, b in eqs:
            d = l2.diff(a, b)
            if d and l2.eliminate(d): got = True
        if not got: return bad
        o2 = L.Oracle(l2, self.assume, self.sc.claim_ms, self.stats)
        o2.begin()
        o2.sync(p.pc)
        out = []
        for c in bad:
            n = self.negation(l2, c)
            o2.ax()
            t0 = time.time()
            r = o2.s.check(n)
            self.stats.add('claim with ties', str(r), time.time() - t0)
            if r != z3.unsat: out.append(c)
        return out

    def read_model(self, low, m):
        env = {}
        if m is None: return env
        if isinstance(low, PL.PolyLower):
            for i, (k, n, _) in enumerate(low.at.rec):
                if k == 'var' and i in low.atomv:
                    v = m.eval(low.atomv[i])
                    f = z3_float(v)
                    if f is not None: env[n] = f
            for n, x in low.vars.items():
                v = x[0]
                if z3.is_bv(v):
                    e = m.eval(v)
                    if z3.is_bv_value(e): env[n] = e.as_long()
        else:
            for n, (v, t) in low.vars.items():
                e = m.eval(v)
                if low.name == 'abs' and t.__class__ is T.FTerm: continue
                if z3.is_rational_value(e): e = z3_float(e); env[n] = e if e is not None else 0.0; continue
                if z3.is_fp(e): e = z3.simplify(z3.fpToIEEEBV(e))
                if z3.is_bv_value(e):
                    b = e.as_long()
                    env[n] = T.float_of(b) if t.__class__ is T.FTerm else b
        return env

    # ---------------------------------------------------------------- counterexamples
    def refute(self, p, claim):
        """find a concrete input on which the really compiled code breaks the claim"""
        sc = self.sc
        label = claim[1]
        cands = []
        m0 = getattr(self, 'model0', {})
        self.model0 = {}
        verdict = None
        if sc.mode == 'real' and p.status == 'ok' and claim[0] != 'ser':
            try:
                verdict, env, rows = self.nra(p, claim)
            except (PL.TooBig, NotImplementedError, ValueError, z3.Z3Exception) as e:
                verdict, env, rows = 'unknown', None, []
            if verdict == 'unsat':
                self.res['nra'] += 1
                return
            if env is not None:
                cands.append((env, rows))
                if self.simple: cands.append(self.simple)
        if not m0 and p.status != 'ok':
            o = self.oracle
            o.sync(p.pc)
            if o.chk() == z3.sat: m0 = self.read_model(o.low, o.s.model())
        if sc.mode in ('rnd', 'lra') and claim[0] == 'ok' and T.is_t(claim[2]): cands += self.clearly(p, claim)
        if sc.mode == 'abs' and claim[0] != 'ser':
            verdict, m0 = self.exact_bits(p, claim)
            if verdict == 'unsat': return
        if m0: cands.append((m0, []))
        cands.append(({}, []))
        tried = 0
        n_nat = 0
        t0 = time.time()
        limit = 40 if n_nat == 0 else 10
        k = 0
        while k < 400 and n_nat < 25 and time.time() - t0 < 60 and time.time() < self.deadline:
            base, rows = cands[k] if k < len(cands) else (m0 if k % 2 else {}, [])
            env = Env(sc, self.rng, base, keep=1.0 if k < len(cands) else self.rng.choice([0.3, 0.6, 0.9]))
            k += 1
            ok, env, rows = self.fit(p, env, rows, fresh=k > len(cands))
            if not ok and k > 3 and k % 8: continue
            n_nat += 1
            v = self.replay(p, env, rows)
            if v is not None:
                self.violation(claim, env, rows, v)
                return
        self.res['inconclusive'].append('claim "%s" not discharged (solver: %s) and no counterexample reproduced in %d native runs' % (label, verdict or 'sat', n_nat))

    def fit(self, p, env, rows, fresh=False):
        """check the path condition on floats, adjusting inputs that sit on a tie"""
        user = N.User(rows)
        ok = True
        for rnd in range(6):
            e = N.Evaluator(env, user)
            bad = None
            for c, v in list(((a, True) for a in self.assume)) + p.pc:
                try:
                    if bool(e.ev(c)) != v:
                        bad = (c, v); break
                except (OverflowError, ZeroDivisionError, ValueError):
                    bad = (c, v); break
            if bad is None:
                return True, env, rows
            c, v = bad
            if c.__class__ is not T.ITerm or c.op not in ('foeq', 'folt', 'fole', 'eq'):
                return False, env, rows
            a, b = c.args
            # make the two sides meet: needed for equalities, harmless for non-strict orders
            if not ((c.op in ('foeq', 'eq') and v) or (c.op == 'fole' and v) or (c.op == 'folt' and not v)):
                return False, env, rows
            done = False
            for x, y in ((a, b), (b, a)):
                if isinstance(x, T.Term) and x.op == 'var':
                    env.set(x.args[0], e.ev(y)); done = True; break
                # the user function may take the needed value
                if isinstance(x, T.Term) and x.op == 'uf':
                    rows = rows + [(int(x.args[0][1:]), tuple(e.ev(q) for q in x.args[1:]), e.ev(y))]
                    user = N.User(rows); done = True; break
            if not done: return False, env, rows
        return False, env, rows

    def clearly(self, p, claim):
        """models in which an order claim fails by more than roundings"""
        c = claim[2]
        if c.op not in ('fole', 'folt') or any(R._spec(x) for x in c.args): return []
        o = self.oracle
        o.sync(p.pc)
        out = []
        try:
            d = o.low.lo(c.args[0]) - o.low.lo(c.args[1])
        except Exception:
            return []
        for m in ('1', '1/1000', '1/1000000', '1/1000000000', '1/1000000000000'):
            o.s.push()
            o.ax()
            o.s.add(d > z3.RealVal(m))
            t0 = time.time()
            v = o.s.check()
            self.stats.add('margin', str(v), time.time() - t0)
            if v == z3.sat: out.append((self.read_model(o.low, o.s.model()), []))
            o.s.pop()
            if len(out) >= 2: break
        return out

    def exact_bits(self, p, claim):
        """decide with IEEE comparisons what the abstraction could not"""
        low = L.Bits()
        o = L.Oracle(low, self.assume, 30000, self.stats)
        o.begin()
        o.sync(p.pc)
        n = z3.BoolVal(True) if p.status != 'ok' else self.negation(low, claim)
        r = o.chk(n)
        return str(r), (self.read_model(low, o.s.model()) if r == z3.sat else {})

    def nra(self, p, claim):
        self.simple = None
        low = make_lower(self.sc, 'nra')
        s = z3.Solver()
        s.set('timeout', 15000)
        cs = [low.cond(a) for a in self.assume]
        for c, v in p.pc:
            z = low.cond(c)
            cs.append(z if v else z3.Not(z))
        n = self.negation(low, claim)
        cong = low.congruence()
        cs += [a for _, a in low.axioms] + cong
        t0 = time.time()
        s.add(cs); s.add(n)
        r = s.check()
        self.stats.add('nonlinear', str(r), time.time() - t0)
        if r == z3.unsat:
            return 'unsat', None, []
        best = None
        if r == z3.sat: best = s.model()
        # a clearer counterexample: larger margin, moderate values
        if claim[0] == 'eq' and isinstance(claim[2], (float, T.FTerm)) and not R._spec(claim[2]) and not R._spec(claim[3]):
            s2 = z3.Solver(); s2.set('timeout', 10000)
            s2.add(cs); s2.add(self.negation(low, claim, z3.RealVal('1/100')))
            for i, (k, nm, _) in enumerate(low.at.rec):
                if i in low.atomv and k in ('var', 'uf'):
                    s2.add(low.atomv[i] >= -8, low.atomv[i] <= 8)
            t0 = time.time()
            r2 = s2.check()
            self.stats.add('nonlinear', str(r2), time.time() - t0)
            if r2 == z3.sat: best = s2.model()
        if best is None:
            return str(r), None, []
        m = self.simplest(low, cs, n, 12)
        self.simple = self.model_rows(low, m) if m is not None else None
        return (str(r),) + self.model_rows(low, best)

    def simplest(self, low, cs, n, limit):
        """a model in which as many numbers as possible are 0, 1, 1/2 ..: floats meet it exactly"""
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(cs); s.add(n)
        t0 = time.time()
        out = None
        rec = [i for i, (k, nm, _) in enumerate(low.at.rec) if i in low.atomv and k in ('var', 'uf')]
        rec.sort(key=lambda i: low.at.rec[i][0] == 'var')
        for i in rec:
            x = low.atomv[i]
            for v in ((0, 1, -1, 2) if low.at.rec[i][0] == 'uf' else (1, 0, '1/2', '1/4', 2, '1/8', 4)):
                if time.time() - t0 > limit: break
                s.push(); s.add(x == z3.RealVal(v))
                r = s.check()
                self.stats.add('simple', str(r), 0)
                if r == z3.sat: out = s.model(); break
                s.pop()
        return out

    def model_rows(self, low, best):
        env = self.read_model(low, best)
        rows = []
        for i, (k, nm, args) in enumerate(low.at.rec):
            if k == 'uf' and i in low.atomv and re.fullmatch(r'f\d+', nm):
                try:
                    v = z3_float(best.eval(low.atomv[i], model_completion=True))
                    a = tuple(z3_float(best.eval(low.z(dict(q)), model_completion=True)) for q in args)
                    if v is not None and None not in a: rows.append((int(nm[1:]), a, v))
                except z3.Z3Exception:
                    pass
        return env, rows

    # ---------------------------------------------------------------- native
    def concrete_inputs(self, inputs, env, rows):
        e = N.Evaluator(env, N.User(rows))
        return {k: e.ev(v) for k, v in inputs.items()}

    def user_rows(self, p, env, rows):
        """values of an interpreted right-hand side, tabulated for the native host"""
        if self.sc.user is None: return rows
        e = N.Evaluator(env, N.User(rows))
        out = list(rows)
        for c, t, ys, v in p.users:
            try: out.append((int(c), (e.ev(t),) + tuple(e.ev(y) for y in ys), e.ev(v)))
            except (OverflowError, ZeroDivisionError, ValueError): pass
        return out

    def replay(self, p, env, rows):
        """runs the real code; -> description of the violated claim, or None"""
        sc = self.sc
        for a in self.assume:
            if not N.Evaluator(env, N.User(rows)).ev(a): return None
        rows = self.user_rows(p, env, rows)
        ins = self.concrete_inputs(p.inputs, env, rows)
        more = lambda k, n: self.concrete_inputs({0: input_name(sc, k, n)}, env, rows)[0]
        status, outs = N.run(self.bin, sc.entry, ins, more, rows, timeout=20, host=sc.host)
        self.last_native = (status, outs)
        if status == 'error': return None
        if status != 'ok':
            if status in sc.ends or (status == 'panic' and any(x in sc.ends for x in ('panic', 'unreachable', 'abort', 'memory'))): return None
            return 'the real code ends with %s: %s' % (status, outs.get('stderr', '')[-200:].strip().replace('\n', ' | '))
        return self.judge(outs, ins, env, rows, more)

    def judge(self, outs, ins, env, rows, more):
        sc = self.sc
        R.REAL[0] = None
        T.DECIDE[0] = None
        try:
            user = N.User(rows)
            def inp(k, n):
                if (k, n) in ins: return ins[(k, n)]
                return more(k, n)
            c = NatCtx(outs, inp, user)
            c.exact = sc.mode != 'real'
            c.rerun = lambda var, h: self.again(ins, var, h, inp, more, env, rows)
            for (k, n), v in ins.items():
                if k == 'f' and v == v and abs(v) < 1e100: c.scale = max(c.scale, abs(v))
            try:
                sc.spec(c)
            except Missing:
                pass
            except (OverflowError, ZeroDivisionError, ValueError):
                return None
            if c.fuzzy: return None
            scale = c.scale
            for kind, label, l, r in c.claims:
                if kind == 'ok':
                    if not l: return '%s: false' % label
                elif not nat_eq(l, r, scale, 'real' if sc.tol else sc.mode):
                    return '%s: %r instead of %r' % (label, l, r)
            return None
        finally:
            T.DECIDE[0] = self.ex.decide
            R.REAL[0] = self.ex if sc.mode in REALS else None

    def again(self, ins, var, h, inp, more, env, rows):
        """the same concrete run with one input changed"""
        ins2 = dict(ins)
        ins2[('f', var)] = h
        env2 = Env(self.sc, self.rng, dict(env.values, **{var: h}), 1)
        rows2 = rows
        if self.sc.user is not None:
            # tabulate the interpreted right-hand side along this run
            st, outs, rows2 = self.tabulate(ins2)
        else: st, outs = N.run(self.bin, self.sc.entry, ins2, more, rows2)
        if st != 'ok': return None
        return NatCtx(outs, lambda k, n: h if (k, n) == ('f', var) else inp(k, n), N.User(rows2))

    def tabulate(self, ins):
        sc = self.sc
        get = lambda k, n: ins[(k, n)] if (k, n) in ins else (draw(sc, n, self.rng) if k == 'f' else 0)
        rows = []
        c = NatCtx({}, get, None)
        keep = self.rt.ex, T.DECIDE[0], R.REAL[0]
        R.REAL[0] = None
        try:
            ex = R.Explorer(self.rt, NoOracle(), lambda kk, nn: get(kk, nn), user=None)
            def uf(cc, t, ys):
                v = sc.user(c, cc, t, ys); rows.append((int(cc), (t,) + tuple(ys), v)); return v
            ex.user_fn = uf
            p = ex.explore(sc.entry)[0]
        finally:
            self.rt.ex, T.DECIDE[0], R.REAL[0] = keep
        if p.status != 'ok': return 'error', {}, rows
        st, outs = N.run(self.bin, sc.entry, {**ins, **p.inputs}, get, rows)
        return st, outs, rows

    def violation(self, claim, env, rows, what):
        ins = {}
        for (k, n), v in self.last_inputs(env, rows).items():
            ins['%s %s' % (k, n)] = N.hx(v) if k == 'f' else v
        self.res['violations'].append(dict(scenario=self.sc.name, claim=claim[1], observed=what, entry=self.sc.entry,
                                           scratch=self.sc.host and (self.sc.host.init.hex() if isinstance(self.sc.host.init, bytes) else [self.sc.host.init]), inputs=ins, readable={n: v for n, v in env.values.items()}, user=[[c, list(a), v] for c, a, v in rows]))
        raise Stop()

    def last_inputs(self, env, rows):
        return self.concrete_inputs(self.ex.in_cache, env, rows)

    # ---------------------------------------------------------------- translator validation
    def traces(self, n):
        """the encoding, run on concrete inputs, against the compiled code"""
        sc = self.sc
        done = 0
        for k in range(60 * n):
            if done >= n: break
            env = Env(sc, self.rng, {}, 0)
            e = N.Evaluator(env, N.User())
            try:
                if not all(e.ev(a) for a in self.assume): continue
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
            user = N.User()
            R.REAL[0] = None
            ex = R.Explorer(self.rt, NoOracle(), lambda kk, nn: e.ev(input_name(sc, kk, nn)), user=None)
            rows = []
            if sc.user is not None:
                c = NatCtx({}, lambda kk, nn: e.ev(input_name(sc, kk, nn)), None)
                def uf(cc, t, ys):
                    v = sc.user(c, cc, t, ys); rows.append((int(cc), (t,) + tuple(ys), v)); return v
                ex.user_fn = uf
            else:
                ex.user_fn = lambda c, t, ys: user(c, t, ys)
            ex.cut = 20000
            if sc.setup or sc.host: ex.at_start = lambda: ((sc.setup or (lambda *a: 0))(self.rt, ex), sc.host and sc.host.setup(ex))
            ps = ex.explore(sc.entry)
            p = ps[0]
            if sc.host: p.outs['fs.files'] = len(HO.fs(ex).live())
            if p.status in ('cut', 'budget'): continue
            ins = dict(p.inputs)
            st, outs = N.run(self.bin, sc.entry, ins, lambda kk, nn: e.ev(input_name(sc, kk, nn)), rows, host=sc.host)
            if p.status != 'ok' or st != 'ok':
                if p.status == 'ok' or st == 'ok':
                    raise Inconclusive('encoding and compiled code disagree: %s/%s vs %s %s' % (p.status, p.msg, st, str(outs)[:300]))
            else:
                if list(sorted(outs)) != list(sorted(p.outs)):
                    raise Inconclusive('encoding and compiled code disagree on the outputs')
                for kk, v in outs.items():
                    w = p.outs[kk]
                    if not ulp_eq(v, w):
                        raise Inconclusive('encoding and compiled code disagree on %s: %r vs %r' % (kk, w, v))
            done += 1
            self.res['traces'] += 1
        self.rt.ex = self.ex
        T.DECIDE[0] = self.ex.decide


def nat_eq(l, r, scale, mode):
    if isinstance(l, float) != isinstance(r, float): return False
    if not isinstance(l, float): return int(l) == int(r)
    if mode != 'real': return T.fbits_of(l) == T.fbits_of(r) or (l != l and r != r)
    if l == r or (l != l and r != r): return True
    if l != l or r != r or abs(l) == T.INF or abs(r) == T.INF: return False
    return abs(l - r) <= TOL * max(scale, abs(l), abs(r))


def ulp_eq(v, w):
    if isinstance(v, float) != isinstance(w, float): return False
    if not isinstance(v, float): return int(v) == int(w)
    if v != v or w != w: return v != v and w != w
    return v == w or abs(v - w) <= 4e-16 * max(abs(v), abs(w))


class Stop(Exception):
    pass


class NoOracle:
    def begin(self): pass
    def feasible(self, pc, c): raise Inconclusive('symbolic condition in a concrete run')
    def value(self, pc, t): raise Inconclusive('symbolic value in a concrete run')


class Env:
    """total assignment of the variables: a base, the rest drawn"""
    def __init__(self, sc, rng, base, keep):
        self.sc, self.rng = sc, rng
        self.values = {n: v for n, v in base.items() if keep >= 1 or rng.random() < keep}
    def __call__(self, kind, name, w=64):
        v = self.values.get(name)
        if v is None or (kind == 'f') != isinstance(v, float):
            if kind == 'f': v = draw(self.sc, name, self.rng)
            else:
                v = self.sc.draw(name, self.rng) if self.sc.draw else None
                if v is None or isinstance(v, float): v = self.rng.choice([0, 1, 2, 3, 5])
            self.values[name] = v
        return v
    def set(self, name, v): self.values[name] = v


def z3_float(v):
    if z3.is_rational_value(v):
        f = v.numerator_as_long() / v.denominator_as_long() if abs(v.numerator_as_long()) < 10 ** 300 else None
        return float(f) if f is not None else None
    if z3.is_algebraic_value(v):
        return z3_float(v.approx(20))
    return None


# -------------------------------------------------------------------- driver
_G = {}


def _worker(i, conn):
    sc = _G['scs'][i]
    rt = _G['rts'][sc.mod]
    rt.called = set()
    lim = _G['mem'] << 20
    try:
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        z3.set_param('memory_max_size', _G['mem'] * 3 // 4)
    except (ValueError, OSError):
        pass
    run = Run(rt, sc, _G['bin'], _G['seed'], _G['deadline'])
    if conn is not None: run.turn = lambda: turn(run, conn)
    try:
        r = run.go()
    except BaseException as e:
        r = dict(name=sc.name, crash='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-3000:])
    if conn is None: return r
    try:
        conn.send(('done', r))
    except BaseException as e:
        conn.send(('done', dict(name=sc.name, crash='%s: %s' % (type(e).__name__, e), trace='')))
    conn.close()
    os._exit(0)


def turn(run, conn):
    """between two paths: a scenario that has had its share lets others go first"""
    if time.time() - run.since < _G['slice']: return
    conn.send(('turn', None))
    conn.recv()
    run.since = time.time()


def schedule(names, jobs, hard):
    """runs the scenarios in processes of their own, in turns; yields their results"""
    ctx = multiprocessing.get_context('fork')
    fresh, resting, active = list(range(len(names))), [], {}
    fresh.reverse()
    def result(i, p, conn, r):
        p.join(5)
        if p.is_alive(): p.kill(); p.join()
        conn.close()
        return r
    try:
        while fresh or resting or active:
            while len(active) < jobs and (fresh or resting):
                if fresh:
                    i = fresh.pop()
                    a, b = ctx.Pipe()
                    p = ctx.Process(target=_worker, args=(i, b), daemon=True)
                    p.start()
                    b.close()
                    active[a] = (i, p)
                else:
                    a, i, p = resting.pop(0)
                    active[a] = (i, p)
                    try: a.send('go')
                    except OSError: pass
            for a in multiprocessing.connection.wait(list(active), timeout=5):
                i, p = active[a]
                try:
                    what, r = a.recv()
                except (EOFError, OSError):
                    what, r = 'done', dict(name=names[i], crash='the process ended (code %s)' % p.exitcode, trace='')
                del active[a]
                if what == 'turn': resting.append((a, i, p))
                else: yield result(i, p, a, r)
            if time.time() > hard:
                for a, (i, p) in list(active.items()) + [(a, (i, p)) for a, i, p in resting]:
                    p.kill()
                    yield dict(name=names[i], crash='no answer in the time available', trace='')
                for i in fresh: yield dict(name=names[i], crash='not started in the time available', trace='')
                return
    finally:
        for p in [p for _, p in active.values()] + [p for _, _, p in resting]:
            if p.is_alive(): p.kill()


def load_known():
    p = os.path.join(build.V, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': []}


def run_check(prop, scenarios, assumptions, bounds, tier, seed, limit_s, only=None, jobs=8, verbose=False):
    t0 = time.time()
    mods = sorted({s.mod for s in scenarios if only is None or re.search(only, s.name)}) or ['ir']
    lls = [build.build(m) for m in mods]
    nb = build.build('native')
    t_build = time.time() - t0
    rts = {m: R.Runtime(l) for m, l in zip(mods, lls)}
    scs = [s for s in scenarios if only is None or re.search(only, s.name)]
    _G.update(scs=scs, rts=rts, bin=nb, seed=seed, deadline=t0 + limit_s, mem=3500, slice=20.0)
    results = []
    order = list(range(len(scs)))
    if jobs == 1 or len(scs) == 1:
        for i in order: results.append(_worker(i, None))
    else:
        for r in schedule([x.name for x in scs], min(jobs, len(scs)), t0 + limit_s + 30):
            results.append(r)
            if verbose: show(r)
            if r.get('violations') and not verbose: break
    if verbose and (jobs == 1 or len(scs) == 1):
        for r in results: show(r)
    return finish(prop, scs, results, assumptions, bounds, tier, seed, t0, t_build)


def show(r):
    if 'crash' in r:
        print('CRASH', r['name'], r['crash'], r['trace']); return
    print('%-40s %6.1fs paths %d cuts %d claims %d dec %d traces %d nra %d q %s %s %s' % (r['name'], r['wall'], r['paths'], r['cuts'], r['claims'], r['decisions'], r['traces'], r['nra'], r['q'],
          r['outside'] or '', ('INC ' + '; '.join(r['inconclusive'][:3]) + r.get('trace', '')) if r['inconclusive'] else ''))
    for v in r['violations']: print('   VIOL', v['claim'], '|', v['observed'])
    sys.stdout.flush()


def finish(prop, scs, results, assumptions, bounds, tier, seed, t0, t_build):
    os.makedirs(EV, exist_ok=True)
    known = [k for k in load_known()['findings'] if k.get('property') == prop and k.get('kind') == 'open']
    viol, inc, fn, q = [], [], set(), {}
    states = claims = traces = dec = cuts = 0
    solver = 0.0
    samples, labels, outside, kf = [], set(), {}, []
    for r in results:
        if 'crash' in r:
            inc.append('%s: %s' % (r['name'], r['crash'])); continue
        for v in r['violations']:
            k = [x for x in known if re.search(x['scenario'], v['scenario']) and re.search(x['claim'], v['claim'])]
            if k: kf.append((k[0], v))
            else: viol.append(v)
        inc += ['%s: %s' % (r['name'], x) for x in r['inconclusive']]
        fn |= r['functions']
        for k, n in r['q'].items(): q[k] = q.get(k, 0) + n
        states += r['paths']; claims += r['claims']; traces += r['traces']; dec += r['decisions']; cuts += r['cuts']
        solver += r['solver_s']
        labels |= r['labels']
        for k, n in r['outside'].items(): outside[k] = outside.get(k, 0) + n
        if r['sample'] and len(samples) < 6: samples.append(r['sample'])
    fns = sorted({R.demangle(f) for f in fn if re.search(r'4dess|dess_|vharness|8examples', f)})
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=states, transitions=dec, traces_validated_against_impl=traces, samples=samples or [dict(note='none')],
                            what_is_counted='states: symbolic path ends reached; transitions: branch decisions the solver was asked about; traces: concrete runs of the encoding that matched the compiled code on every output',
                            scenarios=len(results), claims_discharged=claims, claim_kinds=sorted(labels)[:80], paths_cut_at_bound=cuts,
                            outside_claim=outside, bounds=bounds, functions_encoded=fns, n_functions_encoded=len(fn),
                            solver='z3 ' + z3.get_version_string(), queries=q, queries_total=sum(q.values()), solver_time_s=round(solver, 2),
                            encoding='LLVM IR of the harness crate and everything it links (dess, dess-examples, serde, core, alloc), regenerated from /repo on this run',
                            build_s=round(t_build, 2), inconclusive=inc[:20]),
              assumptions=assumptions, wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(EV, prop + '.json'), 'w'), indent=1)
    for k, v in kf:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if viol:
        rp = os.path.join(EV, prop + '.replay.json')
        json.dump(viol[0], open(rp, 'w'), indent=1)
        v = viol[0]
        print('counterexample in scenario %s\n  claim:    %s\n  observed: %s' % (v['scenario'], v['claim'], v['observed']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if inc:
        for x in inc[:10]: print('INCONCLUSIVE', x)
        for r in results:
            if 'trace' in r: print(r['trace']); break
        return 2
    print('property %s held: %d scenarios, %d paths, %d claims, %d queries, %d native traces, %.1f s' % (prop, len(results), states, claims, sum(q.values()), traces, time.time() - t0))
    return 0


def replay_file(path):
    """re-runs a recorded counterexample natively"""
    v = json.load(open(path))
    nb = build.build('native')
    ins = {}
    for k, x in v['inputs'].items():
        kind, n = k.split(' ', 1)
        ins[(kind, n)] = T.float_of(int(x, 16)) if kind == 'f' else x
    sc = v.get('scratch')
    st, outs = N.run(nb, v['entry'], ins, lambda k, n: 0.0 if k == 'f' else 0, [(c, tuple(a), x) for c, a, x in v['user']],
                     host=HO.Scratch(bytes.fromhex(sc) if isinstance(sc, str) else sc[0]) if sc is not None else None)
    print('scenario', v['scenario'], '\nclaim', v['claim'], '\nobserved', v['observed'], '\nstatus', st)
    for k, x in outs.items(): print(' ', k, x)
