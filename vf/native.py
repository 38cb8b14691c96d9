"""Runs the really compiled code on concrete inputs and evaluates terms on floats."""
import math
import os
import re
import resource
import shutil
import signal
import struct
import subprocess
import tempfile
from . import terms as T


def hx(x):
    return '%x' % T.fbits_of(x)


def generic(c, t, ys):
    """the host's default right-hand side; the same operations as in replay.rs"""
    c = float(c)
    s = 0.5 - 0.125 * c + 0.25 * t
    for i, y in enumerate(ys):
        k = float(i)
        s = s + (0.375 - 0.25 * k + 0.0625 * c) * y
        s = s - 0.03125 * (y * y) * (1.0 + 0.5 * k)
        s = s + 0.015625 * (y * t) * (c - 1.5)
    return s


class User:
    """the right-hand side of one concrete run: a table, elsewhere `generic`"""
    def __init__(self, rows=()):
        self.rows = list(rows)        # (c, (t, *ys), value)

    def __call__(self, c, t, ys):
        best = None
        for cc, a, v in self.rows:
            if cc == c and len(a) == len(ys) + 1:
                d = 0.0
                for x, y in zip(a, (t,) + tuple(ys)):
                    e = abs(x - y) / (1.0 + max(abs(x), abs(y)))
                    if not e <= d: d = e
                if d < 1e-7 and (best is None or d < best[0]):
                    best = (d, v)
        return best[1] if best else generic(c, t, ys)


class Evaluator:
    """IEEE evaluation of terms under an assignment of the variables"""
    def __init__(self, env, user):
        self.env = env          # callable (kind, name) -> value
        self.user = user
        self.c = {}

    def ev(self, t):
        if not isinstance(t, T.Term):
            return t
        r = self.c.get(t.id)
        if r is not None:
            return r
        st = [t]
        while st:
            x = st[-1]
            if x.id in self.c:
                st.pop(); continue
            todo = [a for a in x.args if isinstance(a, T.Term) and a.id not in self.c]
            if todo:
                st.extend(todo); continue
            self.c[x.id] = self.node(x)
            st.pop()
        return self.c[t.id]

    def node(self, t):
        op = t.op
        if op == 'var':
            return self.env('f' if t.__class__ is T.FTerm else 'u', t.args[0], t.w)
        a = [self.c[x.id] if isinstance(x, T.Term) else x for x in t.args]
        w = t.w
        if t.__class__ is T.FTerm:
            if op == 'fadd': return a[0] + a[1]
            if op == 'fsub': return a[0] - a[1]
            if op == 'fmul': return a[0] * a[1]
            if op == 'fdiv': return T.fdiv(a[0], a[1])
            if op == 'fneg': return T.fneg(a[0])
            if op == 'fabs': return abs(a[0])
            if op == 'fite': return a[1] if a[0] else a[2]
            if op == 'frombits': return T.float_of(a[0])
            if op == 'uitofp': return float(a[0])
            if op == 'sitofp': return float(T._sgn(a[0], t.args[0].w))
            if op == 'uf': return self.user(int(a[0][1:]), a[1], a[2:])
            if op == 'fun':
                if a[0] == 'pow': return T.cpow(a[1], a[2])
                return PYF[a[0]](*a[1:])
            raise NotImplementedError('ev ' + op)
        if op in ('foeq', 'folt', 'fole', 'funo'): return int(T.fcmp(op[1:], a[0], a[1]))
        if op == 'fbits': return T.fbits_of(a[0])
        if op == 'not': return int(not a[0])
        if op == 'ite': return int(a[1] if a[0] else a[2])
        ws = [x.w for x in t.args if isinstance(x, T.Term)]
        m = T.M[w]
        if op == 'eq': return int(a[0] == a[1])
        if op == 'ult': return int(a[0] < a[1])
        if op == 'slt': return int(T._sgn(a[0], ws[0]) < T._sgn(a[1], ws[0]))
        if op == 'umulo': return int(a[0] * a[1] > T.M[ws[0]])
        if op == 'zext': return int(a[0])
        if op == 'sext': return T.sext(a[0], ws[0], w)
        if op == 'extract': return (a[0] >> a[1]) & m
        if op == 'concat':
            lw = t.args[1].w if isinstance(t.args[1], T.Term) else w - t.args[0].w
            return (a[0] << lw) | a[1]
        if op == 'add': return (a[0] + a[1]) & m
        if op == 'sub': return (a[0] - a[1]) & m
        if op == 'mul': return (a[0] * a[1]) & m
        if op == 'and': return a[0] & a[1]
        if op == 'or': return a[0] | a[1]
        if op == 'xor': return a[0] ^ a[1]
        if op == 'shl': return (a[0] << a[1]) & m if a[1] < w else 0
        if op == 'lshr': return a[0] >> a[1] if a[1] < w else 0
        if op == 'ashr': return T.bashr(a[0], a[1], w)
        if op == 'udiv': return a[0] // a[1] if a[1] else m
        if op == 'urem': return a[0] % a[1] if a[1] else a[0]
        if op == 'sdiv': return T.sdiv(a[0], a[1], w)
        if op == 'srem': return T.srem(a[0], a[1], w)
        raise NotImplementedError('ev ' + op)


PYF = {'sqrt': T.csqrt, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
       'exp': lambda x: math.exp(x) if x < 709.7 else T.INF, 'log': lambda x: math.log(x) if x > 0 else float('nan'),
       'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)), 'trunc': lambda x: float(math.trunc(x))}


def limits(n):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    return f


def run(binary, entry, inputs, more, rows=(), timeout=20, host=None):
    """-> (status, outs); with a host, in a scratch directory that it prepares, of which the
    output fs.files counts the files left"""
    if host is None: return run_(binary, entry, inputs, more, rows, timeout)
    def get(k, n): return inputs[(k, n)] if (k, n) in inputs else more(k, n)
    d = tempfile.mkdtemp(prefix='vf.')
    try:
        limit = host.prepare(d, get)
        st, outs = run_(binary, entry, inputs, more, rows, timeout, cwd=d, pre=limits(min(limit, 1 << 30)))
        if st == 'ok': outs['fs.files'] = sum(len(fs) + len(ds) for _, ds, fs in os.walk(os.fsencode(d)))
        return st, outs
    except (OSError, ValueError):
        return 'error', {}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_(binary, entry, inputs, more, rows=(), timeout=20, cwd=None, pre=None):
    """inputs: {(kind, name): value}; more(kind, name) supplies inputs the run asks for
    beyond those. -> (status, outs) with status ok | panic | hang | error"""
    inputs = dict(inputs)
    for _ in range(200):
        lines = []
        for (k, n), v in inputs.items():
            lines.append('f\t%s\t%s' % (n, hx(v)) if k == 'f' else 'u\t%s\t%d' % (n, v))
        for c, a, v in rows:
            lines.append('\t'.join(['t', str(c), str(len(a))] + [hx(x) for x in a] + [hx(v)]))
        try:
            p = subprocess.run([binary, entry], input='\n'.join(lines).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=cwd, preexec_fn=pre)
        except subprocess.TimeoutExpired:
            return 'hang', {}
        if p.returncode == 3:
            m = re.search(r'no (float|integer) input (.*)', p.stderr.decode())
            if m:
                k = 'f' if m.group(1) == 'float' else 'u'
                if (k, m.group(2)) in inputs: return 'error', {}
                inputs[(k, m.group(2))] = more(k, m.group(2))
                continue
        outs = {}
        ended = False
        for l in p.stdout.decode('utf8', 'replace').splitlines():
            if l == 'END':
                ended = True; break
            n, k, v = l.rsplit(' ', 2)
            if n in outs:
                i = 1
                while '%s#%d' % (n, i) in outs: i += 1
                n = '%s#%d' % (n, i)
            outs[n] = T.float_of(int(v, 16)) if k == 'f' else int(v)
        if p.returncode == 0 and ended:
            return 'ok', outs
        return 'panic', {'stderr': p.stderr.decode('utf8', 'replace')[-400:], 'rc': p.returncode}
    return 'error', {}
