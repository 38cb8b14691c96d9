"""Layouts of the systems the scenarios use."""
from ..check import Scenario
from .. import ref

LET = 'abcdefghijklmnopqrstuvw'
MASS = ['m1', 'm2', 'm3']


class Layout:
    def __init__(self, sid, fields, x='x', dx='dx', flows=(), name='', f=None, other=()):
        self.sid, self.fields, self.x, self.dx, self.flows, self.name = sid, fields, x, dx, flows, name
        self.other = other       # further histories: (path, row fields)
        self.rhs = f or self.user_rhs

    def user_rhs(self, ctx, pre):
        n = len(self.fields)
        return lambda t, ys: [ctx.user(i, t, ys) for i in range(n)]

    def y_in(self, ctx, pre='0.s'): return [ctx.f('%s.%s.state.%s' % (pre, m, self.x_(m))) for m in self.fields]
    def y(self, ctx, pre): return [ctx.out('%s.%s.state.%s' % (pre, m, self.x_(m))) for m in self.fields]
    def d(self, ctx, pre): return [ctx.out('%s.%s.state.%s' % (pre, m, self.dx_(m))) for m in self.fields]
    def x_(self, m): return self.x[m] if isinstance(self.x, dict) else self.x
    def dx_(self, m): return self.dx[m] if isinstance(self.dx, dict) else self.dx


def usr(n, sid): return Layout(sid, list(LET[:n]), name='Usr%d' % n)


def net_rhs(conns, nodes, res=(), law=None, bc=None, x='temp'):
    """conns: (source, sink, flow element); nodes in declaration order; reservoirs have no
    storage; law(ctx, pre, element, a, b): the flow; bc(ctx, t): node -> prescribed state"""
    law = law or (lambda ctx, pre, h, a, b: ctx.f('%s.%s.h' % (pre, h)) * (a - b))
    def make(ctx, pre):
        def f(t, ys):
            T = dict(zip(nodes, ys))
            if bc: T.update(bc(ctx, t))
            d = {n: 0.0 for n in nodes}
            for a, b, h in conns:
                q = law(ctx, pre, h, T[a], T[b])
                if a not in res: d[a] = d[a] - ctx.div(q, ctx.f('%s.%s.c' % (pre, a)))
                if b not in res: d[b] = d[b] + ctx.div(q, ctx.f('%s.%s.c' % (pre, b)))
            return [d[n] for n in nodes]
        return f
    return make


U = {n: usr(n, sid) for n, sid in ((1, 2), (2, 3), (3, 4), (4, 5), (5, 6), (9, 17))}


CFG = 's.solver_type.cfg.'


def adaptive_cfg(m, mi=1, save=0, save_states=0, run='0.'):
    p = run + CFG
    return {run + 's.solver_type.method': m, p + 'max_iter': mi, p + 'save': save, p + 'save_states': save_states,
            p + 'state.norm_err.some': 0, p + 'state.norm_err_rel.some': 0, p + 'state.n_iter': 0}


def ops(sid, *seq, run='0.', runs=1):
    """seq: dicts of integer inputs, one per operation"""
    c = {'runs': runs, run + 'sys': sid, run + 'n_ops': len(seq)}
    for i, o in enumerate(seq):
        for k, v in o.items(): c['%s%d.%s' % (run, i, k)] = v
    return c


def positive(*names):
    return lambda ctx: [ctx.clt(0.0, ctx.f(n)) for n in names]


def step_scenario(lay, m, mi=1, direct=True, extra=None, **kw):
    """one step by method m from an arbitrary state; dump afterwards"""
    ops_ = [dict(op=1, m=m) if direct else dict(op=2), dict(op=0)]
    c = ops(lay.sid, *ops_)
    if m >= 5: c.update(adaptive_cfg(m, mi))
    else: c['0.s.solver_type.method'] = m if not direct else (m + 2) % 5
    c.update(extra or {})
    return c


OUT = '0.1.dump'


def cfg_in(ctx, mi, p='0.' + CFG):
    return dict(dt=ctx.f(p + 'state.dt'), dt_max=ctx.f(p + 'dt_max'), rtol=ctx.f(p + 'rtol'), atol=ctx.f(p + 'atol'), max_iter=mi)


def cfg_positive(p='0.' + CFG):
    return [p + 'state.dt', p + 'dt_max', p + 'rtol', p + 'atol']


class Net(Layout):
    """thermal network, possibly with reservoirs, other node types and other flow laws"""
    def __init__(self, sid, name, nodes, conns, res=(), law=None, bc=None, x='temp', dx='dtemp', cfg=None):
        Layout.__init__(self, sid, nodes, x, dx, conns, name, net_rhs(conns, nodes, res, law, bc))
        self.res, self.law, self.bc, self.cfg = res, law or (lambda ctx, pre, h, a, b: ctx.f('%s.%s.h' % (pre, h)) * (a - b)), bc, cfg or {}

    def caps(self, ctx, pre='0.s'):
        return [ctx.clt(0.0, ctx.f('%s.%s.c' % (pre, m))) for m in self.fields if m not in self.res]

    def flow(self, ctx, pre, h, a, b): return self.law(ctx, pre, h, a, b)


def law_uf(ctx, pre, h, a, b): return ctx.user(10 + int(h[1:]), 0.0, [a, b])
def bc_uf(ctx, t): return {'r': ctx.user(9, t, [])}
def bc_sin(ctx, t):
    return {'m1': 10.0 + 3.0 * ctx.fun('sin', 100.0 * (t * t)) * ctx.fun('exp', ctx.div(-t, 0.25))}


T3 = Net(0, 'System3TM', MASS, [('m1', 'm2', 'h12'), ('m2', 'm3', 'h23')])
TPAIR = Net(8, 'TPair', ['m1', 'm2'], [('m1', 'm2', 'h1')])
TPAR = Net(9, 'TPar', ['m1', 'm2'], [('m1', 'm2', 'h1'), ('m2', 'm1', 'h2')])
M4 = ['m1', 'm2', 'm3', 'm4']
TCHAIN4 = Net(10, 'TChain4', M4, [('m1', 'm2', 'h1'), ('m2', 'm3', 'h2'), ('m3', 'm4', 'h3')])
TSTAR4 = Net(11, 'TStar4', M4, [('m1', 'm2', 'h1'), ('m1', 'm3', 'h2'), ('m1', 'm4', 'h3')])
TCYCLE3 = Net(12, 'TCycle3', MASS, [('m1', 'm2', 'h1'), ('m2', 'm3', 'h2'), ('m3', 'm1', 'h3')])
TFULL4 = Net(13, 'TFull4', M4, [('m1', 'm2', 'h1'), ('m3', 'm2', 'h2'), ('m3', 'm4', 'h3'), ('m4', 'm1', 'h4'), ('m1', 'm3', 'h5'), ('m4', 'm2', 'h6'), ('m4', 'm2', 'h7')])
CLOSED = [T3, TPAIR, TPAR, TCHAIN4, TSTAR4, TCYCLE3, TFULL4]
TRES = Net(14, 'TRes', ['r', 'm1', 'm2', 's'], [('r', 'm1', 'h1'), ('m1', 'm2', 'h2'), ('s', 'm2', 'h3'), ('r', 's', 'h4')], res=('r', 's'))
_LX = dict(m1='x', m2='temp', m3='x', r='temp')
_LD = dict(m1='dx', m2='dtemp', m3='dx', r='dtemp')
TLAW = Net(15, 'TLaw', ['m1', 'm2', 'm3', 'r'], [('m1', 'm2', 'h1'), ('m2', 'm3', 'h2'), ('m3', 'm1', 'h3'), ('r', 'm3', 'h4')], res=('r',), law=law_uf, x=_LX, dx=_LD,
           cfg={'~\\d+\\.s\\.h%d\\.id' % i: 10 + i for i in range(1, 5)})
TBC = Net(16, 'TBc', ['r', 'm1', 'm2'], [('r', 'm1', 'h1'), ('m1', 'm2', 'h2')], res=('r',), bc=bc_uf)
TWBC = Net(1, 'System3TMWithBC', MASS, [('m1', 'm2', 'h12'), ('m2', 'm3', 'h23')], res=('m1',), bc=bc_sin)


def caps(ctx, lay, pre='0.s'):
    return lay.caps(ctx, pre) if isinstance(lay, Net) else []
