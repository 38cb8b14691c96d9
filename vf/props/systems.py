"""C08-C14: derivatives and flows, isolation of a step, networks, conservation, the vector view."""
import re
from .common import *
from .. import terms as T

P = '0.' + CFG
ALLM = range(7)


def flows_match(ctx, lay, pre, o, T, label):
    """claims: every flow element under o holds its law at the states T (a dict)"""
    for a, b, h in lay.flows:
        ctx.eq('%s: flow %s' % (label, h), ctx.out('%s.%s.state.q' % (o, h)), lay.flow(ctx, pre, h, T[a], T[b]))


def consistent(ctx, lay, o, label='after', pre='0.s'):
    t, ys = ctx.out(o + '.state.time'), lay.y(ctx, o)
    for n, a, b in zip(lay.fields, lay.d(ctx, o), lay.rhs(ctx, pre)(t, ys)):
        ctx.eq('%s: derivative %s' % (label, n), a, b)
    if lay.flows: flows_match(ctx, lay, pre, o, dict(zip(lay.fields, ys)), label)
    if getattr(lay, 'bc', None):
        for n, v in lay.bc(ctx, t).items(): ctx.eq('%s: prescribed state %s' % (label, n), dict(zip(lay.fields, ys))[n], v)


def adaptive_pos(ctx, run='0.'):
    p = run + CFG
    return [ctx.clt(0.0, ctx.f(p + x)) for x in ('state.dt', 'dt_max', 'rtol', 'atol')]


def settings(lay, m, **kw):
    c = dict(getattr(lay, 'cfg', {}))
    return c


def c08(tier):
    S = []
    big = tier == 'thorough'
    lays = [U[1], U[2], U[5], T3, TPAR, TFULL4, TRES, TLAW, TBC, TWBC]
    for m in ALLM:
        for lay in lays:
            if m >= 5 and lay is TFULL4: lay = TCYCLE3 if not big or m == 6 else TFULL4
            c = step_scenario(lay, m, 1)
            c.update(settings(lay, m))
            S.append(Scenario('%s %s step' % (ref.METHODS[m], lay.name), 'h_sys', c, lambda ctx, lay=lay: consistent(ctx, lay, OUT),
                              assume=lambda ctx, lay=lay, m=m: caps(ctx, lay) + ([ctx.clt(0.0, ctx.f('0.0.dt'))] + adaptive_pos(ctx) if m >= 5 else []),
                              draw=draw_c, bounds='one step'))
        # UsrMix: flow and unmarked component driven by the derivative update
        c = step_scenario(MIX, m, 1)
        c.update({'~0\\.s\\..*\\.k': 3, '0.s.rack.k': 1, '0.s.flag': 0})
        def mix(ctx):
            t = ctx.out(OUT + '.state.time')
            ys = [ctx.out(OUT + '.%s.state.x' % n) for n in ('z', 'b')]
            for k, n in ((0, 'z.state.dx'), (1, 'b.state.dx'), (2, 'p1.state.s'), (3, 'un.state.x')):
                ctx.eq('after: ' + n, ctx.out(OUT + '.' + n), ctx.user(k, t, ys))
        S.append(Scenario('%s UsrMix step' % ref.METHODS[m], 'h_sys', c, mix,
                          assume=lambda ctx, m=m: [ctx.clt(0.0, ctx.f('0.0.dt'))] + adaptive_pos(ctx) if m >= 5 else [], draw=draw_c, bounds='one step'))
        # every saved row of a walk after the first
        for lay in ([U[2], T3] if m < 5 else [U[1], T3]) + ([TRES, TBC] if big or m in (0, 4) else []):
            c = ops(lay.sid, dict(op=3), dict(op=0))
            nr = 3 if m < 5 else 2
            c.update({'0.s.t_report.len': nr, '0.s.state.i': 0, '0.s.solver_type.method': m})
            c.update(settings(lay, m))
            if m >= 5: c.update(adaptive_cfg(m, 1))
            def rows(ctx, lay=lay, nr=nr):
                ctx.eq('rows', ctx.out(OUT + '.history.time.len'), nr)
                for k in range(1, nr):
                    t = ctx.out(OUT + '.history.time.%d' % k)
                    ys = [ctx.out('%s.%s.history.%s.%d' % (OUT, n, lay.x_(n), k)) for n in lay.fields]
                    for n, b in zip(lay.fields, lay.rhs(ctx, '0.s')(t, ys)):
                        ctx.eq('row %d: derivative %s' % (k, n), ctx.out('%s.%s.history.%s.%d' % (OUT, n, lay.dx_(n), k)), b)
                    T = dict(zip(lay.fields, ys))
                    for a, b, h in lay.flows:
                        ctx.eq('row %d: flow %s' % (k, h), ctx.out('%s.%s.history.q.%d' % (OUT, h, k)), lay.flow(ctx, '0.s', h, T[a], T[b]))
            S.append(Scenario('%s %s walk rows' % (ref.METHODS[m], lay.name), 'h_sys', c, rows, assume=lambda ctx, lay=lay, m=m, nr=nr: sched(ctx, nr, m) + caps(ctx, lay),
                              alias=grid, draw=draw_c, max_paths=20000, bounds='%d report times, one step each' % nr))
    return S, ['exact real arithmetic: rounding aside', 'capacities, step sizes and tolerances positive'], \
        'one step (one trial for adaptive methods) from any state; walks of 3 report times with gaps of one step'


MIX = Layout(7, ['z', 'b'], name='UsrMix')


def draw_c(name, rng):
    last = name.split('.')[-1]
    if last in ('rtol', 'atol'): return 10.0 ** rng.uniform(-4, 1)
    if name.startswith('gap.'): return rng.choice([0.125, 0.0625, 0.3, 0.25])
    if name.endswith('state.time'): return rng.choice([0.0, 0.125, 0.25])
    return None


def grid(kind, name):
    """the schedule starts at the current time and goes on in gaps gap.1, gap.2, ..."""
    m = re.fullmatch(r'(\d+)\.s\.t_report\.(\d+)', name)
    if kind != 'f' or not m: return None
    return grid_time(int(m[2]))


def grid_time(k, t0='0.s.state.time'):
    t = T.fvar(t0)
    for i in range(1, k + 1): t = t + T.fvar('gap.%d' % i)
    return t


def sched(ctx, n, m, run='0.', steps=1, first=1):
    """positive gaps, each at most `steps` steps long"""
    r = []
    dts = [run + 's.solver_type.dt'] if m < 5 else [run + CFG + 'dt_max', run + CFG + 'state.dt']
    for k in range(first, n):
        g = ctx.f('gap.%d' % k)
        r.append(ctx.clt(0.0, g))
        if m < 5: r.append(ctx.cle(g, float(steps) * ctx.f(dts[0])))
        elif k == first: r += [ctx.cle(g, ctx.f(d)) for d in dts]
        else: r.append(ctx.cle(g, ctx.f(run + CFG + 'dt_max')))
    if m < 5: r.append(ctx.clt(0.0, ctx.f(dts[0])))
    else: r += adaptive_pos(ctx, run)
    return r


# ------------------------------------------------------------------- C11
def c11(tier):
    S = []
    for lay in CLOSED + [TRES, TLAW, TBC]:
        for hist in ((0, 'update'), (1, 'step first')) if tier == 'thorough' or lay in (T3, TFULL4, TLAW) else ((0, 'update'),):
            seq = [dict(op=10), dict(op=0)] if not hist[0] else [dict(op=13), dict(op=10), dict(op=0)]
            c = ops(lay.sid, *seq)
            c.update(settings(lay, 0)); c['0.s.solver_type.method'] = 0
            o = '0.%d.dump' % (len(seq) - 1)
            def sp(ctx, lay=lay, o=o):
                consistent(ctx, lay, o)
                # updating derivatives does not move time or states
                if o == '0.1.dump':
                    ctx.eq('time', ctx.out(o + '.state.time'), ctx.f('0.s.state.time'))
                    for n, a, b in zip(lay.fields, lay.y(ctx, o), lay.y_in(ctx)):
                        if not (lay.bc and n == 'r'): ctx.eq('state ' + n, a, b)
            S.append(Scenario('%s %s' % (lay.name, hist[1]), 'h_sys', c, sp, assume=lambda ctx, lay=lay: caps(ctx, lay), bounds='one derivative update'))
            # twice in a row: nothing accumulates
            c2 = ops(lay.sid, dict(op=10), dict(op=10), dict(op=0))
            c2.update(settings(lay, 0)); c2['0.s.solver_type.method'] = 0
            S.append(Scenario('%s %s twice' % (lay.name, hist[1]), 'h_sys', c2, lambda ctx, lay=lay: consistent(ctx, lay, '0.2.dump'),
                              assume=lambda ctx, lay=lay: caps(ctx, lay), bounds='two derivative updates'))
    return S, ['exact real arithmetic: rounding aside', 'capacities positive'], 'networks of 2 to 4 nodes and 1 to 7 connections: pair, parallel, chain, star, cycle, dense with a doubled edge, with reservoirs (also connected to each other), mixed node types with uninterpreted flow laws; any states, derivatives, flows before'


# ------------------------------------------------------------------- C12
def c12(tier):
    S = []
    def energy(ctx, lay, ys): 
        s = 0.0
        for n, y in zip(lay.fields, ys): s = s + ctx.f('0.s.%s.c' % n) * y
        return s
    for m in ALLM:
        for lay in CLOSED:
            if m >= 5 and lay is TFULL4 and tier != 'thorough': continue
            c = step_scenario(lay, m, 1)
            def sp(ctx, lay=lay):
                ctx.eq('total energy', energy(ctx, lay, lay.y(ctx, OUT)), energy(ctx, lay, lay.y_in(ctx)))
            pos = lambda ctx, lay=lay, m=m: caps(ctx, lay) + ([ctx.clt(0.0, ctx.f('0.0.dt'))] + adaptive_pos(ctx) if m >= 5 else [])
            S.append(Scenario('%s %s energy' % (ref.METHODS[m], lay.name), 'h_sys', c, sp, assume=pos, draw=draw_c, bounds='one step', expand=False))
            def eq(ctx, lay=lay):
                for n, y in zip(lay.fields, lay.y(ctx, OUT)): ctx.eq('temperature ' + n, y, ctx.f('0.s.m1.state.temp'))
                for n, d in zip(lay.fields, lay.d(ctx, OUT)): ctx.eq('derivative ' + n, d, 0.0)
                for a, b, h in lay.flows: ctx.eq('flow ' + h, ctx.out('%s.%s.state.q' % (OUT, h)), 0.0)
            def same(kind, name):
                if kind == 'f' and name.startswith('0.s.m') and name.endswith('.state.temp'): return '0.s.m1.state.temp' if name != '0.s.m1.state.temp' else None
            S.append(Scenario('%s %s equilibrium' % (ref.METHODS[m], lay.name), 'h_sys', c, eq, assume=pos, alias=same, draw=draw_c, bounds='one step'))
    return S, ['exact real arithmetic: rounding aside', 'capacities positive'], 'one step (any number of steps by induction) of closed networks of 2 to 4 masses; adaptive methods with one trial at an arbitrary step size'


# ------------------------------------------------------------------- C13
def c13(tier):
    S = []
    big = tier == 'thorough'
    for lay in (TRES, TBC, TWBC):
        c = ops(lay.sid, dict(op=10), dict(op=0)); c['0.s.solver_type.method'] = 0
        def upd(ctx, lay=lay):
            for r in lay.res:
                ctx.eq('derivative of ' + r, ctx.out('%s.%s.state.dtemp' % (OUT, r)), 0.0)
                want = lay.bc(ctx, ctx.f('0.s.state.time'))[r] if lay.bc else ctx.f('0.s.%s.state.temp' % r)
                ctx.eq('temperature of ' + r, ctx.out('%s.%s.state.temp' % (OUT, r)), want)
        S.append(Scenario('%s update' % lay.name, 'h_sys', c, upd, assume=lambda ctx, lay=lay: caps(ctx, lay), bounds='one derivative update'))
        for m in ALLM:
            c = step_scenario(lay, m, 1)
            def sp(ctx, lay=lay, m=m):
                t, ys = ctx.f('0.s.state.time'), lay.y_in(ctx)
                dt = ctx.f('0.0.dt') if m < 5 else ctx.out('0.0.ret')
                t1, y1 = ref.step(ref.METHODS[m], t, ys, dt, lay.rhs(ctx, '0.s'))
                for n, a, b in zip(lay.fields, lay.y(ctx, OUT), y1):
                    if n in lay.res:
                        if lay.bc: b = lay.bc(ctx, t1)[n]
                        ctx.eq('derivative of ' + n, ctx.out('%s.%s.state.dtemp' % (OUT, n)), 0.0)
                    ctx.eq('temperature of ' + n, a, b)
            S.append(Scenario('%s %s step' % (ref.METHODS[m], lay.name), 'h_sys', c, sp, draw=draw_c,
                              assume=lambda ctx, lay=lay, m=m: caps(ctx, lay) + ([ctx.clt(0.0, ctx.f('0.0.dt'))] + adaptive_pos(ctx) if m >= 5 else []), bounds='one step'))
    # two steps to a report time, the boundary condition read at every stage
    for m in range(5):
        lay = TBC
        c = step_scenario(lay, m, direct=False, extra={'0.s.t_report.len': 2, '0.s.state.i': 1})
        def two(ctx, lay=lay, m=m):
            t, ys = ctx.f('0.s.state.time'), lay.y_in(ctx)
            dt = ctx.f('0.s.solver_type.dt')
            f = lay.rhs(ctx, '0.s')
            t1, y1 = ref.step(ref.METHODS[m], t, ys, dt, f)
            t2, y2 = ref.step(ref.METHODS[m], t1, y1, ctx.f('0.s.t_report.1') - t1, f)
            for n, a, b in zip(lay.fields, lay.y(ctx, OUT), y2):
                if n in lay.res: b = lay.bc(ctx, t2)[n]
                ctx.eq('temperature of ' + n, a, b)
        gap = lambda ctx: ctx.f('0.s.t_report.1') - ctx.f('0.s.state.time')
        S.append(Scenario('%s %s two steps' % (ref.METHODS[m], lay.name), 'h_sys', c, two, draw=draw_c,
                          assume=lambda ctx, lay=lay, gap=gap: caps(ctx, lay) + [ctx.clt(0.0, ctx.f('0.s.solver_type.dt')), ctx.clt(ctx.f('0.s.solver_type.dt'), gap(ctx)), ctx.cle(gap(ctx), 2.0 * ctx.f('0.s.solver_type.dt'))],
                          bounds='two steps'))
    return S, ['exact real arithmetic: rounding aside', 'capacities positive', 'sin and exp are uninterpreted functions of their argument'], \
        'one derivative update and one step of three networks with reservoirs: fixed, driven by an arbitrary function of time, and the shipped boundary condition'


# ------------------------------------------------------------------- C14
def c14(tier):
    S = []
    lays = [U[1], U[3], U[9], T3, TWBC, TFULL4, TRES, TLAW, MIX]
    def x(lay, n): return '%s.state.%s' % (n, lay.x_(n))
    def d(lay, n): return '%s.state.%s' % (n, lay.dx_(n))
    def base(lay, *seq):
        c = ops(lay.sid, *seq)
        c.update(settings(lay, 0))
        c.update({'0.s.solver_type.method': 0, '0.s.t_report.len': 2, '~0\\.s\\..*\\.k': 3, '0.s.flag': 1})
        for n in lay.fields:
            for f in (lay.x_(n), lay.dx_(n)): c['0.s.%s.history.%s.len' % (n, f)] = 1
        c['0.s.history.i.len'] = c['0.s.history.time.len'] = 1
        return c
    def rest(ctx, lay, touched, o='0.1.dump'):
        ctx.unchanged('untouched', o, '0.s', skip=lambda r: r in touched or skip_const(r))
    def skip_const(r): return False
    for lay in lays:
        n_ = lay.fields
        res = getattr(lay, 'res', ())
        N = len(n_)
        # getters
        c = base(lay, dict(op=18), dict(op=19), dict(op=20), dict(op=0))
        def get(ctx, lay=lay, n_=n_, N=N, res=res):
            for i, nm, of in ((0, 'states', x), (1, 'derivs', d), (2, 'storages', None)):
                ctx.eq('%s: length' % nm, ctx.out('0.%d.%s.len' % (i, nm)), N)
                for k, n in enumerate(n_):
                    want = ctx.f('0.s.' + of(lay, n)) if of else (float('inf') if n in res else ctx.f('0.s.%s.c' % n))
                    ctx.eq('%s %d' % (nm, k), ctx.out('0.%d.%s.%d' % (i, nm, k)), want)
            ctx.unchanged('getters', '0.3.dump', '0.s')
        S.append(Scenario('%s getters' % lay.name, 'h_sys', c, get, mode='bits', bounds='%d components' % N))
        # setters from a vector
        for op, nm, of in ((15, 'set_states', x), (16, 'set_derivs', d), (14, 'step_states', x), (17, 'step_derivs', d)):
            c = base(lay, dict(op=op, **{'v.len': N}), dict(op=0))
            def st(ctx, lay=lay, n_=n_, op=op, nm=nm, of=of, res=res):
                for k, n in enumerate(n_):
                    v = ctx.f('0.0.v.%d' % k)
                    if n in res and of is d and op == 16: v = 0.0
                    if op in (14, 17): v = ctx.f('0.s.' + of(lay, n)) + v
                    ctx.eq('%s %d' % (nm, k), ctx.out('0.1.dump.' + of(lay, n)), v)
                rest(ctx, lay, {of(lay, n) for n in n_})
            S.append(Scenario('%s %s' % (lay.name, nm), 'h_sys', c, st, mode='real' if op in (14, 17) else 'bits', bounds='%d components' % N))
        c = base(lay, dict(op=13), dict(op=0))
        def by(ctx, lay=lay, n_=n_):
            for n in n_:
                ctx.eq('step_states_by_dt', ctx.out('0.1.dump.' + x(lay, n)), ctx.f('0.s.' + x(lay, n)) + ctx.f('0.0.dt') * ctx.f('0.s.' + d(lay, n)))
            ctx.eq('step_states_by_dt: time', ctx.out('0.1.dump.state.time'), ctx.f('0.s.state.time') + ctx.f('0.0.dt'))
            rest(ctx, lay, {x(lay, n) for n in n_} | {'state.time'})
        S.append(Scenario('%s step_states_by_dt' % lay.name, 'h_sys', c, by, bounds='%d components' % N))
        c = base(lay, dict(op=12), dict(op=0))
        def tm(ctx, lay=lay):
            ctx.eq('step_time', ctx.out('0.1.dump.state.time'), ctx.f('0.s.state.time') + ctx.f('0.0.dt'))
            rest(ctx, lay, {'state.time'})
        S.append(Scenario('%s step_time' % lay.name, 'h_sys', c, tm, bounds='%d components' % N))
        c = base(lay, dict(op=11), dict(op=0))
        def rs(ctx, lay=lay, n_=n_):
            for n in n_: ctx.eq('reset_derivs', ctx.out('0.1.dump.' + d(lay, n)), 0.0)
            rest(ctx, lay, {d(lay, n) for n in n_})
        S.append(Scenario('%s reset_derivs' % lay.name, 'h_sys', c, rs, mode='bits', bounds='%d components' % N))
    return S, ['vectors of the length of the state'], 'systems of 1 to 9 state-bearing components, also interleaved with others, each operation from an arbitrary system'


PROPS = {'C08': c08, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14}
