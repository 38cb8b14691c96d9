"""C01-C04, C08: the solver steps."""
from .common import *
from .walking import power_rhs


def c01(tier):
    S = []
    def spec(lay, m, dt_of):
        def sp(ctx):
            t, ys = ctx.f('0.s.state.time'), lay.y_in(ctx)
            dt = dt_of(ctx)
            t1, y1 = ref.step(ref.METHODS[m], t, ys, dt, lay.rhs(ctx, '0.s'))
            ctx.eq('time advances by dt', ctx.out(OUT + '.state.time'), t1)
            for n, a, b in zip(lay.fields, lay.y(ctx, OUT), y1):
                ctx.eq('state %s' % n, a, b)
        return sp
    lays = [U[1], U[2], U[3], U[4], U[5], U[9], T3, TCYCLE3]
    for m in range(5):
        for lay in lays:
            S.append(Scenario('%s %s direct' % (ref.METHODS[m], lay.name), 'h_sys', step_scenario(lay, m), spec(lay, m, lambda c: c.f('0.0.dt')),
                              assume=lambda ctx, lay=lay: caps(ctx, lay),
                              bounds='one step, %d states' % len(lay.fields)))
        for lay in [U[2], U[3], T3]:
            # selected by the configured type: one step to a report time within dt, and two when the gap is larger
            c = step_scenario(lay, m, direct=False, extra={'0.s.t_report.len': 2, '0.s.state.i': 1})
            gap = lambda c: c.f('0.s.t_report.1') - c.f('0.s.state.time')
            S.append(Scenario('%s %s selected, gap within dt' % (ref.METHODS[m], lay.name), 'h_sys', c, spec(lay, m, gap),
                              assume=lambda ctx, g=gap, lay=lay: caps(ctx, lay) + [ctx.clt(0.0, g(ctx)), ctx.cle(g(ctx), ctx.f('0.s.solver_type.dt'))]))
            def two(ctx, lay=lay, m=m, gap=gap):
                t, ys = ctx.f('0.s.state.time'), lay.y_in(ctx)
                dt = ctx.f('0.s.solver_type.dt')
                f = lay.rhs(ctx, '0.s')
                t1, y1 = ref.step(ref.METHODS[m], t, ys, dt, f)
                t2, y2 = ref.step(ref.METHODS[m], t1, y1, ctx.f('0.s.t_report.1') - t1, f)
                ctx.eq('time', ctx.out(OUT + '.state.time'), t2)
                for n, a, b in zip(lay.fields, lay.y(ctx, OUT), y2): ctx.eq('state %s' % n, a, b)
            S.append(Scenario('%s %s selected, gap of two steps' % (ref.METHODS[m], lay.name), 'h_sys', c, two,
                              assume=lambda ctx, g=gap, lay=lay: caps(ctx, lay) + [ctx.clt(0.0, ctx.f('0.s.solver_type.dt')), ctx.clt(ctx.f('0.s.solver_type.dt'), g(ctx)), ctx.cle(g(ctx), 2.0 * ctx.f('0.s.solver_type.dt'))]))
    # the adaptive types select their own method: with one trial allowed the step is theirs
    for m in (5, 6):
        lay = U[2]
        def one(ctx, lay=lay, m=m):
            t, ys = ctx.f('0.s.state.time'), lay.y_in(ctx)
            g = ctx.f('0.s.t_report.0') - t
            t1, y1 = ref.step(ref.METHODS[m], t, ys, g, lay.rhs(ctx, '0.s'))
            ctx.eq('time', ctx.out(OUT + '.state.time'), t1)
            for n, a, b in zip(lay.fields, lay.y(ctx, OUT), y1): ctx.eq('state %s' % n, a, b)
        p = '0.' + CFG
        S.append(Scenario('%s selected' % ref.METHODS[m], 'h_sys', step_scenario(lay, m, 1, direct=False, extra={'0.s.t_report.len': 1, '0.s.state.i': 0}), one,
                          assume=lambda ctx, p=p: [ctx.clt(0.0, ctx.f('0.s.t_report.0') - ctx.f('0.s.state.time'))] + [ctx.cle(ctx.f('0.s.t_report.0') - ctx.f('0.s.state.time'), ctx.f(p + x)) for x in ('state.dt', 'dt_max')] + [ctx.clt(0.0, ctx.f(p + x)) for x in ('rtol', 'atol')]))
    return S, ['exact real arithmetic: rounding aside', 'constants of the source stand for the simplest rational within 2^-50'], \
        'one step (two when the configured type is used with a longer gap), 1-5 and 9 states with an uninterpreted right-hand side, 3-4 masses with the thermal one'



P = '0.' + CFG


def is_special(x):
    return isinstance(x, float) and (x != x or abs(x) == float('inf'))


def adaptive_spec(lay, m, mi, which, rhs=None):
    def sp(ctx):
        t, ys = ctx.f('0.s.state.time'), lay.y_in(ctx)
        gap = ctx.f('0.0.dt')
        f = rhs(ctx) if rhs else lay.rhs(ctx, '0.s')
        if 'C02' in which:
            dt = ctx.out('0.0.ret')
            t1, y1 = ref.step(ref.METHODS[m], t, ys, dt, f)
            ctx.eq('time advances by the step it returns', ctx.out(OUT + '.state.time'), t1)
            for n, a, b in zip(lay.fields, lay.y(ctx, OUT), y1): ctx.eq('state %s' % n, a, b)
            return
        o = OUT + '.solver_type.cfg.state'
        limit = mi if mi is not None else ctx.u8(P + 'max_iter')
        cfg = cfg_in(ctx, limit)
        if 'C03' in which:
            r = ref.adaptive(ctx, ref.METHODS[m], t, ys, gap, cfg, f)
            ctx.eq('number of trials', ctx.out(o + '.n_iter'), r.n)
            ctx.eq('absolute error present', ctx.out(o + '.norm_err.some'), 1)
            if ctx.has(o + '.norm_err.val'): ctx.eq('absolute error', ctx.out(o + '.norm_err.val'), r.err)
            ctx.eq('relative error present', ctx.out(o + '.norm_err_rel.some'), 0 if r.rel is None else 1)
            if r.rel is not None and ctx.has(o + '.norm_err_rel.val'): ctx.eq('relative error', ctx.out(o + '.norm_err_rel.val'), r.rel)
            ctx.eq('the step ends with the accepted trial', ctx.out('0.0.ret'), r.dt)
            return
        used, stored = ctx.out('0.0.ret'), ctx.out(o + '.dt')
        for n in ('state.dt', 'dt_max'): ctx.le('step at most ' + n, used, ctx.f(P + n))
        ctx.le('step at most the time left', used, gap)
        ctx.ok('step positive', ctx.clt(0.0, used))
        ctx.ok('stored step size is finite', not is_special(stored))
        ctx.le('stored step size at most dt_max', stored, ctx.f(P + 'dt_max'))
        r = ref.adaptive(ctx, ref.METHODS[m], t, ys, gap, cfg, f)
        ctx.eq('step size of the last trial', used, r.dt)
        ctx.eq('step size stored for the next trial', stored, r.next)
        if r.rel is not None or r.met:
            hit = r.met or ctx.leq(r.err, cfg['atol'])
            if hit: ctx.ok('a hit never shrinks', ctx.cle(ctx.min(used, ctx.f(P + 'dt_max')), stored))
            else: ctx.ok('a miss shrinks', ctx.clt(stored, used))
    return sp


def adaptive_scenarios(which, tier):
    S = []
    big = tier == 'thorough'
    plan = [(U[1], 1), (U[2], 1), (U[3], 1), (U[1], 2), (U[2], 2), (U[1], 3), (U[1], None), (U[5], 1), (U[9], 1), (T3, 1), (U[1], 0), (U[1], 255)]
    if big: plan += [(U[2], 3), (U[3], 2), (U[1], 4), (U[2], None)]
    for m in (5, 6):
        for lay, mi in plan:
            c = step_scenario(lay, m, 1)
            c[P + 'max_iter'] = 'sym' if mi is None else mi
            for k in ('norm_err', 'norm_err_rel'): c[P + 'state.%s.some' % k] = 1
            c[P + 'state.n_iter'] = 'sym'
            c[P + 'state.states.len'] = 2
            n = len(lay.fields)
            trials = min(mi, 3) if mi is not None and mi <= 4 else 3
            if mi is None or mi == 255: trials = 3 if n == 1 and (big or which != 'C04') else 2
            cut = None
            if mi is None or mi == 255 :
                cut = n * ((4 if m == 5 else 6) * trials + 1)
            # quick tier: for several trials the stored step size is the smallest of the three limits
            def asm(ctx, lay=lay, mi=mi):
                r = [ctx.clt(0.0, ctx.f(x)) for x in cfg_positive() + ['0.0.dt']] + caps(ctx, lay)
                if (mi is None or mi > 1) and not big:
                    r += [ctx.cle(ctx.f(P + 'state.dt'), ctx.f('0.0.dt')), ctx.cle(ctx.f(P + 'state.dt'), ctx.f(P + 'dt_max'))]
                return r
            S.append(Scenario('%s %s max_iter %s' % (ref.METHODS[m], lay.name, 'any' if mi is None else mi), 'h_sys', c,
                              adaptive_spec(lay, m, mi, which), assume=asm, cut=cut, draw=draw_adaptive,
                              bounds='one step of at most %d trials' % max(1, trials)))
        # many trials: a derivative that grows with time, at a given time and step size
        for mi in (5,) + ((6,) if big else ()):
            c = step_scenario(U[1], m, 1)
            c[P + 'max_iter'] = mi
            for k in ('norm_err', 'norm_err_rel'): c[P + 'state.%s.some' % k] = 1
            c[P + 'state.n_iter'] = 'sym'
            c[P + 'state.states.len'] = 2
            at = {'0.s.state.time': 1.0, P + 'state.dt': 4096.0, P + 'dt_max': 16384.0, '0.0.dt': 8192.0}
            u = power_rhs(2 if m == 5 else 4)
            def rhs(ctx, u=u): return lambda t, ys: [u(ctx, i, t, ys) for i in range(len(ys))]
            def tall(ctx): return [ctx.clt(0.0, ctx.f(P + x)) for x in ('rtol', 'atol')] + [ctx.clt(0.0, ctx.f('rate.0')), ctx.clt(ctx.f('rate.0'), 100.0)]
            S.append(Scenario('%s Usr1 max_iter %d, derivative in time' % (ref.METHODS[m], mi), 'h_sys', c, adaptive_spec(U[1], m, mi, which, rhs), user=u, assume=tall, draw=draw_tall,
                              alias=lambda kind, name, at=at: at.get(name), bounds='one step of at most %d trials' % mi))
    return S, ['exact real arithmetic: rounding aside', 'step sizes, tolerances, capacities positive', 'x^0.2 and sqrt are uninterpreted up to sign, monotonicity around 1 and sqrt(x)^2 = x'], \
        'one adaptive step from an arbitrary state, solver state and settings; up to 3 trials (4 thorough), 5 (6) with a derivative that is a power of time; 1-5 and 9 states with uninterpreted right-hand side, and the thermal system'


def draw_tall(name, rng):
    if name.startswith('rate.'): return rng.choice([0.5, 3.0])
    if name.endswith(('rtol', 'atol')): return 10.0 ** rng.uniform(-10, 20)
    return draw_adaptive(name, rng)


def draw_adaptive(name, rng):
    last = name.split('.')[-1]
    if last in ('rtol', 'atol'): return 10.0 ** rng.uniform(-6, 2)
    if last == 'max_iter': return rng.choice([0, 1, 2, 3, 5])
    if last == 'n_iter': return rng.choice([0, 1, 7, 250])
    if last == 'i': return rng.choice([0, 1, 5])
    return None


def c02(tier): return adaptive_scenarios('C02', tier)
def c03(tier): return adaptive_scenarios('C03', tier)
def c04(tier): return adaptive_scenarios('C04', tier)


PROPS = {'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04}
