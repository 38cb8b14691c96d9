"""C05-C07, C09, C10, C16, C17: schedules, isolation, saving and bare clones."""
from .systems import *
from .systems import grid, sched, draw_c, adaptive_pos, grid_time, MIX

ALLM = range(7)


def solve_cfg(lay, m, mi=1, extra=None):
    c = ops(lay.sid, dict(op=2), dict(op=0))
    c.update(getattr(lay, 'cfg', {}))
    c['0.s.solver_type.method'] = m
    if m >= 5: c.update(adaptive_cfg(m, mi))
    c.update({'0.s.t_report.len': 2, '0.s.state.i': 1})
    c.update(extra or {})
    return c


def to_gap(kind, name):
    """the pending report time is one gap away"""
    if kind == 'f' and name == '0.s.t_report.1': return T.fvar('0.s.state.time') + T.fvar('gap.1')
    return None


def const_rhs(ctx, c, t, ys):
    return ctx.f('rate.%d' % int(c))


def power_rhs(p):
    """a derivative that grows with the p-th power of time"""
    def f(ctx, c, t, ys):
        r = ctx.f('rate.%d' % int(c))
        for _ in range(p): r = r * t
        return r
    return f


def ref_steps(ctx, m, t, ys, left, dt, f, limit=40):
    """steps of min(dt, left) until nothing is left"""
    n = 0
    while n < limit:
        n += 1
        if ctx.leq(left, dt):
            t, ys = ref.step(ref.METHODS[m], t, ys, left, f)
            return t, ys, n
        t, ys = ref.step(ref.METHODS[m], t, ys, dt, f)
        left = left - dt
    return t, ys, n


def c05(tier):
    S = []
    big = tier == 'thorough'
    # a) fixed-step methods, several steps
    for m in range(5):
        for lay, K in ((U[1], 8 if m == 0 else (4 if m < 4 else 3)), (U[2], 3), (T3, 2)):
            if big: K = {U[1]: 16 if m == 0 else (7 if m < 4 else 4), U[2]: 5 if m < 4 else 4, T3: 2}[lay]
            def sp(ctx, lay=lay, m=m):
                t1, y1, n = ref_steps(ctx, m, ctx.f('0.s.state.time'), lay.y_in(ctx), ctx.f('gap.1'), ctx.f('0.s.solver_type.dt'), lay.rhs(ctx, '0.s'))
                ctx.eq('time is the report time', ctx.out(OUT + '.state.time'), ctx.f('0.s.state.time') + ctx.f('gap.1'))
                for n, a, b in zip(lay.fields, lay.y(ctx, OUT), y1): ctx.eq('state %s after steps of min(dt, time left)' % n, a, b)
            S.append(Scenario('%s %s up to %d steps' % (ref.METHODS[m], lay.name, K), 'h_sys', solve_cfg(lay, m), sp, alias=to_gap, draw=draw_c,
                              assume=lambda ctx, K=K, lay=lay: caps(ctx, lay) + [ctx.clt(0.0, ctx.f('gap.1')), ctx.clt(0.0, ctx.f('0.s.solver_type.dt')), ctx.cle(ctx.f('gap.1'), float(K) * ctx.f('0.s.solver_type.dt'))],
                              bounds='%d steps' % K))
    # many steps, constant rate
    for m in range(5):
        for lay, N in ((U[1], 2100 if not big else 6000), (U[3], 140)):
            def far(ctx, lay=lay):
                ctx.eq('time is the report time', ctx.out(OUT + '.state.time'), ctx.f('0.s.state.time') + ctx.f('gap.1'))
                for i, (n, a, b) in enumerate(zip(lay.fields, lay.y(ctx, OUT), lay.y_in(ctx))): ctx.eq('state ' + n, a, b + ctx.f('gap.1') * ctx.f('rate.%d' % i))
            S.append(Scenario('%s %s constant rate, %d steps' % (ref.METHODS[m], lay.name, N), 'h_sys', solve_cfg(lay, m), far, alias=to_gap, draw=draw_many(N), user=const_rhs, traces=1,
                              assume=lambda ctx, N=N: [ctx.clt(0.0, ctx.f('0.s.solver_type.dt')), ctx.clt(float(N - 1) * ctx.f('0.s.solver_type.dt'), ctx.f('gap.1')), ctx.cle(ctx.f('gap.1'), float(N) * ctx.f('0.s.solver_type.dt'))],
                              bounds='%d steps' % N, steps=400_000_000))
    # many steps that each count: a derivative of one order more in time than the method integrates exactly
    for m, p, N in ((0, 1, 2100), (1, 2, 1100), (2, 2, 1100), (3, 2, 1100), (4, 4, 600)):
        if big: N *= 2
        def each(ctx, m=m, p=p, N=N):
            f = power_rhs(p)
            t1, y1, n = ref_steps(ctx, m, ctx.f('0.s.state.time'), U[1].y_in(ctx), ctx.f('gap.1'), ctx.f('0.s.solver_type.dt'), lambda t, ys: [f(ctx, i, t, ys) for i in range(len(ys))], limit=N + 5)
            ctx.eq('time is the report time', ctx.out(OUT + '.state.time'), ctx.f('0.s.state.time') + ctx.f('gap.1'))
            for n, a, b in zip(U[1].fields, U[1].y(ctx, OUT), y1): ctx.eq('state %s after steps of min(dt, time left)' % n, a, b)
        S.append(Scenario('%s Usr1 derivative in time, %d steps' % (ref.METHODS[m], N), 'h_sys', solve_cfg(U[1], m), each, alias=to_gap, draw=draw_many(N), user=power_rhs(p), traces=1,
                          assume=lambda ctx, N=N: [ctx.clt(0.0, ctx.f('0.s.solver_type.dt')), ctx.clt(float(N - 1) * ctx.f('0.s.solver_type.dt'), ctx.f('gap.1')), ctx.cle(ctx.f('gap.1'), float(N) * ctx.f('0.s.solver_type.dt'))],
                          bounds='%d steps' % N, steps=400_000_000))
    # b) adaptive methods: one gap within a step, arbitrary dynamics; several steps, constant rate
    for m in (5, 6):
        p = '0.' + CFG
        for lay in (U[1], U[2], T3):
            def land(ctx, lay=lay):
                ctx.eq('time is the report time', ctx.out(OUT + '.state.time'), ctx.f('0.s.state.time') + ctx.f('gap.1'))
            S.append(Scenario('%s %s one step' % (ref.METHODS[m], lay.name), 'h_sys', solve_cfg(lay, m), land, alias=to_gap, draw=draw_c,
                              assume=lambda ctx, p=p, lay=lay: caps(ctx, lay) + adaptive_pos(ctx) + [ctx.clt(0.0, ctx.f('gap.1'))] + [ctx.cle(ctx.f('gap.1'), ctx.f(p + x)) for x in ('state.dt', 'dt_max')],
                              bounds='one step, one trial'))
        K = 8 if big else 5
        def sizes(ctx, p=p, N=40):
            # with a constant rate the estimate is zero: the first step is min(dt, left, dt_max), later ones min(left, dt_max)
            t0, left = ctx.f('0.s.state.time'), ctx.f('gap.1')
            n = ctx.out(OUT + '.solver_type.cfg.history.dt.len')
            dt = ctx.min(ctx.min(ctx.f(p + 'state.dt'), left), ctx.f(p + 'dt_max'))
            k = 0
            while k < N + 1:
                if k < n: ctx.eq('size of step', ctx.out(OUT + '.solver_type.cfg.history.dt.%d' % k), dt)
                k += 1
                left = left - dt
                if ctx.leq(left, 0.0): break
                dt = ctx.min(left, ctx.f(p + 'dt_max'))
            ctx.eq('number of steps', n, k)
            ctx.eq('time is the report time', ctx.out(OUT + '.state.time'), t0 + ctx.f('gap.1'))
            ctx.eq('state', ctx.out(OUT + '.a.state.x'), ctx.f('0.s.a.state.x') + ctx.f('gap.1') * ctx.f('rate.0'))
        S.append(Scenario('%s Usr1 constant rate up to %d steps' % (ref.METHODS[m], K), 'h_sys', solve_cfg(U[1], m, 2, {p + 'save': 1}), sizes, alias=to_gap, draw=draw_k, user=const_rhs,
                          assume=lambda ctx, p=p, K=K: adaptive_pos(ctx) + [ctx.clt(0.0, ctx.f('gap.1')), ctx.cle(ctx.f('gap.1'), ctx.f(p + 'state.dt') + float(K - 1) * ctx.f(p + 'dt_max')),
                                                                         ctx.cle(ctx.f('gap.1'), float(K) * ctx.f(p + 'dt_max')), ctx.clt(ctx.f('rate.0') * ctx.f('rate.0'), 1e12)],
                          bounds='%d steps' % K))
        N = 220 if not big else 700
        S.append(Scenario('%s Usr1 constant rate, %d steps' % (ref.METHODS[m], N), 'h_sys', solve_cfg(U[1], m, 2, {p + 'save': 1}), lambda ctx, f=sizes, N=N: f(ctx, N=N), alias=to_gap, draw=draw_many(N), user=const_rhs,
                          traces=1, steps=400_000_000,
                          assume=lambda ctx, p=p, N=N: adaptive_pos(ctx) + [ctx.clt(float(N - 1) * ctx.f(p + 'dt_max'), ctx.f('gap.1')), ctx.cle(ctx.f('gap.1'), float(N) * ctx.f(p + 'dt_max')),
                                                                            ctx.cle(ctx.f(p + 'dt_max'), ctx.f(p + 'state.dt')), ctx.clt(ctx.f('rate.0') * ctx.f('rate.0'), 1e12)], bounds='%d steps' % N))
    # c) at or after the report time: nothing at all
    for m in ALLM:
        for lay in (U[2], MIX, T3, TWBC):
            c = solve_cfg(lay, m, 2, {'~0\\.s\\..*\\.k': 3, '0.s.flag': 0, '0.s.history.time.len': 1, '0.s.history.i.len': 1})
            S.append(Scenario('%s %s not before the report time' % (ref.METHODS[m], lay.name), 'h_sys', c, lambda ctx: ctx.unchanged('nothing changes', OUT, '0.s'), mode='bits',
                              assume=lambda ctx: [ctx.cle(ctx.f('0.s.t_report.1'), ctx.f('0.s.state.time'))], draw=draw_late, bounds='no step'))
    # d) IEEE rounding of the time variable
    for m in range(5):
        for name, hi in (('one step', 1), ('two steps', 2), ('three steps', 3)):
            c = solve_cfg(U[1], m)
            def rnd(ctx):
                t, r = ctx.out(OUT + '.state.time'), ctx.f('0.s.t_report.1')
                ctx.ok('never earlier than the report time', ctx.cle(r, t))
                ctx.ok('at most one rounding beyond it', within_ulp(ctx, t, r))
            S.append(Scenario('%s rounding, %s' % (ref.METHODS[m], name), 'h_sys', c, rnd, mode='rnd', cut={0: 2, 1: 3, 2: 3, 3: 3, 4: 5}[m] * (hi + 2), draw=draw_c,
                              assume=lambda ctx, hi=hi: rounding_domain(ctx, hi), bounds='IEEE double arithmetic on time; gap of at most %d steps' % hi))
    S.sort(key=lambda s: s.mode != 'rnd')
    return S, ['exact real arithmetic except in the rounding scenarios', 'step sizes and tolerances positive'], \
        'one report time, up to 8 steps (16 thorough) for fixed methods and one for adaptive ones under any dynamics; 2100 (6000) and 220 (700) steps at a constant rate'


def rounding_domain(ctx, k):
    t, r, dt = ctx.f('0.s.state.time'), ctx.f('0.s.t_report.1'), ctx.f('0.s.solver_type.dt')
    return [ctx.cle(0.0, t), ctx.clt(t, r), ctx.cle(1e-9, r), ctx.cle(r, 1e9), ctx.cle(1e-3, dt), ctx.cle(r, t + float(k) * dt if k > 1 else t + dt)]


def within_ulp(ctx, t, r):
    """t is at most one rounding error away from r"""
    return ctx.cle(t, r * (1 + 4.440892098500626e-16))


def draw_many(n):
    def f(name, rng):
        if name == 'gap.1': return (n - 0.5) * 0.25
        if name.endswith(('.dt', 'dt_max')): return 0.25
        return draw_c(name, rng)
    return f


def draw_k(name, rng):
    if name.endswith('dt_max'): return rng.choice([0.25, 0.3])
    if name.endswith('state.dt'): return rng.choice([0.25, 0.1, 0.7])
    if name == 'gap.1': return rng.choice([0.2, 0.5, 0.9, 1.0])
    return draw_c(name, rng)


def draw_late(name, rng):
    if name == '0.s.t_report.1': return rng.choice([0.0, 0.125, -1.0])
    return draw_c(name, rng)


# ------------------------------------------------------------------- C06
def comp_rows(lay):
    """[(component path, row fields)] of everything connected"""
    if lay is MIX:
        return [('z', ('x', 'dx')), ('b', ('x', 'dx')), ('p1', ('s', 'k')), ('rack.g', ('s', 'k')), ('rack.g.p', ('s', 'k')), ('rack.g.q', ('s', 'k')), ('rack.p', ('s', 'k'))]
    return [(n, (lay.x_(n), lay.dx_(n))) for n in lay.fields] + [(h, ('q',)) for _, _, h in lay.flows]


def c06(tier):
    S = []
    big = tier == 'thorough'
    def rows(lay, m, n, first, K):
        def sp(ctx):
            t, ys = ctx.f('0.s.state.time'), lay.y_in(ctx)
            f = lay.rhs(ctx, '0.s')
            for q in ('time', 'i'): ctx.eq('system rows', ctx.out('%s.history.%s.len' % (OUT, q)), n)
            for cp, fs in comp_rows(lay):
                for q in fs: ctx.eq('rows of ' + cp, ctx.out('%s.%s.history.%s.len' % (OUT, cp, q)), n)
            ctx.eq('final report index', ctx.out(OUT + '.state.i'), n)
            for k in range(n):
                tk = ctx.f('0.s.t_report.%d' % k)
                ctx.eq('row %d: time' % k, ctx.out('%s.history.time.%d' % (OUT, k)), tk)
                ctx.eq('row %d: index' % k, ctx.out('%s.history.i.%d' % (OUT, k)), k + 1)
                if k >= first:
                    g = ctx.f('gap.%d' % k)
                    if m < 5: t, ys, _ = ref_steps(ctx, m, t, ys, g, ctx.f('0.s.solver_type.dt'), f)
                    else: t, ys = ref.step(ref.METHODS[m], t, ys, g, f)
                for x, y in zip(lay.fields, ys):
                    if x in getattr(lay, 'res', ()) and lay.bc and k >= first: y = lay.bc(ctx, t)[x]
                    ctx.eq('row %d: state %s' % (k, x), ctx.out('%s.%s.history.%s.%d' % (OUT, x, lay.x_(x), k)), y)
            ctx.eq('final time', ctx.out(OUT + '.state.time'), ctx.f('0.s.t_report.%d' % (n - 1)))
            for x, y in zip(lay.fields, lay.y(ctx, OUT)):
                ctx.eq('final state ' + x, y, ctx.out('%s.%s.history.%s.%d' % (OUT, x, lay.x_(x), n - 1)))
            for k in range(n): ctx.eq('schedule', ctx.out('%s.t_report.%d' % (OUT, k)), ctx.f('0.s.t_report.%d' % k))
            ctx.eq('schedule length', ctx.out(OUT + '.t_report.len'), n)
        return sp
    def add(lay, m, n, first, K, strict):
        c = ops(lay.sid, dict(op=3), dict(op=0))
        c.update(getattr(lay, 'cfg', {}))
        c.update({'0.s.t_report.len': n, '0.s.state.i': 0, '0.s.solver_type.method': m, '~0\\.s\\..*\\.k': 3, '0.s.flag': 0})
        if m >= 5: c.update(adaptive_cfg(m, 1))
        al = grid if first else grid0
        def asm(ctx):
            r = sched(ctx, n, m, steps=K, first=first) + caps(ctx, lay)
            if strict: r += [ctx.clt(ctx.f('gap.%d' % k), ctx.f('0.s.solver_type.dt')) for k in range(first, n)]
            return r
        S.append(Scenario('%s %s %d reports%s, %s' % (ref.METHODS[m], lay.name, n, '' if first else ' from before the first', 'shorter than a step' if strict else 'up to %d steps apart' % K), 'h_sys', c,
                          rows(lay, m, n, first, K), assume=asm, alias=al, draw=draw_c, max_paths=20000, bounds='%d report times, up to %d steps between' % (n, K)))
    for m in range(5):
        add(U[2], m, 3, 1, 2, False)
        add(U[1], m, 3 if not big else 4, 1, 3, False)
        add(U[1], m, 2, 1, 5, False)
        add(U[1], m, 12 if not big else 24, 1, 1, True)
        add(U[2], m, 3, 0, 1, False)
        add(U[1], m, 1, 0, 3, False)
        add(T3, m, 3, 1, 1, True)
        add(MIX, m, 3, 1, 1, True)
        add(TBC, m, 3, 1, 1, True)
        add(TFULL4 if m < 4 else TCYCLE3, m, 2, 0, 1, True)
    for m in (5, 6):
        for lay in (U[1], U[2], T3, MIX): 
            add(lay, m, 2, 1, 1, False)
            if lay is not T3: add(lay, m, 1, 0, 1, False)
    for m in ALLM:
        # several gaps with a constant rate
        n = 8 if big else 5
        c = ops(U[1].sid, dict(op=3), dict(op=0))
        c.update({'0.s.t_report.len': n, '0.s.state.i': 0})
        c.update(adaptive_cfg(m, 2) if m >= 5 else {'0.s.solver_type.method': m})
        def crow(ctx, n=n):
            for q in ('time', 'i'): ctx.eq('system rows', ctx.out('%s.history.%s.len' % (OUT, q)), n)
            ctx.eq('rows of a', ctx.out(OUT + '.a.history.x.len'), n)
            ctx.eq('final report index', ctx.out(OUT + '.state.i'), n)
            x = ctx.f('0.s.a.state.x')
            for k in range(n):
                ctx.eq('row %d: time' % k, ctx.out('%s.history.time.%d' % (OUT, k)), ctx.f('0.s.t_report.%d' % k))
                ctx.eq('row %d: index' % k, ctx.out('%s.history.i.%d' % (OUT, k)), k + 1)
                if k: x = x + ctx.f('rate.0') * ctx.f('gap.%d' % k)
                ctx.eq('row %d: state' % k, ctx.out('%s.a.history.x.%d' % (OUT, k)), x)
        # a long schedule, equally spaced
        N = (1100 if m == 0 else 260 if m < 5 else 130) if not big else (2100 if m < 5 else 300)
        def even(kind, name):
            q = re.fullmatch(r'(\d+)\.s\.t_report\.(\d+)', name)
            if kind == 'f' and q: return T.fvar('0.s.state.time') + float(int(q[2])) * T.fvar('gap.1')
            return 'gap.1' if name.startswith('gap.') else None
        def easm(ctx, m=m):
            g = ctx.f('gap.1')
            if m < 5: return [ctx.clt(ctx.f('0.s.solver_type.dt'), g), ctx.clt(0.0, ctx.f('0.s.solver_type.dt')), ctx.cle(g, 2.0 * ctx.f('0.s.solver_type.dt'))]
            return adaptive_pos(ctx) + [ctx.clt(0.0, g), ctx.clt(g, ctx.f('0.' + CFG + 'dt_max')), ctx.cle(g, ctx.f('0.' + CFG + 'state.dt'))]
        S.append(Scenario('%s Usr1 constant rate %d equal gaps' % (ref.METHODS[m], N), 'h_sys', {**c, '0.s.t_report.len': N}, lambda ctx, f=crow, N=N: f(ctx, n=N), alias=even, user=const_rhs, assume=easm, traces=1, steps=400_000_000,
                          draw=lambda name, rng: 0.375 if name == 'gap.1' else 0.25 if name.endswith('solver_type.dt') else 1.0 if name.endswith(('dt_max', 'state.dt')) else draw_c(name, rng), bounds='%d report times, %s' % (N, 'two steps between' if m < 5 else 'one step between')))
        if m < 5: continue
        S.append(Scenario('%s Usr1 constant rate %d reports' % (ref.METHODS[m], n), 'h_sys', c, crow, alias=grid, draw=draw_c, user=const_rhs,
                          assume=lambda ctx, n=n, m=m: sched(ctx, n, m) + [ctx.clt(ctx.f('gap.%d' % k), ctx.f('0.' + CFG + 'dt_max')) for k in range(1, n)], bounds='%d report times' % n))
    return S, ['exact real arithmetic: rounding aside', 'capacities, step sizes and tolerances positive', 'histories empty and report index 0 at the start'], \
        'schedules of up to 12 (24 thorough) report times of arbitrary spacing below the step size, of 2 to 4 with up to 5 steps between, of 260 (900) two steps apart at a constant rate; adaptive methods over one gap with arbitrary dynamics and 4 (7) with a constant rate, or 90 (300) equal ones'


def grid0(kind, name):
    """the schedule starts after the current time"""
    m = re.fullmatch(r'(\d+)\.s\.t_report\.(\d+)', name)
    if kind != 'f' or not m: return None
    t = T.fvar('0.s.state.time')
    for i in range(0, int(m[2]) + 1): t = t + T.fvar('gap.%d' % i)
    return t


# ------------------------------------------------------------------- C07
def c07(tier):
    S = []
    big = tier == 'thorough'
    def cfgd(lay, m, n, runs):
        c = {'runs': runs}
        for r in range(runs):
            c.update({'%d.sys' % r: lay.sid, '%d.s.t_report.len' % r: n[r], '%d.s.state.i' % r: 0, '%d.s.solver_type.method' % r: m, '~%d\\.s\\..*\\.k' % r: 3, '%d.s.flag' % r: 0})
            c.update({k.replace('0.', '%d.' % r, 1) if not k.startswith('~') else k: v for k, v in getattr(lay, 'cfg', {}).items()})
            if m >= 5: c.update(adaptive_cfg(m, 1, save=1, save_states=1, run='%d.' % r))
        return c
    def seq(c, r, *os):
        c['%d.n_ops' % r] = len(os)
        for i, o in enumerate(os):
            for k, v in o.items(): c['%d.%d.%s' % (r, i, k)] = v
        return '%d.%d.dump' % (r, len(os) - 1)
    evals = {0: 1, 1: 2, 2: 2, 3: 2, 4: 4, 5: 4, 6: 6}
    def shared(cuts, c):
        """run 1 has the inputs of run 0; its schedule comes in pieces"""
        def al(kind, name):
            if not name.startswith('1.'): return None
            m = re.fullmatch(r'1\.(\d+)\.v\.(\d+)', name)
            if m: return '0.s.t_report.%d' % (cuts[int(m[1])] + int(m[2]))
            if name.startswith('1.s.') and name not in c: return '0.' + name[2:]
        return al
    for m in ALLM:
        lays = [(U[2], 3)] + ([(T3, 3)] if m in (0, 4, 5) else []) + ([(MIX, 3)] if m in (0, 4) else [])
        if m >= 5: lays = [(U[1], 4)] + [(l, 2) for l, _ in lays[1:]]
        for lay, n in lays:
            nf = len(lay.fields) if lay is not MIX else 4
            isu = not lay.flows
            crate = m >= 5 and lay is U[1]
            # every update of derivatives calls the function once per state
            per = (evals[m] + 1) * nf
            steps = (n - 1) + (1 if m < 5 and n > 2 else 0)
            cut = per * steps if isu else None
            def asm(ctx, n=n, m=m, lay=lay):
                r = [ctx.clt(ctx.f('0.s.t_report.%d' % k), ctx.f('0.s.t_report.%d' % (k + 1))) for k in range(n - 1)]
                r += [ctx.cle(ctx.f('0.s.state.time'), ctx.f('0.s.t_report.0'))]
                dt = ctx.f('0.s.solver_type.dt') if m < 5 else ctx.f('0.' + CFG + 'dt_max')
                r += [ctx.cle(ctx.f('0.s.t_report.0'), ctx.f('0.s.state.time') + dt)] + [ctx.cle(ctx.f('0.s.t_report.%d' % (k + 1)), ctx.f('0.s.t_report.%d' % k) + dt) for k in range(n - 1)]
                return r
            for first in range(1, n):
                for clone in (0, 1):
                    if clone and not (lay in (U[1], U[2], MIX) and first == 1): continue
                    c = cfgd(lay, m, [n, first], 2)
                    a = seq(c, 0, dict(op=3), dict(op=0))
                    ps = [dict(op=3)] + ([dict(op=6)] if clone else []) + [{'op': 5, 'v.len': n - first}, dict(op=3), dict(op=0)]
                    b = seq(c, 1, *ps)
                    at = 1 + clone
                    mode = 'lra' if isu and not crate else 'real'
                    kw = dict(alias=shared({at: first}, c), assume=asm)
                    if not isu or crate:
                        g = shared({at: first}, c)
                        def al(kind, name, g=g):
                            x = g(kind, name)
                            nm = x if isinstance(x, str) else name
                            y = grid(kind, nm)
                            return y if y is not None else x
                        if m >= 5 and n > 2 and not crate: continue
                        kw = dict(alias=al, assume=lambda ctx, n=n, m=m, lay=lay: sched(ctx, n, m) + caps(ctx, lay))
                    S.append(Scenario('%s %s %d reports as %d+%d%s' % (ref.METHODS[m], lay.name, n, first, n - first, ' on a clone' if clone else ''), 'h_sys', c,
                                      lambda ctx, a=a, b=b: ctx.same('both ways', a, b), mode=mode, cut=2 * cut if cut and not crate else None, draw=draw_walk, user=const_rhs if crate else None, max_paths=30000, traces=1,
                                      bounds='%d report times, %s steps' % (n, steps), **kw))
            c = cfgd(lay, m, [n], 1)
            a = seq(c, 0, dict(op=3), dict(op=0), dict(op=3), dict(op=0))
            if isu and not crate:
                kw = dict(mode='lra', assume=asm, cut=cut)
            else:
                kw = dict(mode='real', user=const_rhs if crate else None, alias=grid, assume=lambda ctx, n=n, m=m, lay=lay: sched(ctx, n, m) + caps(ctx, lay))
            S.append(Scenario('%s %s walking again' % (ref.METHODS[m], lay.name), 'h_sys', c, lambda ctx, a=a: ctx.same('nothing changes', '0.1.dump', a),
                              draw=draw_walk, max_paths=30000, traces=1, bounds='%d report times' % n, **kw))
    # adaptive methods whose step size adapts: the second piece takes several steps, from the adapted step size
    for m in (5, 6):
        for first, clone in ((1, 0), (2, 0)) + (((1, 1),) if big else ()):
            times = {'0.s.state.time': 0.0, '0.s.t_report.0': 0.5, '0.s.t_report.1': 0.640625, '0.s.t_report.2': 0.65625, '0.' + CFG + 'state.dt': 0.5, '0.' + CFG + 'dt_max': 1.0}
            c = cfgd(U[1], m, [3, first], 2)
            a = seq(c, 0, dict(op=3), dict(op=0))
            b = seq(c, 1, *([dict(op=3)] + ([dict(op=6)] if clone else []) + [{'op': 5, 'v.len': 3 - first}, dict(op=3), dict(op=0)]))
            g = shared({1 + clone: first}, c)
            def al(kind, name, g=g, times=times):
                x = g(kind, name)
                return times.get(x if isinstance(x, str) else name, x)
            S.append(Scenario('%s Usr1 3 reports as %d+%d, adapted steps%s' % (ref.METHODS[m], first, 3 - first, ' on a clone' if clone else ''), 'h_sys', c,
                              lambda ctx, a=a, b=b: ctx.same('both ways', a, b), user=power_rhs(2 if m == 5 else 4), cut={'0': 4 * (evals[m] + 1), '1': 16 * (evals[m] + 1)}, draw=draw_resume, max_paths=30000, traces=3,
                              alias=al, assume=lambda ctx: [ctx.clt(0.0, ctx.f('0.' + CFG + x)) for x in ('rtol', 'atol')] + [ctx.clt(0.0, ctx.f('rate.0')), ctx.clt(ctx.f('rate.0'), 100.0)], bounds='3 report times, 4 steps'))
    # already there at the start, whatever the schedule and the histories
    for m in ALLM:
        for lay in (U[2], MIX, TWBC):
            c = cfgd(lay, m, [3], 1)
            seq(c, 0, dict(op=3), dict(op=0))
            c['0.s.state.i'] = 'sym'
            for q in ('time', 'i'): c['0.s.history.%s.len' % q] = 2
            S.append(Scenario('%s %s already at the last report time' % (ref.METHODS[m], lay.name), 'h_sys', c, lambda ctx: ctx.unchanged('nothing changes', '0.1.dump', '0.s'), mode='bits',
                              assume=lambda ctx: [ctx.cle(ctx.f('0.s.t_report.2'), ctx.f('0.s.state.time'))], draw=draw_late2, bounds='3 report times'))
    return S, ['two runs of the same code from the same state: arithmetic uninterpreted on bit patterns (IEEE comparisons), so the agreement is bit for bit; thermal systems in exact reals'], \
        'schedules of 2 or 3 report times cut at every point, with up to 3 solver steps; continuation in place and on a clone'


def near_report(ctx, m, k):
    """the pending report time lies ahead, within k steps"""
    t, r = ctx.f('0.s.state.time'), ctx.f('0.s.t_report.%d' % (2 if k == 2 else 1))
    lim = [ctx.f('0.s.solver_type.dt')] if m < 5 else [ctx.f('0.' + CFG + 'state.dt'), ctx.f('0.' + CFG + 'dt_max')]
    return [ctx.cle(0.0, t), ctx.clt(t, r)] + [ctx.cle(r, t + (float(k) * d if m < 5 and k > 1 else d)) for d in lim]


def draw_walk(name, rng):
    if '.t_report.' in name and name[-1].isdigit(): return 0.3 + 0.25 * int(name.split('.')[-1])
    if name.endswith(('solver_type.dt', 'dt_max', 'cfg.state.dt')): return rng.choice([0.5, 0.75])
    return draw_c(name, rng)


def draw_resume(name, rng):
    """tolerances met and missed"""
    if name.endswith(('rtol', 'atol')): return rng.choice([1e-2, 1e-4, 1e-9])
    if name.startswith('rate.'): return rng.choice([0.5, 3.0])
    return draw_c(name, rng)


def draw_late2(name, rng):
    if '.t_report.' in name and name[-1].isdigit(): return -3.0 + int(name.split('.')[-1])
    return draw_c(name, rng)


# ------------------------------------------------------------------- C09
def c09(tier):
    S = []
    big = tier == 'thorough'
    same_ = [r'state\.time', r't_report\..*', r'.*\.(c|h|gain|id|k)', r'extra', r'solver_type\.(dt|cfg\.(dt_max|rtol|atol|max_iter|save|save_states|state\.dt))']
    for m in ALLM:
        for lay in ([U[1], U[2], T3, TLAW, TRES, TBC, TWBC, MIX] if m < 5 else [U[1], U[2], T3, TBC, TWBC, MIX]):
            for how in ('step', 'solve'):
                if how == 'solve' and lay not in (U[1], T3, MIX): continue
                for mi in ((1, 2) if m >= 5 and lay is U[1] and how == 'step' else (1,)):
                    c = {'runs': 2}
                    for r in '01':
                        c.update({r + '.sys': lay.sid, r + '.n_ops': 2, r + '.1.op': 0, r + '.s.solver_type.method': m if how == 'solve' or m >= 5 else 4 - m, '~%s\\.s\\..*\\.k' % r: 3, r + '.s.flag': 0})
                        c.update({k.replace('\\\\d+', '\\d+'): v for k, v in getattr(lay, 'cfg', {}).items()})
                        if how == 'step': c.update({r + '.0.op': 1, r + '.0.m': m})
                        else: c[r + '.0.op'] = 2
                        if m >= 5: c.update(adaptive_cfg(m, mi, run=r + '.'))
                    # run 1: histories filled, other reports present, another report index
                    for cp, fs in comp_rows(lay):
                        for q in fs: c['1.s.%s.history.%s.len' % (cp, q)] = 2
                    for q in ('time', 'i'): c['1.s.history.%s.len' % q] = 2
                    c.update({'0.s.t_report.len': 3, '1.s.t_report.len': 2, '0.s.state.i': 2, '1.s.state.i': 1})
                    if m >= 5: c.update({'1.' + CFG + 'state.n_iter': 200, '1.' + CFG + 'state.norm_err.some': 1, '1.' + CFG + 'state.norm_err_rel.some': 1})
                    xs = {'%s.state.%s' % (n, lay.x_(n)) for n in lay.fields}
                    if lay is MIX: xs |= {'%s.state.s' % n for n in ('rack.g', 'rack.p', 'rack.g.p', 'rack.g.q')}
                    # states that are not part of the vector and that the derivative function overwrites may differ
                    def al(kind, name, xs=xs, lay=lay):
                        if not name.startswith('1.'): return None
                        r = name[2:]
                        if r == '0.dt': return '0.0.dt'
                        if not r.startswith('s.'): return None
                        r = r[2:]
                        if r == 't_report.1': return '0.s.t_report.2'
                        if r in xs or any(re.fullmatch(x, r) for x in same_) and 'history' not in r: return '0.s.' + r
                        return None
                    def sp(ctx, lay=lay, m=m, how=how, xs=xs):
                        a, b = '0.1.dump', '1.1.dump'
                        pairs = ['state.time'] + sorted(xs) + ['%s.state.%s' % (n, lay.dx_(n)) for n in lay.fields] + ['%s.state.q' % h for _, _, h in lay.flows]
                        if m >= 5: pairs += ['solver_type.cfg.state.' + q for q in ('dt', 'n_iter', 'norm_err.some', 'norm_err_rel.some', 'norm_err.val', 'norm_err_rel.val')]
                        for q in pairs:
                            if q.endswith('.val') and not ctx.has(a + '.' + q) and not ctx.has(b + '.' + q): continue
                            ctx.eq('same ' + q, ctx.out(a + '.' + q), ctx.out(b + '.' + q))
                        if m >= 5 and how == 'step': ctx.eq('same step', ctx.out('0.0.ret'), ctx.out('1.0.ret'))
                        if lay is MIX: 
                            for q in ('p1.state.s', 'un.state.x'): ctx.eq('same ' + q, ctx.out(a + '.' + q), ctx.out(b + '.' + q))
                    nf = len(lay.fields) if lay is not MIX else 4
                    ev = {0: 1, 1: 2, 2: 2, 3: 2, 4: 4, 5: 4, 6: 6}[m]
                    cut = None
                    kw = dict(mode='lra' if how == 'solve' else 'abs' if m >= 5 else 'bits', alias=al)
                    if how == 'solve':
                        if lay in (U[1], MIX):
                            cut = 2 * (nf * (ev + 1) * (2 if m < 5 else 1))
                            kw['assume'] = lambda ctx, m=m: near_report(ctx, m, 2)
                        else:
                            # thermal: at most two (adaptive: one) steps, by assumption
                            if m >= 5: continue
                            g = al
                            def al2(kind, name, g=g):
                                x = g(kind, name)
                                nm = x if isinstance(x, str) else name
                                if nm == '0.s.t_report.2': return T.fvar('0.s.state.time') + T.fvar('gap.1')
                                return x
                            kw = dict(mode='real', alias=al2, assume=lambda ctx, lay=lay: caps(ctx, lay) + [ctx.clt(0.0, ctx.f('gap.1')), ctx.clt(0.0, ctx.f('0.s.solver_type.dt')), ctx.cle(ctx.f('gap.1'), 2.0 * ctx.f('0.s.solver_type.dt'))])
                    S.append(Scenario('%s %s %s%s' % (ref.METHODS[m], lay.name, how, '' if mi == 1 else ' %d trials' % mi), 'h_sys', c, sp, cut=cut, draw=draw_c, max_paths=30000, traces=1,
                                      bounds='one step' if how == 'step' else 'solving to a report time in at most two steps', **kw))
    return S, ['arithmetic on bit patterns is uninterpreted (IEEE comparisons): both runs execute the same code, so the agreement is bit for bit; solving thermal systems in exact reals'], \
        'pairs of arbitrary systems equal in time, states, parameters and settings; one step by each method, or up to two to a report time'


# ------------------------------------------------------------------- C10
def c10(tier):
    S = []
    for m in ALLM:
        for lay, rows in [(U[2], 2), (U[5], 2), (T3, 2), (TRES, 2), (TWBC, 2), (MIX, 2), (TLAW, 2), (U[2], 130), (T3, 130)]:
            for how in ('step', 'solve'):
                if how == 'solve' and lay not in (U[2], MIX): continue
                if m >= 5 and lay in (U[5],): continue
                c = ops(lay.sid, dict(op=1, m=m) if how == 'step' else dict(op=2), dict(op=0))
                c.update(getattr(lay, 'cfg', {}))
                c.update({'0.s.solver_type.method': m if how == 'solve' or m >= 5 else (m + 1) % 5, '~0\\.s\\..*\\.k': 3, '0.s.flag': 1, '0.s.t_report.len': 3 if rows == 2 else 140, '0.s.state.i': 1})
                if how == 'step': c['0.s.state.i'] = 'sym'
                if m >= 5:
                    c.update(adaptive_cfg(m, 1, save=1, save_states=1))
                    for q in ('dt', 'n_iter', 'norm_err', 'norm_err_rel', 't_curr', 'states'): c['0.%shistory.%s.len' % (CFG, q)] = rows - 1
                for cp, fs in comp_rows(lay) + ([('un', ('x', 'dx')), ('rack.g.un', ('s', 'k'))] if lay is MIX else []):
                    for q in fs: c['0.s.%s.history.%s.len' % (cp, q)] = rows
                for q in ('time', 'i'): c['0.s.history.%s.len' % q] = rows
                moving = {'state.time'} | {'%s.state.%s' % (n, q) for n in lay.fields for q in (lay.x_(n), lay.dx_(n))} | {'%s.state.q' % h for _, _, h in lay.flows}
                if lay is MIX: moving |= {'p1.state.s', 'un.state.x'}
                def sp(ctx, moving=moving, m=m):
                    ctx.unchanged('left alone', OUT, '0.s', skip=lambda r: r in moving or m >= 5 and r.startswith(('solver_type.cfg.state.', 'solver_type.cfg.history.')))
                nf = len(lay.fields) if lay is not MIX else 4
                ev = {0: 1, 1: 2, 2: 2, 3: 2, 4: 4, 5: 4, 6: 6}[m]
                S.append(Scenario('%s %s %s%s' % (ref.METHODS[m], lay.name, how, '' if rows == 2 else ' with %d rows' % rows), 'h_sys', c, sp, mode='lra' if how == 'solve' else 'abs' if m >= 5 else 'bits', cut=nf * (ev + 1) * (2 if m < 5 else 1) if how == 'solve' else None,
                                  assume=(lambda ctx, m=m: near_report(ctx, m, 1)) if how == 'solve' else None, draw=draw_c,
                                  max_paths=30000, traces=1, bounds='one step' if how == 'step' else 'up to two steps'))
    return S, ['bit patterns; arithmetic uninterpreted'], 'one step by each method from an arbitrary system with two or 130 rows in every history; solving to a report time in at most two steps'


# ------------------------------------------------------------------- C16, C17
MIXUN = [('un', ('x', 'dx')), ('rack.g.un', ('s', 'k'))]


def hist_cfg(lay, c, lens, run='0'):
    k = 0
    for cp, fs in comp_rows(lay) + (MIXUN if lay is MIX else []):
        for q in fs: c['%s.s.%s.history.%s.len' % (run, cp, q)] = lens[k % len(lens)]
        k += 1
    for q in ('time', 'i'): c['%s.s.history.%s.len' % (run, q)] = lens[k % len(lens)]


def c16(tier):
    S = []
    big = tier == 'thorough'
    for lay in [U[1], U[3], U[9], T3, TWBC, TFULL4, TRES, TLAW, TBC, MIX]:
        for lens in ((0,), (1,), (3, 0, 1, 2), (4,)) + (((16,), (33, 17)) if tier == 'thorough' else ()) + (((130, 65, 257),) if lay in (U[1], T3, MIX) else ()) + (((1100,),) if lay is T3 else ()):
            for times in ((1, 2) if lens[0] < 50 else (1,)) + ((2100 if not big else 9000,) if lens == (0,) and lay in (U[1], TRES) else ()):
                c = ops(lay.sid, *([dict(op=4)] * times + [dict(op=0)]))
                c.update(getattr(lay, 'cfg', {}))
                c.update({'0.s.solver_type.method': 0, '0.s.t_report.len': 2, '~0\\.s\\.(?!.*history).*\\.k': 'sym', '0.s.flag': 1, '0.s.state.i': 'sym'})
                hist_cfg(lay, c, lens)
                o = '0.%d.dump' % times
                saved = [cp for cp, _ in comp_rows(lay)]
                fields = dict(comp_rows(lay))
                def sp(ctx, o=o, times=times, saved=saved, fields=fields, c=c):
                    pre = {}
                    for cp in saved + ['']:
                        p = cp + '.' if cp else ''
                        for q in fields.get(cp, ('time', 'i')):
                            n0 = c['0.s.%shistory.%s.len' % (p, q)]
                            h = '%s.%shistory.%s' % (o, p, q)
                            pre['%shistory.%s' % (p, q)] = 1
                            ctx.eq('length of %shistory.%s' % (p, q), ctx.out(h + '.len'), n0 + times)
                            kind = 'u' if q in ('i', 'k') else 'f'
                            for k in range(n0): ctx.eq('earlier row of %shistory.%s' % (p, q), ctx.out('%s.%d' % (h, k)), ctx.narrow(kind, '0.s.%shistory.%s.%d' % (p, q, k)))
                            for k in range(times): ctx.eq('new row of %shistory.%s' % (p, q), ctx.out('%s.%d' % (h, n0 + k)), ctx.narrow(kind, '0.s.%sstate.%s' % (p, q)))
                    ctx.unchanged('rest', o, '0.s', skip=lambda r: r.rsplit('.', 1)[0] in pre)
                S.append(Scenario('%s rows %s, %d save%s' % (lay.name, ' '.join(map(str, lens)), times, 's' * (times - 1)), 'h_sys', c, sp, mode='bits', traces=1, bounds='%d rows before' % max(lens)))
    return S, ['bit patterns'], 'systems of up to 12 components, with nested, unmarked and interleaved ones, histories of 0 to 4 rows (33 thorough) of different lengths, for three of them up to 257 and for one 1100, one or two saves; from empty 2100 (9000) saves'


def c17(tier):
    S = []
    for lay in [U[1], U[3], U[9], T3, TWBC, TFULL4, TRES, TLAW, TBC, MIX]:
        for lens in ((0,), (2,), (1, 3, 0)) + (((40, 17, 130),) if lay in (U[1], T3, MIX) else ()):
            for m in (0, 6) if lens == (2,) else (5,) if lens[0] == 40 else (3,):
                for op in (7, 8, 9):
                    seq = [dict(op=op), dict(op=0)]
                    c = ops(lay.sid, *seq)
                    c.update(getattr(lay, 'cfg', {}))
                    c.update({'0.s.solver_type.method': m, '0.s.t_report.len': 3, '~0\\.s\\.(?!.*history).*\\.k': 'sym', '0.s.flag': 1, '0.s.state.i': 7})
                    hist_cfg(lay, c, lens)
                    if m >= 5:
                        c.update(adaptive_cfg(m, 200, save=1, save_states=1))
                        c.update({'0.' + CFG + 'state.norm_err.some': 1, '0.' + CFG + 'state.states.len': 2})
                        for q in ('dt', 'n_iter', 'norm_err', 'norm_err_rel', 't_curr', 'states'): c['0.%shistory.%s.len' % (CFG, q)] = 1 if lens[0] < 40 else 70
                        if lens[0] == 40: c['0.s.t_report.len'] = 150
                    fields = dict(comp_rows(lay))
                    emptied = {('%s.' % cp if cp else '') + 'history.%s' % q for cp in list(fields) + [''] for q in fields.get(cp, ('time', 'i'))}
                    def sp(ctx, op=op, emptied=emptied):
                        if op != 8:
                            for h in sorted(emptied): ctx.eq('empty ' + h, ctx.out('0.0.bare.%s.len' % h), 0)
                            ctx.unchanged('bare clone', '0.0.bare', '0.s', skip=lambda r: r.rsplit('.', 1)[0] in emptied)
                        if op != 9: ctx.unchanged('original', '0.1.dump', '0.s')
                    S.append(Scenario('%s %s %s rows %s' % (lay.name, ref.METHODS[m], {7: 'clone', 8: 'clone changed', 9: 'original changed'}[op], ' '.join(map(str, lens))), 'h_sys', c, sp,
                                      mode='bits', traces=1, bounds='%d rows' % max(lens)))
    return S, ['bit patterns'], 'systems of up to 12 components, nested, unmarked and interleaved; histories of 0 to 3 rows; adaptive solver state and history present'


PROPS = {'C05': c05, 'C06': c06, 'C07': c07, 'C09': c09, 'C10': c10, 'C16': c16, 'C17': c17}
