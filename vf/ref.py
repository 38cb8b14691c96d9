"""Reference definitions the specifications use: published tableaux and controller."""
from fractions import Fraction as F

F0 = F(0)
TAB = {
    'euler': ([0], [[]], [1]),
    'heun': ([0, 1], [[], [1]], [F(1, 2), F(1, 2)]),
    'midpoint': ([0, F(1, 2)], [[], [F(1, 2)]], [0, 1]),
    'ralston': ([0, F(2, 3)], [[], [F(2, 3)]], [F(1, 4), F(3, 4)]),
    'rk4': ([0, F(1, 2), F(1, 2), 1], [[], [F(1, 2)], [0, F(1, 2)], [0, 0, 1]], [F(1, 6), F(1, 3), F(1, 3), F(1, 6)]),
    'rk23': ([0, F(1, 2), F(3, 4), 1], [[], [F(1, 2)], [0, F(3, 4)], [F(2, 9), F(1, 3), F(4, 9)]], [F(2, 9), F(1, 3), F(4, 9), 0]),
    'rk45': ([0, F(1, 5), F(3, 10), F(3, 5), 1, F(7, 8)],
             [[], [F(1, 5)], [F(3, 40), F(9, 40)], [F(3, 10), F(-9, 10), F(6, 5)], [F(-11, 54), F(5, 2), F(-70, 27), F(35, 27)],
              [F(1631, 55296), F(175, 512), F(575, 13824), F(44275, 110592), F(253, 4096)]],
             [F(37, 378), 0, F(250, 621), F(125, 594), 0, F(512, 1771)]),
}
LOW = {
    'rk23': [F(7, 24), F(1, 4), F(1, 3), F(1, 8)],
    'rk45': [F(2825, 27648), 0, F(18575, 48384), F(13525, 55296), F(277, 14336), F(1, 4)],
}
METHODS = ['euler', 'heun', 'midpoint', 'ralston', 'rk4', 'rk23', 'rk45']


def comb(cs, ks):
    s = None
    for c, k in zip(cs, ks):
        if c == 0: continue
        x = float(c) * k if c != 1 else k
        s = x if s is None else s + x
    return 0.0 if s is None else s


def stages(m, t, ys, dt, f):
    c, a, _ = TAB[m]
    ks = []
    for i in range(len(c)):
        ti = t if c[i] == 0 else t + (dt if c[i] == 1 else float(c[i]) * dt)
        if any(a[i]):
            yi = [y + comb(a[i], [k[n] for k in ks]) * dt for n, y in enumerate(ys)]
        else:
            yi = list(ys)
        ks.append(f(ti, yi))
    return ks


def increments(m, t, ys, dt, f, ks=None):
    """(high order increment, low order increment or None)"""
    if ks is None: ks = stages(m, t, ys, dt, f)
    b = TAB[m][2]
    hi = [comb(b, [k[n] for k in ks]) * dt for n in range(len(ys))]
    lo = None
    if m in LOW:
        lo = [comb(LOW[m], [k[n] for k in ks]) * dt for n in range(len(ys))]
    return hi, lo


def step(m, t, ys, dt, f):
    hi, _ = increments(m, t, ys, dt, f)
    return t + dt, [y + h for y, h in zip(ys, hi)]


def norm(ctx, v):
    s = 0.0
    for x in v: s = s + x * x
    return ctx.sqrt(s)


class Trial:
    pass


def adaptive(ctx, m, t, ys, gap, cfg, f):
    """the published controller: -> the last trial, with .n, .dt, .err, .rel (None if the
    increment is zero), .hi, .next (step size stored for later)"""
    dt = ctx.min(ctx.min(cfg['dt'], gap), cfg['dt_max'])
    n = 0
    while True:
        r = Trial()
        r.dt = dt
        r.hi, lo = increments(m, t, ys, dt, f)
        n += 1
        r.n = n
        r.err = norm(ctx, [a - b for a, b in zip(lo, r.hi)])
        h = norm(ctx, r.hi)
        r.rel = None if bool(ctx.ceq(h, 0.0)) else ctx.div(r.err, h)
        if r.rel is not None and ctx.leq(r.rel, cfg['rtol']):
            met = True
            co = ctx.pow(ctx.div(cfg['rtol'], r.rel), 0.2)
        elif r.rel is not None and ctx.leq(r.err, cfg['atol']):
            met = ctx.lt(r.err, cfg['atol'])
            co = ctx.pow(ctx.div(cfg['atol'], r.err), 0.2)
        elif r.rel is not None:
            met = False
            co = 0.25
        else:
            met = ctx.leq(r.err, cfg['atol'])
            co = ctx.pow(ctx.div(cfg['atol'], r.err), 0.2 if met else 0.25)
        r.met = met
        if met or n >= cfg['max_iter']:
            r.next = ctx.min(dt * co, cfg['dt_max'])
            return r
        dt = dt * co        # never larger than dt: the factor is at most 1 here
