"""C15, C18, C21-C24: containers, binary encoding, grids, comparison, recording, accuracy."""
from .common import *
from .systems import sched, grid, draw_c, adaptive_pos
from .walking import const_rhs
from .. import terms as T

# field kinds: f float, u integer, o optional float, v list of floats (of 2)
TYPES = {
    0: ('SystemState', dict(i='u', time='f')),
    1: ('SolverState', dict(dt='f', n_iter='u', norm_err='o', norm_err_rel='o', t_curr='f', states='v')),
    2: ('ThermalMassState', dict(temp='f', dtemp='f')),
    3: ('ConductanceState', dict(q='f')),
    4: ('NodeState', dict(x='f', dx='f')),
    5: ('ProbeState', dict(s='f', k='u')),
    6: ('WideState', dict(k='u', a='f', flag='u', o='o', b='f', l='v', n='u')),
    7: ('ListState', dict(l='v')),
}
NV = 2


def leaves(fields, some):
    """(field, suffix, kind) of every leaf of a state; constants as ints"""
    for n, k in fields.items():
        if k in 'fu': yield n, '', k
        elif k == 'o':
            yield n, '.some', int(bool(some))
            if some: yield n, '.val', 'f'
        else:
            yield n, '.len', NV
            for j in range(NV): yield n, '.%d' % j, 'f'


def c15(tier):
    S = []
    big = tier == 'thorough'
    def row_in(ctx, fields, some, at):
        """at(field) -> name of the field's input"""
        r = {}
        for n, suf, k in leaves(fields, some):
            r[n + suf] = k if isinstance(k, int) else ctx.narrow(k, at(n) + suf)
        return r
    def same_rows(ctx, label, fields, some, at, rows, kind=None):
        for n, k in fields.items():
            ctx.eq('%s: rows of %s' % (label, n), ctx.out('%s.%s.len' % (at, n)), len(rows))
        for i, r in enumerate(rows):
            for n, suf, k in leaves(fields, some):
                ctx.eq('%s: row %d %s' % (label, i, n + suf), ctx.out('%s.%s.%d%s' % (at, n, i, suf)), r[n + suf])
    def model(ty, n0, seq, some, fresh=False):
        name, fields = TYPES[ty]
        def sp(ctx):
            rows = [] if fresh else [row_in(ctx, fields, some, lambda n, i=i: 'h.%s.%d' % (n, i)) for i in range(n0)]
            for i, o in enumerate(seq):
                if o is None: o = ctx.conc(ctx.u('%d.op' % i))
                p = '%d.' % i
                if o == 0: rows.append(row_in(ctx, fields, some, lambda n: p + 'x.' + n))
                elif o == 1:
                    if not rows: ctx.eq('pop of an empty container', ctx.out(p + 'pop.some'), 0)
                    else:
                        r = rows.pop()
                        ctx.eq('pop of a filled container', ctx.out(p + 'pop.some'), 1)
                        for n, suf, k in leaves(fields, some):
                            ctx.eq('popped ' + n + suf, ctx.out(p + 'pop.val.' + n + suf), r[n + suf])
                elif o == 2: rows = []
                else:
                    ctx.eq('len', ctx.out(p + 'dump.n'), len(rows))
                    ctx.eq('is_empty', ctx.out(p + 'dump.empty'), int(not rows))
                    same_rows(ctx, 'contents', fields, some, p + 'dump.h', rows)
        return sp
    def cfg(ty, n0, seq, some, fresh=False):
        name, fields = TYPES[ty]
        c = {'type': ty, 'fresh': int(fresh), 'n_ops': len(seq), '~.*\\.some': int(some)}
        for n, k in fields.items():
            c['h.%s.len' % n] = n0
            if k == 'v':
                c['~h\\.%s\\.\\d+\\.len' % n] = NV
                c['~\\d+\\.x\\.%s\\.len' % n] = NV
        for i, o in enumerate(seq): c['%d.op' % i] = 'sym' if o is None else o
        return c
    def asm(seq):
        return lambda ctx: [T.ult(ctx.u('%d.op' % i), 3) if ctx.sym else ctx.u('%d.op' % i) < 3 for i, o in enumerate(seq) if o is None]
    def add(name, ty, n0, seq, some=1, fresh=False, **kw):
        S.append(Scenario('%s %s' % (TYPES[ty][0], name), 'h_hist', cfg(ty, n0, seq, some, fresh), model(ty, n0, seq, some, fresh), mode='bits',
                          assume=asm(seq), draw=draw_op, bounds='%d rows before, %d operations' % (n0, len(seq)), **kw))
    lens = [0, 1, 2, 3, 4, 16, 33, 100, 257, 1025] + ([4097] if big else [])
    for ty in TYPES:
        for n0 in lens:
            some = n0 % 2
            add('of %d push' % n0, ty, n0, [0, 3], some)
            add('of %d pop' % n0, ty, n0, [1, 3], 1 - some)
            add('of %d push push pop' % n0, ty, n0, [0, 0, 1, 3], some)
            add('of %d clear push' % n0, ty, n0, [3, 2, 3, 0, 3], some)
        add('new, any sequence', ty, 0, [None] * (4 if not big else 6) + [3], fresh=True)
        add('of 2, any sequence', ty, 2, [None] * (3 if not big else 5) + [3])
        add('drain', ty, 3, [1, 1, 1, 1, 3, 0, 3])
        n = 1100 if not big else 4200
        add('new, %d pushes and pops' % n, ty, 0, [0] * n + [3] + [1] * n + [1, 3], fresh=True, steps=400_000_000)
    return S, ['all rows are complete (every field has the same number of entries)'], \
        'containers of 0 to 4, 16, 33, 100, 257 and 1025 rows (4097 thorough) and one to three operations; filling to 1100 (4200) rows and draining; every sequence of up to 4 (6) operations from empty and 3 (5) from two rows; 8 state types'


def draw_op(name, rng):
    if name.endswith('.op'): return rng.choice([0, 0, 1, 2])
    return None


# ------------------------------------------------------------------- C18
BIN = {0: 'SystemState', 1: 'SystemStateHistoryVec', 2: 'SolverState', 3: 'SolverStateHistoryVec', 4: 'AdaptiveSolverConfig', 5: 'SolverTypes',
       6: 'ThermalMassState', 7: 'ThermalMassStateHistoryVec', 8: 'ConductanceState', 9: 'ConductanceStateHistoryVec', 10: 'ThermalMass',
       11: 'ThermalReservoir', 12: 'Conductance', 13: 'System3TM', 14: 'System3TMWithBC', 15: 'UsrMix', 16: 'WideState', 17: 'WideStateHistoryVec', 18: 'TRes'}


def c18(tier):
    S = []
    big = tier == 'thorough'
    def cfg(ty, n, some, m, what):
        c = {'type': ty, 'what': what}
        if n > 100: c.update({'~.*\\.(states|l)\\.\\d+\\.len': 2, '~.*\\.flag\\.\\d+': 1})
        c.update({'~.*\\.len': n, '~.*\\.some': some, '~.*\\.method': m, 's.method': m})
        for f in ('max_iter', 'save', 'save_states', 'flag', 'n_iter', 'k', 'n', 'i'): c['~.*\\.%s' % f] = 'sym'
        return c
    def trip(ctx):
        ctx.eq('decodes', ctx.out('ok'), 1)
        if ctx.has('ok') and not T.is_t(ctx.out('ok')) and ctx.out('ok') == 1: ctx.same('round trip', 'before', 'after')
    def prefix(ctx):
        ctx.ok('something is encoded', ctx.clt(0.0, 1.0) if T.is_t(ctx.out('size')) else ctx.out('size') > 0)
        ctx.eq('truncated encodings accepted', ctx.out('accepted'), 0)
    for ty, name in BIN.items():
        hists = [(0, 0), (1, 1), (3, 0), (2, 1)] + ([(9, 1), (40, 0)] if big else []) + ([(130, 1)] if ty in (1, 3, 7, 9, 17) else [])
        ms = range(7) if ty in (5, 13) else (4, 5, 6) if ty in (14, 15, 18) else (4,)
        for m in ms:
            for n, some in hists if m in (4, 6) or big else hists[:2]:
                S.append(Scenario('%s%s of %d rows, options %s' % (name, ' with ' + ref.METHODS[m] if len(list(ms)) > 1 else '', n, 'set' if some else 'unset'),
                                  'h_bin', cfg(ty, n, some, m, 0), trip, mode='bits', bounds='histories and lists of %d' % n))
            for n, some in ((1, 1), (2, 0)) if m in (4, 6) else ((1, 1),):
                S.append(Scenario('%s%s of %d rows truncated' % (name, ' with ' + ref.METHODS[m] if len(list(ms)) > 1 else '', n), 'h_bin', cfg(ty, n, some, m, 1), prefix, mode='bits',
                                  bounds='every strict prefix, histories and lists of %d' % n, steps=40_000_000))
    return S, ['allocation succeeds'], 'every type of the repository and three user-defined ones; histories and lists of 0 to 3 rows (9, 40 thorough), containers of 130; every strict prefix (histories of up to 2)'


# ------------------------------------------------------------------- C27
def c27(tier):
    S = []
    big = tier == 'thorough'
    def cfg(ty, what, n, some, m, over=()):
        c = {'type': ty, 'what': what, '~.*\\.len': n, '~.*\\.some': some, '~.*\\.method': m, 'a.method': m, 'b.method': m, 'c.method': m}
        for f in ('max_iter', 'save', 'save_states', 'flag', 'n_iter', 'k', 'n', 'i'): c['~.*\\.%s(\\.\\d+)?' % f] = 'sym'
        r = dict(over)
        r.update((k, v) for k, v in c.items() if k not in r)
        return r
    def differ(ctx):
        """the condition that both dumps hold the same"""
        a = {k[2:]: ctx.outs[k] for k in ctx.outs_below('x')}
        b = {k[2:]: ctx.outs[k] for k in ctx.outs_below('y')}
        if not a: ctx.fail('nothing compared')
        if sorted(a) != sorted(b): return 0
        rest = []
        for k in a:
            x, y = a[k], b[k]
            fl = isinstance(x, (float, T.FTerm))
            c = T.fcmp('oeq', x, y) if fl else T.eq(x, y) if T.is_t(x) or T.is_t(y) else int(x == y)
            if T.is_t(c):
                # what the path has decided
                d, v = c, True
                while d.op == 'not': d, v = d.args[0], not v
                u = ctx.ex.known.get(d.id)
                if u is not None: c = int(u == v)
            if not T.is_t(c):
                if not c: return 0
            else: rest.append(c)
        r = 1
        for c in rest: r = c if not T.is_t(r) else T.band_(r, c, 'and')
        return r
    def equal(ctx):
        w = differ(ctx)
        for k, v in (('eq', w), ('ne', T.bnot1(w) if T.is_t(w) else 1 - w), ('qe', w)): ctx.eq(k, ctx.out(k), v)
    def copy(ctx): ctx.same('copy', 'x', 'copy')
    def copies(ctx):
        ctx.same('copy', 'x', 'copy')
        ctx.same('original after the copy is overwritten', 'x', 'copied')
    for ty, name in BIN.items():
        hists = [(0, 0), (1, 1), (3, 0)] + ([(9, 1), (33, 0)] if big else [])
        ms = range(7) if ty in (5, 13) else (4, 5, 6) if ty in (14, 15, 18) else (4,)
        for m in ms:
            nm = '%s%s' % (name, ' with ' + ref.METHODS[m] if len(list(ms)) > 1 else '')
            for n, some in hists if m in (4, 6) or big else hists[:2]:
                S.append(Scenario('%s of %d rows, options %s' % (nm, n, 'set' if some else 'unset'), 'h_eq', cfg(ty, 0, n, some, m), equal, mode='bits', draw=draw_same, traces=4,
                                  bounds='histories and lists of %d' % n, max_paths=4000))
                S.append(Scenario('copy of %s of %d rows, options %s' % (nm, n, 'set' if some else 'unset'), 'h_eq', cfg(ty, 1, n, some, m), copy, mode='bits', bounds='histories and lists of %d' % n))
            # what is there overwritten: of other lengths and of another kind
            for n, (some, m2) in ((2, (0, 4)), (0, (1, 5))):
                c = cfg(ty, 2, n, some, m, {'~b\\..*\\.len': 1, '~b\\..*\\.some': 1, '~b\\..*\\.method': m2, 'b.method': m2})
                S.append(Scenario('copy over another %s: %s of %d rows' % (name, nm, n), 'h_eq', c, copies, mode='bits', bounds='histories and lists of %d over 1' % n))
            # of different layout
            lens = [(1, 2), (2, 1), (0, 1)] + ([(8, 9)] if big else [])
            for n1, n2 in lens if m in (4, 6) else lens[:1]:
                c = cfg(ty, 0, n1, 1, m, {'~b\\..*\\.len': n2})
                S.append(Scenario('%s of %d against %d rows' % (nm, n1, n2), 'h_eq', c, equal, mode='bits', draw=draw_same, bounds='histories and lists of %d and %d' % (n1, n2), max_paths=4000))
            if ty in (2, 3, 4, 5, 16, 17):
                c = cfg(ty, 0, 1, 1, m, {'~b\\..*\\.some': 0})
                S.append(Scenario('%s, options set against unset' % nm, 'h_eq', c, equal, mode='bits', draw=draw_same, bounds='histories and lists of 1', max_paths=4000))
            if ty in (5, 13):
                for m2 in range(7):
                    if m2 != m:
                        c = cfg(ty, 0, 1, 0, m, {'~b\\..*\\.method': m2, 'b.method': m2})
                        S.append(Scenario('%s against %s' % (nm, ref.METHODS[m2]), 'h_eq', c, equal, mode='bits', draw=draw_same, bounds='histories of 1', max_paths=4000))
    return S, ['allocation succeeds'], 'every type of the repository and three user-defined ones; histories and lists of 0 to 3 rows (9, 33 thorough), of equal or different lengths; every pair of solver variants'


def draw_same(name, rng):
    """both sides mostly alike"""
    import re, zlib
    v = zlib.crc32(name[2:].encode()) % 5
    if name.startswith('b.') and rng.random() < 0.03: v += 1
    whole = re.sub(r'\.\d+$', '', name).split('.')[-1] in ('max_iter', 'save', 'save_states', 'flag', 'n_iter', 'k', 'n', 'i')
    return v if whole else (v - 1.5) * 0.75


# ------------------------------------------------------------------- C21
def c21(tier):
    S = []
    big = tier == 'thorough'
    ns = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 31, 51, 64, 101, 128, 201, 256, 257, 300] + ([513, 1001, 4097] if big else [])
    def grid_(n):
        def sp(ctx):
            a, b = ctx.f('0.lin.a'), ctx.f('0.lin.b')
            ctx.eq('number of values', ctx.out('0.lin.len'), n)
            for k in range(n):
                if k == 0: ctx.eq('first', ctx.out('0.lin.0'), a)
                elif k == n - 1: ctx.eq('last', ctx.out('0.lin.%d' % k), b)
                else: ctx.eq('value %d' % k, float(n - 1) * (ctx.out('0.lin.%d' % k) - a), float(k) * (b - a))
        return sp
    def steps(n):
        def sp(ctx):
            a, b = ctx.f('0.a'), ctx.f('0.b')
            ctx.eq('number of differences', ctx.out('0.diff.len'), n - 1)
            for k in range(n - 1): ctx.eq('difference %d' % k, float(n - 1) * ctx.out('0.diff.%d' % k), b - a)
        return sp
    def diff(n):
        def sp(ctx):
            ctx.eq('number of differences', ctx.out('0.diff.len'), max(0, n - 1))
            for k in range(n - 1): ctx.eq('difference %d' % k, ctx.out('0.diff.%d' % k), ctx.f('0.v.%d' % (k + 1)) - ctx.f('0.v.%d' % k))
        return sp
    for n in ns:
        S.append(Scenario('linspace of %d' % n, 'h_util', {'n_ops': 1, '0.op': 0, '0.lin.n': n}, grid_(n), bounds='%d elements' % n))
        S.append(Scenario('differences of linspace of %d' % n, 'h_util', {'n_ops': 1, '0.op': 2, '0.n': n}, steps(n), bounds='%d elements' % n))
    for n in [0] + ns:
        S.append(Scenario('diff of %d' % n, 'h_util', {'n_ops': 1, '0.op': 1, '0.v.len': n}, diff(n), mode='real', bounds='%d elements' % n))
    return S, ['exact real arithmetic: rounding aside'], 'lengths %s' % ', '.join(map(str, ns))


# ------------------------------------------------------------------- C22
def c22(tier):
    S = []
    def want(ctx, a, b, e):
        d = b - a
        ad = T.fabs(d)
        s = T.fabs(a + b)
        # |d| < e, or |d| / |a+b| < e
        if ctx.lt(ad, e): return 1
        if bool(ctx.ceq(s, 0.0)): return 0
        return 1 if ctx.lt(ctx.div(ad, s), e) else 0
    for some in (0, 1):
        for op, nm in ((3, 'as given'), (4, 'swapped'), (5, 'negated')):
            def sp(ctx, some=some):
                e = ctx.f('0.eq.eps.val') if some else 1e-8
                ctx.eq('result', ctx.out('0.eq'), want(ctx, ctx.f('0.eq.a'), ctx.f('0.eq.b'), e))
            S.append(Scenario('%s epsilon, %s' % ('any' if some else 'default', nm), 'h_util', {'n_ops': 1, '0.op': op, '0.eq.eps.some': some}, sp, draw=draw_eq, traces=6,
                              bounds='all values'))
        def refl(ctx): ctx.eq('equal values', ctx.out('0.eq'), 1)
        S.append(Scenario('%s epsilon, equal values, IEEE' % ('any' if some else 'default'), 'h_util', {'n_ops': 1, '0.op': 3, '0.eq.eps.some': some}, refl, mode='fp',
                          alias=lambda k, n: '0.eq.a' if n == '0.eq.b' else None,
                          assume=lambda ctx, some=some: ([ctx.clt(0.0, ctx.f('0.eq.eps.val'))] if some else []) + [ctx.clt(-1e300, ctx.f('0.eq.a')), ctx.clt(ctx.f('0.eq.a'), 1e300)], draw=draw_eq))
    return S, ['exact real arithmetic: rounding at the threshold aside (the scenarios marked IEEE are exact)'], 'all pairs of values and epsilons'


def draw_eq(name, rng):
    if name.endswith('val'): return rng.choice([1e-8, 0.1, 1.0, 0.01, -1.0, 0.0])
    return rng.choice([0.0, 1.0, 1.0 + 1e-9, -1.0, 1.05, 3.0, 1e-9, 1e12, rng.uniform(-4, 4)])


# ------------------------------------------------------------------- C23
P = '0.' + CFG
HF = ('dt', 'n_iter', 'norm_err', 'norm_err_rel', 't_curr', 'states')


def c23(tier):
    S = []
    big = tier == 'thorough'
    C = 'solver_type.cfg.'
    def base(lay, m, mi, k, ss, extra):
        c = step_scenario(lay, m, mi)
        c.update({P + 'save': 1, P + 'save_states': ss, P + 'max_iter': mi, P + 'state.states.len': 1})
        for h in HF: c['%shistory.%s.len' % (P, h)] = k
        c['~' + P.replace('.', '\\.') + 'history\\.states\\.\\d+\\.len'] = 2
        c['~' + P.replace('.', '\\.') + 'history\\.norm.*\\.some'] = 1
        c['~' + P.replace('.', '\\.') + '.*n_iter.*'] = 'sym'
        c.update(extra)
        return c
    def asm(lay, mi):
        def f(ctx):
            r = [ctx.clt(0.0, ctx.f(x)) for x in cfg_positive() + ['0.0.dt']] + caps(ctx, lay)
            if mi > 1: r += [ctx.cle(ctx.f(P + 'state.dt'), ctx.f('0.0.dt')), ctx.cle(ctx.f(P + 'state.dt'), ctx.f(P + 'dt_max'))]
            return r
        return f
    def earlier(ctx, o, k):
        for h in HF: ctx.eq('rows of ' + h, ctx.out('%s.%shistory.%s.len' % (o, C, h)), k + 1)
        for i in range(k):
            for n in ('dt.%d', 'n_iter.%d', 'norm_err.%d.some', 'norm_err.%d.val', 'norm_err_rel.%d.some', 'norm_err_rel.%d.val', 't_curr.%d', 'states.%d.len', 'states.%d.0', 'states.%d.1'):
                nm = n % i
                v = ctx.out('%s.%shistory.%s' % (o, C, nm))
                if nm.endswith('.len'): ctx.eq('earlier row: ' + nm, v, 2)
                elif nm.endswith('.some'): ctx.eq('earlier row: ' + nm, v, 1)
                else: ctx.eq('earlier row: ' + nm, v, ctx.narrow('u' if n.startswith('n_iter') else 'f', P + 'history.' + nm.replace('.%d' % i, '.%d' % i)))
    for m in (5, 6):
        for lay, mi, k, ss in [(U[1], 1, 0, 1), (U[2], 1, 1, 1), (U[1], 1, 2, 0), (U[1], 2, 1, 1), (U[2], 2, 0, 0)] + ([(U[1], 3, 0, 1)] if big else []) + [(T3, 1, 1, 1), (U[3], 1, 0, 1)]:
            def sp(ctx, lay=lay, m=m, mi=mi, k=k, ss=ss):
                o = OUT
                h = '%s.%shistory.' % (o, C)
                s = '%s.%sstate.' % (o, C)
                earlier(ctx, o, k)
                t, ys = ctx.f('0.s.state.time'), lay.y_in(ctx)
                r = ref.adaptive(ctx, ref.METHODS[m], t, ys, ctx.f('0.0.dt'), cfg_in(ctx, mi), lay.rhs(ctx, '0.s'))
                ctx.eq('recorded step size', ctx.out(h + 'dt.%d' % k), ctx.out('0.0.ret'))
                ctx.eq('recorded step size is the accepted one', ctx.out(h + 'dt.%d' % k), r.dt)
                ctx.eq('recorded trials', ctx.out(h + 'n_iter.%d' % k), r.n)
                ctx.eq('recorded start time', ctx.out(h + 't_curr.%d' % k), t)
                ctx.eq('recorded error present', ctx.out(h + 'norm_err.%d.some' % k), 1)
                ctx.eq('recorded relative error present', ctx.out(h + 'norm_err_rel.%d.some' % k), 0 if r.rel is None else 1)
                if ctx.has(h + 'norm_err.%d.val' % k): ctx.eq('recorded error', ctx.out(h + 'norm_err.%d.val' % k), r.err)
                if ctx.has(h + 'norm_err_rel.%d.val' % k) and r.rel is not None: ctx.eq('recorded relative error', ctx.out(h + 'norm_err_rel.%d.val' % k), r.rel)
                if ss:
                    ctx.eq('recorded states', ctx.out(h + 'states.%d.len' % k), len(lay.fields))
                    for i, (y, n) in enumerate(zip(lay.y(ctx, o), lay.fields)):
                        ctx.eq('recorded state', ctx.out(h + 'states.%d.%d' % (k, i)), y)
            S.append(Scenario('%s %s step, max_iter %d, %d rows before, states %s' % (ref.METHODS[m], lay.name, mi, k, 'on' if ss else 'off'), 'h_sys',
                              base(lay, m, mi, k, ss, {}), sp, assume=asm(lay, mi), draw=draw_c, bounds='one step of up to %d trials' % mi))
        # the mean step size
        for k in (0, 1, 2, 5, 17, 130, 1100) + ((4200,) if big else ()):
            c = ops(U[1].sid, dict(op=24))
            c.update(adaptive_cfg(m, 1))
            for h in HF: c['%shistory.%s.len' % (P, h)] = k
            c['~' + P.replace('.', '\\.') + 'history\\.norm.*\\.some'] = 1 if k != 2 else 'sym'
            c['0.s.solver_type.method'] = m
            def mean(ctx, k=k):
                ctx.eq('mean present', ctx.out('0.0.dt_mean.some'), int(k > 0))
                if k:
                    s = 0.0
                    for i in range(k): s = s + ctx.f('%shistory.dt.%d' % (P, i))
                    ctx.eq('mean', ctx.out('0.0.dt_mean.val'), ctx.div(s, float(k)))
            S.append(Scenario('%s dt_mean of %d' % (ref.METHODS[m], k), 'h_sys', c, mean, bounds='%d records' % k))
        # a whole walk: one record per step, the step sizes cover the time
        for nr, steps in ((2, 1), (3, 1), (2, 2), (5, 1)):
            lay = U[1]
            c = ops(lay.sid, dict(op=3), dict(op=0), dict(op=24))
            c.update({'0.s.t_report.len': nr, '0.s.state.i': 0})
            c.update(adaptive_cfg(m, 1, 1, 1))
            c['0.s.solver_type.method'] = m
            def walk(ctx, nr=nr, steps=steps, one=(nr, steps) == (2, 1)):
                n = ctx.out('%s.%shistory.dt.len' % (OUT, C))
                n = ctx.conc(n) if T.is_t(n) else n
                ctx.ok('as many records as steps', n >= nr - 1)
                t = tot = ctx.f('0.s.state.time')
                for i in range(n):
                    ctx.eq('start time %d' % i, ctx.out('%s.%shistory.t_curr.%d' % (OUT, C, i)), tot)
                    tot = tot + ctx.out('%s.%shistory.dt.%d' % (OUT, C, i))
                ctx.eq('recorded steps cover the time', tot, ctx.out(OUT + '.state.time'))
                ctx.eq('mean present', ctx.out('0.2.dt_mean.some'), 1)
                if not one: ctx.eq('states recorded', ctx.out('%s.%shistory.states.%d.0' % (OUT, C, n - 1)), ctx.out(OUT + '.a.state.x'))
            def wasm(ctx, nr=nr, steps=steps, m=m):
                r = sched(ctx, nr, m)
                if steps == 2:
                    d, g = ctx.f(P + 'state.dt'), ctx.f('gap.1')
                    r = adaptive_pos(ctx) + [ctx.clt(d, g), ctx.cle(g, 2.0 * d), ctx.cle(g, ctx.f(P + 'dt_max')), ctx.clt(0.0, g)]
                return r
            one = (nr, steps) == (2, 1)
            S.append(Scenario('%s walk of %d reports, %s' % (ref.METHODS[m], nr, 'one step each' if steps == 1 else 'shorter steps'), 'h_sys', c, walk, mode='lra' if one else 'real', tol=one, alias=grid,
                              user=None if one else const_rhs, assume=wasm, draw=draw_c, max_paths=20000, cut=(4 if m == 5 else 6) * (2 if steps == 2 else nr - 1) + 40,
                              bounds='walk to %d report times%s' % (nr, '' if one else ', constant rate')))
        # off: nothing recorded, nothing else differs (IEEE, bit for bit)
        for lay, mi in ((U[1], 1), (U[2], 1), (U[1], 2)) + (((T3, 1),) if big else ()):
            for seq, nm in (([dict(op=1, m=m), dict(op=0)], 'step'), ([dict(op=2), dict(op=4), dict(op=0)], 'solve_step')):
                if nm == 'solve_step' and (mi > 1 or lay is T3): continue
                c = {}
                for run, save in (('0.', 0), ('1.', 1)):
                    c.update(ops(lay.sid, *seq, run=run))
                    c.update(adaptive_cfg(m, mi, save, save, run=run))
                    c[run + 's.t_report.len'] = 1; c[run + 's.state.i'] = 0
                    c[run + 's.solver_type.method'] = m
                    for h in HF: c['%ssolver_type.cfg.history.%s.len' % (run + 's.', h)] = 2
                    c['~' + run.replace('.', '\\.') + 's\\.solver_type\\.cfg\\.history\\.states\\.\\d+\\.len'] = 2
                    c['~' + run.replace('.', '\\.') + 's\\.solver_type\\.cfg\\.history\\.norm.*\\.some'] = 1
                    c['~' + run.replace('.', '\\.') + 's\\.solver_type\\.cfg\\.history\\.n_iter.*'] = 3
                c['runs'] = 2
                def twin(kind, name):
                    if kind == 'f' and name[2:] == 's.t_report.0': return T.fvar('0.s.state.time') + T.fvar('gap')
                    return '0.' + name[2:] if kind == 'f' and name.startswith('1.') else None
                def off(ctx, seq=seq):
                    o = '%d.dump' % (len(seq) - 1)
                    sk = lambda r: r.startswith((C + 'save', C + 'history', C + 'state.states'))
                    ctx.same('trajectory', '0.' + o, '1.' + o, skip=sk)
                    for h in HF: ctx.eq('nothing recorded: ' + h, ctx.out('0.%s.%shistory.%s.len' % (o, C, h)), 2)
                    for i in range(2):
                        for n in ('dt.%d', 'norm_err.%d.val', 'norm_err_rel.%d.val', 't_curr.%d', 'states.%d.0', 'states.%d.1'):
                            for r in '01': ctx.eq('earlier record: ' + n % i, ctx.out('%s.%s.%shistory.%s' % (r, o, C, n % i)), ctx.f(P + 'history.' + n % i))
                    ctx.ok('recorded when on', ctx.out('1.%s.%shistory.dt.len' % (o, C)) >= 3)
                def cl(ctx, mi=mi, nm=nm):
                    g = ctx.f('0.0.dt') if nm == 'step' else ctx.f('gap')
                    r = adaptive_pos(ctx) + [ctx.cle(ctx.f(P + 'state.dt'), ctx.f(P + 'dt_max'))]
                    if nm == 'step': return r + [ctx.clt(0.0, g), ctx.cle(ctx.f(P + 'state.dt'), g)]
                    return r + [ctx.clt(0.0, g), ctx.cle(g, ctx.f(P + 'state.dt'))]
                S.append(Scenario('%s %s %s saving off, max_iter %d' % (ref.METHODS[m], lay.name, nm, mi), 'h_sys', c, off, mode='lra', alias=twin, assume=cl,
                                  cut=2 * len(lay.fields) * (6 if m == 6 else 4) * 2 + 60 if nm != 'step' else None, draw=draw_c, bounds='one step'))
    return S, ['exact real arithmetic: rounding aside (the comparison with saving off is bit for bit)', 'step sizes, tolerances, capacities positive', 'step counts claimed for trials up to the bound'], \
        'one adaptive step of up to 2 (3 thorough) trials from solver histories of 0 to 2 records; walks over 2 or 3 report times; dt_mean of 0 to 17, 130 and 1100 records (4200 thorough)'


# ------------------------------------------------------------------- C24
ORDER = [1, 2, 2, 2, 4, 3, 5]


def c24(tier):
    S = []
    big = tier == 'thorough'
    def monos(nv, deg):
        """exponent tuples of nv variables up to total degree deg"""
        if nv == 0: return [()]
        return [(e,) + r for e in range(deg + 1) for r in monos(nv - 1, deg - e)]
    def make(n, deg, auto=False):
        """a right-hand side: every polynomial of the given degree around the current point"""
        ms = [e for e in monos(n + 1, deg) if not (auto and e[0])]
        def coef(ctx, c, e): return ctx.f('k%d.%s' % (c, '_'.join(map(str, e))))
        def rhs(ctx, c, t, ys):
            d = [t - ctx.f('0.s.state.time')] + [y - ctx.f('0.s.%s.state.x' % LET[i]) for i, y in enumerate(ys)]
            s = 0.0
            for e in ms:
                p = coef(ctx, int(c), e)
                for x, k in zip(d, e):
                    for _ in range(k): p = p * x
                s = s + p
            return s
        def taylor(ctx, h, p):
            """coefficients of the exact solution y(t0+s) - y0 = sum_k a[i][k] s^k, k = 1..p"""
            a = [[0.0] * (p + 1) for _ in range(n)]
            def mul(x, y):
                r = [0.0] * (p + 1)
                for i, u in enumerate(x):
                    if isinstance(u, float) and u == 0.0: continue
                    for j, v in enumerate(y):
                        if i + j > p or (isinstance(v, float) and v == 0.0): continue
                        r[i + j] = r[i + j] + u * v
                return r
            s1 = [0.0] * (p + 1); s1[1] = 1.0
            for k in range(1, p + 1):
                # y' = f: coefficient k of y is coefficient k-1 of f along the solution, over k
                pw = []
                for x in [s1] + a:
                    l = [[1.0] + [0.0] * p]
                    for _ in range(deg): l.append(mul(l[-1], x))
                    pw.append(l)
                new = []
                for i in range(n):
                    s = 0.0
                    for e in ms:
                        q = [1.0] + [0.0] * p
                        for x, ex in zip(pw, e):
                            if ex: q = mul(q, x[ex])
                        if isinstance(q[k - 1], float) and q[k - 1] == 0.0: continue
                        s = s + coef(ctx, i, e) * q[k - 1]
                    new.append(s)
                for i in range(n): a[i][k] = ctx.div(new[i], float(k))
            out = []
            for i in range(n):
                s, hp = 0.0, 1.0
                for k in range(1, p + 1):
                    hp = hp * h
                    s = s + a[i][k] * hp
                out.append(s)
            return out
        return rhs, taylor
    def linear(n, q):
        """y' = A y + b(t) with b of degree q, y and t not centred"""
        def A(ctx, i, j): return ctx.f('A%d%d' % (i, j))
        def B(ctx, i, j): return ctx.f('b%d.%d' % (i, j))
        def rhs(ctx, c, t, ys):
            c = int(c)
            s, tp = 0.0, 1.0
            for j in range(q + 1):
                s = s + B(ctx, c, j) * tp
                tp = tp * t
            for j, y in enumerate(ys): s = s + A(ctx, c, j) * y
            return s
        def taylor(ctx, h, p):
            t = ctx.f('0.s.state.time')
            y = [ctx.f('0.s.%s.state.x' % LET[i]) for i in range(n)]
            def bd(i, k):
                s = 0.0
                for j in range(k, q + 1):
                    f = 1
                    for r in range(k): f *= j - r
                    tp = float(f)
                    for _ in range(j - k): tp = tp * t
                    s = s + B(ctx, i, j) * tp
                return s
            out = [0.0] * n
            hp, fact = 1.0, 1.0
            for k in range(1, p + 1):
                new = []
                for i in range(n):
                    s = bd(i, k - 1)
                    for j in range(n): s = s + A(ctx, i, j) * y[j]
                    new.append(s)
                y = new
                hp = hp * h; fact *= k
                for i in range(n): out[i] = out[i] + ctx.div(y[i] * hp, fact)
            return out
        return rhs, taylor
    for m in range(7):
        p = ORDER[m]
        plan = [('scalar, smooth', 1, make(1, p - 1)), ('pair, linear with forcing', 2, linear(2, p - 1))]
        plan.append(('pair, smooth', 2, make(2, min(p - 1, 2) if not big else min(p - 1, 3))))
        if p >= 4: plan.append(('triple, quadratic autonomous', 3, make(3, 1 if not big else 2, auto=True)))
        for nm, n, (rhs, taylor) in plan:
            lay = U[n]
            c = step_scenario(lay, m, 1)
            hn = '0.0.dt' if m < 5 else P + 'state.dt'
            var = hn
            def sp(ctx, lay=lay, taylor=taylor, p=p, hn=hn, n=n):
                tay = {}
                for i, nme in enumerate(lay.fields):
                    def f(cx, i=i, nme=nme):
                        if id(cx) not in tay: tay.clear(); tay[id(cx)] = taylor(cx, cx.f(hn), p)
                        return cx.out('%s.%s.state.x' % (OUT, nme)) - cx.f('0.s.%s.state.x' % nme), tay[id(cx)][i]
                    ctx.ser('state %s up to order %d' % (nme, p), f, hn, p)
            asm = (lambda ctx, hn=hn: [ctx.clt(0.0, ctx.f(hn))]) if m < 5 else \
                (lambda ctx: adaptive_pos(ctx) + [ctx.clt(ctx.f(P + 'state.dt'), ctx.f('0.0.dt')), ctx.clt(ctx.f(P + 'state.dt'), ctx.f(P + 'dt_max'))])
            S.append(Scenario('%s %s' % (ref.METHODS[m], nm), 'h_sys', c, sp, mode='real' if m < 5 else 'lra', user=rhs, assume=asm, draw=draw_o, bounds='one step'))
    return S, ['exact real arithmetic: rounding aside', 'arithmetic on the step size is carried out modulo its power p+1'], \
        'one step of every method for every scalar right-hand side that is a polynomial of degree p-1 around the current point (all smooth ones, as higher terms do not enter up to order p), every pair of degree up to 2 (3 thorough), every linear pair with polynomial forcing of degree p-1'


def draw_o(name, rng):
    if name.endswith('dt'): return rng.choice([0.125, 0.25])
    if name.endswith('dt_max'): return 8.0
    return None


PROPS = {'C27': c27, 'C15': c15, 'C18': c18, 'C21': c21, 'C22': c22, 'C23': c23, 'C24': c24}
