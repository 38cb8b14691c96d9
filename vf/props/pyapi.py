"""C25: what Python sees."""
from .common import *
from ..check import k_kind
from ..host import Scratch
from .texts import TXT, text_cfg
from .. import terms as T
FRESH = {'state.dtemp': 0.0, 'state.q': 0.0, 'state.n_iter': 0, 'state.t_curr': 0.0}
ARGS = dict(ThermalMass=(0, {'c': 'c', 'state.temp': 'temp0', 'state.dtemp': 0.0}),
            ThermalReservoir=(1, {'state.temp': 'temp0', 'state.dtemp': 0.0}),
            Conductance=(2, {'h': 'h', 'state.q': 0.0}))
ADAPT = {'dt_max': 'dt_max', 'max_iter': 'max_iter', 'rtol': 'rtol', 'atol': 'atol', 'state.dt': 'dt_init', 'state.n_iter': 0, 'state.t_curr': 0.0,
         'state.norm_err.some': 0, 'state.norm_err_rel.some': 0}
PARTS = ['m1', 'm2', 'h12', 'm3', 'h23', 't_report']


def c25(tier):
    S = []
    big = tier == 'thorough'
    def below(ctx, a, b, skip=()):
        x = [k[len(a) + 1:] for k in ctx.outs_below(a)]
        y = [k[len(b) + 1:] for k in ctx.outs_below(b)]
        x = [k for k in x if not any(k == s or k.startswith(s + '.') for s in skip)]
        if sorted(x) != sorted(y) or not x: ctx.fail('%s: different layout' % b); return
        for k in x: ctx.eq('%s: %s' % (b, k), ctx.read(ctx.outs[b + '.' + k]), ctx.read(ctx.outs[a + '.' + k]))
    def start(style, cl): return lambda rt, ex: ex.__dict__.update(token_style=style, finite=cl, split=r'(.*\.)?(save|save_states|flag|save\.val|save_states\.val)')
    def add(title, entry, c, spec, style=0, cl='normal', **kw):
        S.append(Scenario(title, entry, c, spec, mode='bits', tol=True, mod='text', setup=start(style, cl), steps=20_000_000, bounds='histories and lists of at most %d' % (9 if big else 3), **kw))

    def holds(want, empty=True):
        def sp(ctx):
            seen = 0
            for k in ctx.outs_below('obj'):
                f = k[4:]
                if f.startswith('history'):
                    if f.endswith('.len'): ctx.eq('empty history: ' + f, ctx.outs[k], 0)
                    continue
                if f == 'state.states.len': ctx.eq('fresh: ' + f, ctx.outs[k], 0); continue
                w = want.get(f)
                if w is None: ctx.fail('unexpected field ' + f); continue
                seen += 1
                if isinstance(w, str): w = ctx.narrow(k_kind(ctx.outs[k]), 'obj.' + w)
                ctx.eq('field ' + f, ctx.outs[k], w)
            ctx.eq('fields', seen, len(want))
        return sp
    for n, (k, want) in ARGS.items(): add('new %s' % n, 'h_pynew', {'make': k}, holds(want), cl=False)
    for sv in (None, 0, 1):
        for ss in (None, 0, 1):
            c = {'make': 3, 'obj.max_iter': 'sym', 'obj.save.some': int(sv is not None), 'obj.save_states.some': int(ss is not None), 'obj.save.val': sv or 0, 'obj.save_states.val': ss or 0}
            add('new AdaptiveSolverConfig, save %s, save_states %s' % (sv, ss), 'h_pynew', c, holds(dict(ADAPT, save=sv or 0, save_states=ss or 0)), cl=False)

    # systems
    def system(how, m):
        def sp(ctx):
            for p in PARTS:
                a = ctx.outs_below('obj.' + p)
                if not a: ctx.fail('no ' + p)
                for k in a: ctx.eq('argument %s: %s' % (p, k[4:]), ctx.outs[k], ctx.narrow(k_kind(ctx.outs[k]), k[4:]))
            ctx.eq('fresh: i', ctx.out('obj.state.i'), 0)
            ctx.eq('fresh: time', ctx.out('obj.state.time'), 0.0)
            for k in ctx.outs_below('obj.history'): ctx.eq('empty history', ctx.outs[k], 0)
            ctx.eq('solver type', ctx.out('obj.solver_type.method'), (m, 5, 6)[how])
            src = ('solver_type.', 'sol.', 'sol.')[how]
            for k in ctx.outs_below('obj.solver_type'):
                f = k[len('obj.solver_type.'):]
                if f == 'method': continue
                if how: f = f[4:] if f.startswith('cfg.') else f
                v = ctx.narrow(k_kind(ctx.outs[k]), src + f)
                ctx.eq('solver ' + f, ctx.read(ctx.outs[k]), v)
            below(ctx, 'obj.solver_type', 'type')
            ctx.eq('type ok', ctx.out('type ok'), 1)
            ctx.eq('conf.some', ctx.out('conf.some'), int((m, 5, 6)[how] >= 5))
            if (m, 5, 6)[how] >= 5: below(ctx, 'obj.solver_type.cfg', 'conf.val')
        return sp
    for k, sn in ((4, 'System3TM'), (5, 'System3TMWithBC')):
        for how, hn in ((0, '__new__'), (1, 'new_rk23_bogacki_shampine'), (2, 'new_rk45_cash_karp')):
            for m in range(7) if how == 0 else (0,):
                for n, some in ((2, 1), (0, 0)) if m in (0, 6) or big else ((1, 1),):
                    c = {'make': k, 'how': how, 'solver_type.method': m, '~.*\\.len': n, '~.*\\.some': some, 't_report.len': 3, '~%s\\..*(save|save_states)' % ('sol' if how else 'solver_type'): 'sym',
                         '~.*\\.(save|save_states)': 0,
                         '~.*\\.(max_iter|n_iter|i)(\\.\\d+)?': 5 + 7 * m}
                    add('%s.%s with %s, histories of %d' % (sn, hn, ref.METHODS[m] if how == 0 else hn[4:8], n), 'h_pynew', c, system(how, m), style=(m + how) % 4)

    # every class
    def getters(skip):
        def sp(ctx): below(ctx, 'is', 'got', skip)
        return sp
    def copies(ctx):
        for x in ('copy', 'deepcopy', 'clone', 'kept'): below(ctx, 'is', x)
    def text(f):
        def sp(ctx):
            ctx.eq(f, ctx.out(f), 1)
            ctx.eq('same ' + f, ctx.out('same ' + f), 1)
            ctx.eq('ok', ctx.out('ok'), 1)
            below(ctx, 'is', 'after')
        return sp
    def refused(ctx):
        ctx.eq('broken JSON refused', ctx.out('bad json'), 0)
        ctx.eq('broken YAML refused', ctx.out('bad yaml'), 0)
    def files(ctx):
        ctx.eq('missing file refused', ctx.out('missing'), 0)
        ctx.eq('saved', ctx.out('saved'), 1)
        ctx.eq('loaded', ctx.out('ok'), 1)
        ctx.eq('one file', ctx.out('fs.files'), 1)
        below(ctx, 'is', 'after')
    for ty, name in TXT.items():
        if ty in (5, 15): continue
        for k, (n, some) in enumerate([(0, 0), (1, 1), (3, 1)] + ([(9, 0)] if big else [])):
            m = 6 - k
            for what, spec in enumerate((getters(('solver_type',)), copies, text('json'), text('yaml'), refused, files)):
                if what > 1 and k != 1 and not big: continue
                if ty not in TXT: continue
                for y in (0, 1) if what == 5 else (0,):
                    c = text_cfg(ty, n, some, m, k % 3)
                    c.update({'what': what, 'yaml': y, 'fs.limit': 1 << 30})
                    kw = dict(host=Scratch()) if what == 5 else {}
                    add('%s: %s%s, histories of %d' % (name, ('getters', 'copies', 'JSON', 'YAML', 'broken text', 'file ' + ('json', 'yaml')[y])[what], '', n), 'h_pyclass', c, spec,
                        style=k, cl=False if what < 2 else 'normal', **kw)
    def same(ctx):
        below(ctx, 'rust', 'py')
    for ty, name in TXT.items():
        if ty in (5, 15): continue
        add('default of %s' % name, 'h_pynew', {'make': 6, 'type': ty}, lambda ctx: (ctx.eq('ok', ctx.out('ok'), 1), same(ctx)), cl=False)
    for n in (0, 1, 2, 3):
        c = {'make': 9, '~.*\\.len': n, '~.*\\.some': 1, '~.*\\.(save|save_states)': 0, '~.*\\.(max_iter|n_iter)(\\.\\d+)?': 3}
        add('dt_mean of %d records' % n, 'h_pynew', c, same, cl=False)
        for ty in (1, 3, 7, 9):
            c = {'make': 10, 'type': ty, '~.*\\.len': n, '~.*\\.some': 1, '~.*\\.(n_iter|i)(\\.\\d+)?': 3}
            add('len of %s of %d rows' % (TXT[ty], n), 'h_pynew', c, lambda ctx, n=n: ctx.eq('len', ctx.out('len.py'), n), cl=False)
    # walking
    for k, sn in ((7, 'System3TM'), (8, 'System3TMWithBC')):
        for m in (0, 4, 6):
            c = {'make': k, 's.solver_type.method': m, 's.t_report.len': 2 if m < 5 else 1, 's.state.i': 0, 's.solver_type.dt': 8.0, '~.*\\.(save|save_states)': 0, '~.*\\.max_iter': 1,
                 's.state.time': 0.0, 's.t_report.0': 0.25, 's.t_report.1': 0.5, 's.solver_type.cfg.dt_max': 8.0, 's.solver_type.cfg.state.dt': 8.0,
                 's.solver_type.cfg.state.n_iter': 0}
            add('walk of %s with %s' % (sn, ref.METHODS[m]), 'h_pynew', c, same, cl=False, traces=1)
    return S, ['numbers in texts as in C19'], 'every argument value; every class exposed to Python; histories of up to %d rows' % (9 if big else 3)

PROPS = dict(C25=c25)
