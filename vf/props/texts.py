"""C19, C20: text encodings and files."""
import re
from .common import *
from ..check import k_kind
from .misc import BIN
from .. import terms as T
from .stepping import is_special, draw_adaptive
TXT = {k: v for k, v in BIN.items() if k < 15}
TXT[15] = 'UsrMix'
INTS = [{'i': 3, 'k': 7, 'n': 2, 'max_iter': 5, 'n_iter': 1}, {'i': 0, 'k': 0, 'n': 0, 'max_iter': 0, 'n_iter': 0},
        {'i': (1 << 64) - 1, 'k': (1 << 32) - 1, 'n': 1 << 40, 'max_iter': 255, 'n_iter': 255}]


def text_cfg(ty, n, some, m, ints, pre=''):
    c = {pre + 'type': ty, '~.*\\.len': n, '~.*\\.some': some, '~.*\\.method': m, pre + 's.method': m}
    for f, v in INTS[ints].items(): c['~.*\\.%s(\\.\\d+)?' % f] = v
    for f in ('save', 'save_states', 'flag'): c['~.*\\.%s' % f] = 'sym'
    return c


def c19(tier):
    S = []
    big = tier == 'thorough'
    def trip(ctx):
        ctx.eq('decodes', ctx.out('ok'), 1)
        if not ctx.has('ok') or T.is_t(ctx.out('ok')) or ctx.out('ok') != 1: return
        a = [k[7:] for k in ctx.outs_below('before')]
        b = [k[6:] for k in ctx.outs_below('after')]
        if sorted(a) != sorted(b): ctx.fail('different layout'); return
        if not a: ctx.fail('nothing compared')
        for k in a: ctx.eq('round trip: ' + k, ctx.outs['before.' + k], ctx.read(ctx.outs['after.' + k]))
    def start(style, what):
        def f(rt, ex): ex.token_style, ex.finite, ex.split = style, what, r'.*\.(save|save_states|flag)'
        return f
    for ty, name in TXT.items():
        small = ty in (0, 6, 8)
        for fmt in (0, 1):
            hists = [(0, 0), (1, 1), (2, 0)] + ([(3, 1), (9, 1)] if big else [])
            ms = range(7) if ty in (5, 13) else (4, 5, 6) if ty in (14, 15) else (4,)
            for m in ms:
                for k, (n, some) in enumerate(hists if m in (4, 6) or big else hists[:2]):
                    # the numbers of one run are of one class, in the smallest types of any
                    for cl in (True,) if small else ('normal', 'power', 'subnormal', 'zero') if big or (m, k) in ((4, 0), (4, 1)) else ('normal',):
                        c = text_cfg(ty, n, some, m, k % 3)
                        c['what'] = fmt
                        S.append(Scenario('%s %s%s of %d rows, options %s%s' % (('json', 'yaml')[fmt], name, ' with ' + ref.METHODS[m] if len(list(ms)) > 1 else '', n, 'set' if some else 'unset',
                                          '' if cl is True else ', numbers ' + cl),
                                          'h_text', c, trip, mode='bits', tol=True, mod='text', setup=start((k + fmt + m) % 4, cl), steps=20_000_000,
                                          bounds='histories and lists of %d' % n, traces=2 if cl in (True, 'normal') else 0))
    # running leaves nothing that has no text
    def finite(last):
        def sp(ctx):
            fs = [k for k in ctx.outs_below(last) if k_kind(ctx.outs[k]) == 'f']
            if not any('.cfg.' in k for k in fs): ctx.fail('no solver state')
            for k in fs: ctx.ok('finite: ' + k[len(last) + 1:], not is_special(ctx.outs[k]))
        return sp
    P = '0.' + CFG
    for m in (5, 6):
        for lay, mi in [(U[1], 1), (U[2], 1), (U[1], 2), (T3, 1)] + ([(U[2], 2), (U[3], 1), (U[1], 3)] if big else []):
            for how in ('a step', 'a step and its record'):
                c = ops(lay.sid, dict(op=1, m=m), dict(op=4 if 'record' in how else 99), dict(op=0))
                c.update(adaptive_cfg(m, mi, 1, 1))
                asm = lambda ctx, lay=lay: [ctx.clt(0.0, ctx.f(x)) for x in cfg_positive() + ['0.0.dt']] + caps(ctx, lay)
                S.append(Scenario('finite after %s: %s %s max_iter %d' % (how, ref.METHODS[m], lay.name, mi), 'h_sys', c, finite('0.2.dump'), assume=asm, draw=draw_adaptive, bounds='one step of at most %d trials' % mi))
    return S, ['the text of one finite number reads back as that number up to the precision of the text'], \
        'every type; histories and lists of 0 to 2 rows (3, 9 thorough); integers at their extremes and one in between'

OLD = b'%s' % (b'{"what was there before": 1}\n' * 30)
SAVED = b'{"time":2.5,"i":4}'


def suffix(ctx, nb):
    """'json', 'yaml' or None: the suffix that a file name's bytes end in"""
    for f in (b'json', b'yaml'):
        w = b'.' + f
        if len(nb) > len(w) and all(truth(ctx, ctx_eq(ctx, a, b)) for a, b in zip(nb[-len(w):], w)): return f.decode()


def ctx_eq(ctx, a, b): return T.eq(a, b) if T.is_t(a) or T.is_t(b) else a == b
def truth(ctx, c): return bool(c)


def c20(tier):
    S = []
    big = tier == 'thorough'
    from ..host import Scratch
    def name_of(ctx):
        n = ctx.u('name.len')
        return [T.trunc(v, 8) if T.is_t(v) else v & 255 for v in (ctx.u('name.%d' % i) for i in range(n))]
    def content(ctx, k):
        if ctx.has('%d.absent' % k): return None
        return [ctx.out('%d.%d' % (k, i)) for i in range(ctx.out('%d.len' % k))]
    def held(ctx, label, got, want):
        if got is None: ctx.fail(label + ': no file'); return
        ctx.eq(label + ': length', len(got), len(want))
        if len(got) == len(want):
            for i, (a, b) in enumerate(zip(got, want)): ctx.eq('%s: byte %d' % (label, i), a, b)
    def values(ctx, label, a, b):
        x = [k[len(a) + 1:] for k in ctx.outs_below(a)]
        y = [k[len(b) + 1:] for k in ctx.outs_below(b)]
        if sorted(x) != sorted(y) or not x: ctx.fail(label + ': different layout'); return
        for k in x: ctx.eq('%s: %s' % (label, k), ctx.outs[a + '.' + k], ctx.read(ctx.outs[b + '.' + k]))

    def cfg(ty, name, seq, rows, some, ints=0, limit=1 << 30):
        """name: bytes, with None for a symbolic byte"""
        c = text_cfg(ty, rows, some, 4, ints)
        c.update({'name.len': len(name), 'n_ops': len(seq), 'fs.limit': limit})
        for i, b in enumerate(name):
            if b is not None: c['name.%d' % i] = b
        for i, o in enumerate(seq): c['%d.op' % i] = o
        return c
    def alias(kind, name):
        m = re.match(r'[1-9]\d*\.s\.(.*)', name)
        return '0.s.' + m.group(1) if m else None
    def names(name):
        def asm(ctx):
            r = []
            for i, b in enumerate(name):
                if b is None:
                    v = ctx.u('name.%d' % i)
                    if T.is_t(v): r += [T.ult(v, 128), T.ult(0, v), T.bnot1(T.eq(v, 47))]
                    else: r += [0 < v < 128 and v != 47]
            return r
        return asm
    def drawn(name):
        def f(n, rng):
            m = re.fullmatch(r'name\.(\d+)', n)
            if m: return b'ab.cd.json'[int(m.group(1)) - len(name):][0] if rng.random() < 0.9 else rng.randint(1, 46)
        return f
    def start(style, cl): return lambda rt, ex: ex.__dict__.update(token_style=style, finite=cl, split=r'.*\.(save|save_states|flag)')
    def add(title, c, spec, name, init=None, style=0, cl='normal', **kw):
        S.append(Scenario(title, 'h_file', c, spec, mode='bits', tol=True, mod='text', alias=alias, assume=names(name), draw=drawn(name),
                          setup=start(style, cl), host=Scratch(init), steps=20_000_000, max_paths=20000, bounds='file names of %d bytes' % len(name), **kw))

    def saving(init, gone=False):
        def sp(ctx):
            f = suffix(ctx, name_of(ctx))
            before = 0 if init is None else 1
            if f is None or gone or init == 'dir':
                ctx.eq('refused', ctx.out('0.ok'), 0)
                ctx.eq('files', ctx.out('fs.files'), before)
                if init is None or init == 'dir': ctx.ok('no file', content(ctx, 3) is None)
                else: held(ctx, 'file left as it was', content(ctx, 3), init)
                return
            ctx.eq('saved', ctx.out('0.ok'), 1)
            ctx.eq('files', ctx.out('fs.files'), 1)
            held(ctx, 'content', content(ctx, 3), content(ctx, 1 if f == 'json' else 2))
            ctx.eq('loaded', ctx.out('4.ok'), 1)
            if ctx.outs_below('4.after'): values(ctx, 'loaded', '0.before', '4.after')
        return sp
    SEQ = [0, 2, 3, 4, 1]
    lens = range(0, 9 if big else 8)
    for n in lens:
        for init, what in ((None, 'nothing there'), (OLD, 'an older file there'), ('dir', 'a directory there')):
            if n == 0 and init: continue
            nm = [None] * n
            # '.' and '..' are there already
            add('save SystemState to a name of %d bytes, %s' % (n, what), cfg(0, nm, SEQ, 0, 0), saving(init), nm, init)
    for n in (2, 6, 7):
        nm = [100, 47] + [None] * n
        add('save to a name of %d bytes in a directory that is not there' % n, cfg(0, nm, SEQ, 0, 0), saving(None, True), nm)
    for ty, tn in ((2, 'SolverState'), (12, 'Conductance')):
        for k, nm in enumerate((b'a.json', b'b.x.yaml', b'a.JSON', b'a.yml', b'json', b'yaml.', b'.yaml.json')):
            for init in (None, OLD):
                add('save %s to %s, %s' % (tn, nm.decode(), 'an older file there' if init else 'nothing there'), cfg(ty, list(nm), SEQ, k % 3, k % 2, k % 3),
                    saving(init), list(nm), init, style=k % 4, cl=('normal', 'power', 'zero', 'subnormal')[k % 4])

    def loading(init):
        def sp(ctx):
            f = suffix(ctx, name_of(ctx))
            ctx.eq('files', ctx.out('fs.files'), 0 if init is None else 1)
            if f is None or init is None or init == 'dir': ctx.eq('refused', ctx.out('0.ok'), 0); return
            ctx.eq('loaded', ctx.out('0.ok'), 1)
            ctx.eq('value: time', ctx.out('0.after.time'), 2.5)
            ctx.eq('value: i', ctx.out('0.after.i'), 4)
        return sp
    for n in lens:
        for init, what in ((None, 'nothing there'), (SAVED, 'a saved file there'), ('dir', 'a directory there')):
            if n == 0 and init: continue
            nm = [None] * n
            add('load from a name of %d bytes, %s' % (n, what), cfg(0, nm, [1], 0, 0), loading(init), nm, init)

    def failing(f):
        def sp(ctx):
            want = content(ctx, 1)
            l = ctx.u('fs.limit')
            if truth(ctx, T.ult(l, len(want)) if T.is_t(l) else l < len(want)): ctx.eq('failure reported', ctx.out('0.ok'), 0)
            else:
                ctx.eq('saved', ctx.out('0.ok'), 1)
                held(ctx, 'content', content(ctx, 2), want)
        return sp
    for ty, tn in ((0, 'SystemState'), (2, 'SolverState'), (12, 'Conductance')):
        for f, op in (('json', 2), ('yaml', 3)):
            for rows, some in ((0, 0), (2, 1)):
                nm = list(b'a.' + f.encode())
                for init in (None, OLD):
                    c = cfg(ty, nm, [0, op, 4], rows, some, 0)
                    del c['fs.limit']
                    add('save %s as %s with %d rows, writing fails at any point, %s' % (tn, f, rows, 'an older file there' if init else 'nothing there'), c, failing(f), nm, init)
    return S, ['files are one directory of regular files; writing fails only at a size limit', 'the text of one finite number as in C19'], \
        'file names of up to %d arbitrary ASCII bytes without / (and in a missing directory); any point of write failure; SystemState, SolverState, Conductance' % (lens[-1])


PROPS = dict(C19=c19, C20=c20)
