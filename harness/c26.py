"""C26: routing and arithmetic objects through random histories."""
import random
import numpy as np
import core
from core import vec

DT = 1000000
NONE = 99


def ints(rng, n, k=9):
    return [rng.randint(-k, k) for _ in range(n)]


def drive(tid, rng, d, build, ins, fill, outs, sc, steps=None):
    """ins: list of (input name, [sizes]); fill(k) -> list of values per flat input."""
    from specula.base_value import BaseValue
    ev = []
    names, src = [], []
    try:
        with core.quiet():
            o = build()
            k = 0
            for name, sizes in ins:
                vs = [BaseValue(value=np.zeros(n)) for n in (sizes if isinstance(sizes, list) else [sizes])]
                src += vs
                o.inputs[name].set(vs if isinstance(sizes, list) else vs[0])
            if d['kind'] == 'two' and d['op'] == 'div':
                for s in src:
                    s.value = np.ones_like(s.value)
            get = lambda: [vec(o.outputs[n].value, sc) for n in outs]
            o.setup()
            cur = None
            late = steps is None and rng.random() < .3
            for j in range(steps or rng.randint(1, 6)):
                now = j * DT
                fresh = [rng.random() < .7 for _ in src] if j else [True] * len(src)
                new = fill()
                cur = new if cur is None else [a if f else b for a, b, f in zip(new, cur, fresh)]
                lead = next((v for v, f in zip(src, fresh) if f), None)
                for v, a, f in zip(src, cur, fresh):
                    if f:
                        if rng.random() < .5:
                            v.value[:] = a
                        else:
                            v.value = np.array(a, dtype=float)
                        # refreshed in this step or, as seen by a ':-1' input, at the end of the previous one
                        v.generation_time = now - DT if late and v is not lead else now
                if j:
                    ev.append(dict(k='look', out=get()))
                if o.check_ready(now):
                    o.trigger()
                    o.post_trigger()
                    ev.append(dict(k='run', x=[list(c) for c in cur], after=[vec(v.value) for v in src], out=get(),
                                   t=[int(o.outputs[n].generation_time) for n in outs], now=now))
                elif any(fresh):
                    ev.append(dict(err='did not run'))
                else:
                    ev.append(dict(k='look', out=get()))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
    return dict(id=tid, ev=ev, **d)


def py(v):
    return [None if x == NONE else x for x in v]


def pyslice(v):
    a = py(v)
    return a[:2] if a[2] is None else a


def selector(rng, n, slices):
    if slices:
        while True:
            v = [rng.choice([NONE, *range(-n - 1, n + 2)]) for _ in range(2)] + [rng.choice([NONE, NONE, 1, 2, -1, 3])]
            p = list(range(n))[slice(*py(v))]
            if p:
                return dict(k='slice', v=v), len(p)
    k = rng.randint(1, n)
    return dict(k='idx', v=[rng.randrange(-n, n) for _ in range(k)]), k


def slicer(tid, rng, given=None):
    from specula.processing_objects.base_slicer import BaseSlicer
    n = given['n'] if given else rng.randint(1, 8)
    if given:
        sel, kw = dict(k='slice', v=given['v']), dict(slice_args=pyslice(given['v']))
    else:
        how = rng.choice(['idx', 'slice', 'int', 'all'])
        if how == 'all':
            sel, kw = dict(k='all'), {}
        elif how == 'int':
            sel = dict(k='idx', v=[rng.randrange(-n, n)])
            kw = dict(indices=sel['v'][0])
        else:
            sel, _ = selector(rng, n, how == 'slice')
            kw = dict(indices=sel['v']) if how == 'idx' else dict(slice_args=pyslice(sel['v']))
    return drive(tid, rng, dict(kind='slice', sel=sel), lambda: BaseSlicer(**kw), [('in_value', n)], lambda: [ints(rng, n)], ['out_value'], 1)


def inserter(tid, rng, given=None):
    from specula.processing_objects.base_inserter import BaseInserter
    size = given['n'] if given else rng.randint(1, 9)
    n = rng.randint(1, 8)
    slices = bool(given) or rng.random() < .5
    pairs = []
    if given:
        k = len(range(size)[slice(*py(given['v']))])
        n = max(1, k)
        src = dict(k='slice', v=[0, k, NONE])
        pairs = [[src, dict(k='slice', v=given['v'])]]
        slices = True
    while not pairs:
        for _ in range(rng.randint(1, 3)):
            for _ in range(400):
                dst, kd = selector(rng, size, slices)
                s, ks = selector(rng, n, slices)
                pos = [x % size for x in dst['v']] if not slices else [1]
                if kd == ks and (slices or len(set(pos)) == len(pos)):
                    pairs.append([s, dst])
                    break
    val = [[pyslice(x['v']) if slices else x['v'] for x in p] for p in pairs]
    arg = val[0] if len(val) == 1 and rng.random() < .6 else val
    kw = dict(slice_args=arg) if slices else dict(indices=arg)
    return drive(tid, rng, dict(kind='insert', pairs=pairs, size=size, replay=str(kw)), lambda: BaseInserter(size, **kw), [('in_value', n)], lambda: [ints(rng, n)], ['out_value'], 1)


def const(tid, rng):
    from specula.processing_objects.base_operation import BaseOperation
    n = rng.randint(1, 5)
    op = rng.choice(['mul', 'div', 'sum', 'sub', 'max', 'min'])
    k = n if rng.random() < .4 and op not in ('max', 'min') and n > 1 else 1
    c = [rng.choice([1, 2, 4, 8, -2, -1]) for _ in range(k)] if op == 'div' else ints(rng, k)
    v = float(c[0]) if k == 1 else rng.choice([list, lambda x: np.array(x, dtype=float)])(c)
    if k == 1 and rng.random() < .4:
        v = c[0]
    two = rng.random() < .2       # a connected second value must not matter
    ins = [('in_value1', n)] + ([('in_value2', n)] if two else [])
    return drive(tid, rng, dict(kind='const', op=op, c=c), lambda: BaseOperation(**{'constant_' + op: v}), ins,
                 lambda: [ints(rng, n)] * len(ins), ['out_value'], 8)


def two(tid, rng):
    from specula.processing_objects.base_operation import BaseOperation
    n = rng.randint(1, 6)
    op = rng.choice(['mul', 'div', 'sum', 'sub'])
    how = rng.choice(['same', 'same', 'short', 'remap'])
    m, kw, mp = n, {op: True}, []
    if how == 'short':
        m = rng.randint(1, n)
        kw['value2_is_shorter'] = True
    elif how == 'remap':
        m = rng.randint(1, n)
        mp = rng.sample(range(n), m)
        kw['value2_remap'] = mp
    elif rng.random() < .15:
        m = 1
    y = (lambda: [rng.choice([1, 2, 4, 8, -1, -4]) for _ in range(m)]) if op == 'div' else (lambda: ints(rng, m))
    return drive(tid, rng, dict(kind='two', op=op, how=how, map=mp), lambda: BaseOperation(**kw), [('in_value1', n), ('in_value2', m)],
                 lambda: [ints(rng, n), y()], ['out_value'], 8)


def concat(tid, rng):
    from specula.processing_objects.base_operation import BaseOperation
    n, m = rng.randint(1, 5), rng.randint(1, 5)
    return drive(tid, rng, dict(kind='concat'), lambda: BaseOperation(concat=True), [('in_value1', n), ('in_value2', m)],
                 lambda: [ints(rng, n), ints(rng, m)], ['out_value'], 1)


def mirror(tid, rng):
    from specula.processing_objects.mirror_commands_combinator import MirrorCommandsCombinator
    from specula.data_objects.recmat import Recmat
    dl = [rng.randint(1, 3), 0, rng.randint(1, 3)]
    od = [dl[0] + 1 + rng.randint(max(0, dl[2] - 1), dl[2] + 3), rng.randint(1, 4), dl[2] + rng.randint(0, 3)]
    p = rng.random() < .8
    np_ = rng.randint(1, 3)
    A = [ints(rng, np_) for _ in range(od[0] + rng.randint(0, 2))]
    kv = ints(rng, rng.choice([1, dl[2]]))
    ho = sum(od) - sum(dl) - 1
    d = dict(kind='mirror', dl=dl, od=od, kv=kv, A=A[:od[0]], p=p)
    b = lambda: MirrorCommandsCombinator(np.array(kv, dtype=float), Recmat(np.array(A, dtype=float)), dims_LO=dl, dims_P=np_ if p else 0, dims_F=1, out_dims=od)
    return drive(tid, rng, d, b, [('in_commandsLO', sum(dl)), ('in_commandsF', 1), ('in_commandsHO', ho), ('in_commandsP', np_)],
                 lambda: [ints(rng, sum(dl)), ints(rng, 1), ints(rng, ho), ints(rng, np_)],
                 ['out_result_commands1', 'out_result_commands2', 'out_result_commands3'], 1)


def linear(tid, rng):
    import specula.processing_objects.linear_combination as lc
    from libobjs import sp
    nf, nl = rng.random() < .5, rng.random() < .5
    psi = rng.choice([NONE, NONE, 5, 6, 8])
    n = (psi + 3 if psi != NONE else 5) + rng.randint(0, 3)
    m = 5 if psi != NONE or rng.random() < .5 else 2
    l = rng.randint(1, 4)
    coeff = [0, 0, 0]
    kw = {}
    if psi != NONE and rng.random() < .7 and hasattr(lc, 'platescale_coeff'):
        coeff = ints(rng, 3)
        kw = dict(dm1=object(), dm3=object())
    sizes = [n] + ([] if nf else [rng.randint(1, 2)]) + ([] if nl else [l]) + [m]

    def build():
        old = getattr(lc, 'platescale_coeff', None)
        lc.platescale_coeff = lambda *a, **k: [np.array(coeff, dtype=float)]
        try:
            return lc.LinearCombination(sp(), no_focus=nf, no_lift=nl, plate_scale_idx=None if psi == NONE else psi, **kw)
        finally:
            lc.platescale_coeff = old
    return drive(tid, rng, dict(kind='linear', nf=nf, nl=nl, psi=psi, coeff=coeff), build, [('in_vectors_list', sizes)],
                 lambda: [ints(rng, k) for k in sizes], ['out_vector'], 1)


def conf(tid, rng):
    from specula.base_value import BaseValue
    from specula.processing_objects.linear_combination import LinearCombination
    from specula.processing_objects.base_slicer import BaseSlicer
    from specula.processing_objects.base_inserter import BaseInserter
    from specula.processing_objects.base_operation import BaseOperation
    from libobjs import sp
    ev = []
    for _ in range(10):
        w = rng.choice(['linear', 'linear', 'slice', 'insert', 'op'])
        a, b, k = rng.random() < .5, rng.random() < .5, rng.randint(1, 5)
        if w == 'linear':
            ok = k == 4 - a - b

            def f():
                o = LinearCombination(sp(), no_focus=a, no_lift=b)
                o.inputs['in_vectors_list'].set([BaseValue(value=np.zeros(5)) for _ in range(k)])
                o.setup()
        elif w == 'slice':
            ok = not (a and b)

            def f():
                BaseSlicer(indices=[0] if a else None, slice_args=[0, 1] if b else None)
        elif w == 'insert':
            ok = a != b

            def f():
                BaseInserter(3, indices=[[0], [1]] if a else None, slice_args=[[0, 1], [1, 2]] if b else None)
        else:
            op = rng.choice(['mul', 'div', 'sum', 'sub', 'concat'])
            ok = a

            def f():
                o = BaseOperation(**{op: True})
                o.inputs['in_value1'].set(BaseValue(value=np.ones(2)))
                if a:
                    o.inputs['in_value2'].set(BaseValue(value=np.ones(2)))
                o.setup()
        try:
            with core.quiet():
                f()
            r = False
        except ValueError:
            r = True
        ev.append(dict(k='conf', ok=ok, refused=r))
    return dict(id=tid, kind='conf', ev=ev)


def gen(seed, count, prefix):
    rng = random.Random(seed)
    f = [slicer, inserter, const, two, mirror, linear, inserter, slicer, two, concat]
    return [conf(f'{prefix}{k}', rng) if k % 30 == 29 else f[k % 10](f'{prefix}{k}', rng) for k in range(count)]


def replay(seed, items, prefix):
    rng = random.Random(seed)
    return [(slicer if k % 2 else inserter)(f'{prefix}{k}', rng, b) for k, b in enumerate(items)]


def check(ctx):
    beh = ctx.model_check('MCRouting')
    ctx.rng.shuffle(beh)
    beh = beh[:ctx.n(1500, 5000)]
    parts = [beh[k::6] for k in range(6)]
    traces = [t for r in core.jobs('c26', 'replay', [[ctx.rng.randrange(2**31), p, f'm{k}.'] for k, p in enumerate(parts)]) for t in r]
    traces += core.spread(ctx, 'c26', 'gen', ctx.n(3000, 40000), prefix='r')
    traces += core.spread(ctx, 'c26', 'gen', ctx.n(400, 6000), parts=2, precision=1, prefix='s')
    ctx.validate('RoutingTrace', traces)
    ctx.assumptions.append('one declared operation per object; fixed input sizes; integer data')
