"""C24: copies of data objects and transfers between them, on the host and (with a stand-in for cupy) on a device."""
import copy
import random
import numpy as np
import core
from c25 import F, CLASSES

NORMALISED = ('ConvolutionKernel', 'GaussianConvolutionKernel')


def arrays(o):
    from specula import array_types
    from specula.base_data_obj import get_properties
    pp = get_properties(type(o))
    return {n: getattr(o, n) for n in dir(o) if n not in pp and not n.startswith('__') and type(getattr(o, n)) in array_types}


def flat(v):
    a = np.array(v).view(np.ndarray)
    return (a.shape, a.astype(complex if a.dtype.kind == 'c' else float).tobytes())


def content(o):
    c = tuple((n, flat(v)) for n, v in sorted(arrays(o).items()))
    if hasattr(o, 'value') and 'value' not in arrays(o):
        c += (('value', None if o.value is None else repr(float(o.value))),)
    return c


def duplicate(o):
    import sys
    return copy.deepcopy(o, {id(m): m for m in list(sys.modules.values())})


def put(rng, o, re, source):
    """other contents for an array of o, in place or in a new array"""
    a = arrays(o)
    if not a:
        if hasattr(o, 'value') and isinstance(o.value, float):
            o.value = o.dtype(rng.random())
        return
    n = rng.choice(sorted(a))
    v = a[n]
    if v.dtype.kind not in 'fiucb' or v.size == 0:
        return
    s = v.shape
    if re and rng.random() < .3 and v.ndim and (len(a) == 1 or not source):
        s = tuple(x + rng.randint(0, 2) for x in s)
    g = np.random.default_rng(rng.randrange(1 << 30))
    new = (g.standard_normal(s) * 50).astype(v.dtype) if v.dtype.kind in 'fc' else g.integers(0, 2 if v.dtype.kind == 'b' else 100, s).astype(v.dtype)
    if re or not v.flags.writeable:
        setattr(o, n, o.xp.array(new))
    else:
        v[...] = o.xp.array(new)


def given_value(rng, o, cls, gpu):
    """a value for set_value, or None if this object takes none"""
    if not hasattr(o, 'set_value') or cls in ('Source', 'LaserLaunchTelescope', 'Lenslet', 'IirFilterData', 'SsrFilterData'):
        return None
    g = np.random.default_rng(rng.randrange(1 << 30))
    old = o.get_value()
    if cls == 'BaseValue' and (old is None or np.isscalar(old)):
        if old is not None or rng.random() < .4:
            return float(g.standard_normal())
        return g.standard_normal((2, 2))
    if old is None:
        return None
    v = np.array(old).view(np.ndarray)
    if v.dtype.kind not in 'fiucb':
        return None
    new = g.integers(0, 2 if v.dtype.kind == 'b' else 100, v.shape).astype(v.dtype) if v.dtype.kind != 'f' else g.standard_normal(v.shape)
    if cls in NORMALISED:
        new = np.abs(new) + 1
    if gpu and rng.random() < .3:
        import cupy
        new = cupy.array(new)
    return new


def one(tid, rng, hist=None, gpu=False):
    cls = CLASSES[rng.randrange(len(CLASSES))]
    f = F(rng)
    ids = {}
    num = lambda x: ids.setdefault(x, len(ids) + 1)
    d = dict(id=tid, cls=cls)
    ev = []
    note = ''
    try:
        with core.quiet():
            import specula
            from specula.connections import InputValue
            src = getattr(f, cls)()[0]
            dev = [rng.choice([-1, 0]) if gpu else -1 for _ in range(3)]
            if dev[0] == 0:
                src = src.copyTo(0)
            src.generation_time = rng.randint(0, 99)
            objs, inputs = [src], {}
            for k in (1, 2):
                if dev[k] != dev[0]:
                    if rng.random() < .5:
                        inputs[k] = InputValue(type=type(src))
                        inputs[k].set(src)
                        o = inputs[k].get(dev[k])
                    else:
                        o = src.copyTo(dev[k])
                else:
                    o = duplicate(src)
                objs.append(o)
            d['gpu'], d['dev'] = gpu, dev
            cont = lambda: [num(content(o)) for o in objs]
            times = lambda: [int(o.generation_time) for o in objs]

            def shared(given):
                a = [list(arrays(o).values()) for o in objs] + [[given] if isinstance(given, np.ndarray) else []]
                return any(np.shares_memory(x, y) for p in range(4) for q in range(p) for x in a[p] for y in a[q])

            def placed():
                want = [specula.cp.ndarray if v == 0 else np.ndarray for v in dev]
                return all(type(v) is w for o, w in zip(objs, want) for v in arrays(o).values())

            d['c'], d['t'] = cont(), times()
            ev.append(dict(op='poke', o=1, v=0, now=d['c'], times=d['t'], shared=shared(None), placed=placed()))
            given = None
            if hist is None:
                hist = []
                for _ in range(rng.randint(4, 10)):
                    u = rng.random()
                    o = rng.randint(2, 3)
                    hist.append(dict(op='copy', o=o, f=rng.randint(1, o - 1) if rng.random() < .5 else 1, re=rng.random() < .2) if u < .4 else
                                dict(op='set') if u < .6 else dict(op='poke') if u < .7 else dict(op='stamp', o=rng.randint(1, 3)) if u < .8 else
                                dict(op='write', o=rng.randint(1, 3), re=rng.random() < .4))
            for h in hist:
                e = dict(op=h['op'], o=h.get('o', 1), f=h.get('f', 0))
                k = e['o'] - 1
                if h['op'] == 'set':
                    v = given_value(rng, src, cls, gpu)
                    if v is None:
                        e['op'] = 'write'
                        put(rng, src, False, True)
                    else:
                        src.set_value(v)
                        given = v
                        e['got'] = num(flat(src.get_value()))
                        e['want'] = 0 if cls in NORMALISED else num(flat(np.array(v).astype(np.array(src.get_value()).dtype)))
                elif h['op'] == 'poke':
                    if isinstance(given, np.ndarray):
                        given[...] = ~given if given.dtype.kind == 'b' else given + 1
                elif h['op'] == 'stamp':
                    objs[k].generation_time = rng.randint(100, 10 ** 6)
                elif h['op'] == 'write':
                    put(rng, objs[k], h['re'], k == 0)
                elif k in inputs and h['f'] == 1 and not h['re']:
                    if inputs[k].get(dev[k]) is not objs[k]:
                        raise core.CodeFailure('an input on another device gives another object')
                else:
                    objs[e['f'] - 1].transferDataTo(objs[k], **(dict(force_reallocation=True) if h['re'] else {}))
                e['now'], e['times'] = cont(), times()
                e['v'] = e['times'][k] if h['op'] == 'stamp' else e['now'][k]
                e['shared'], e['placed'] = shared(given), placed()
                ev.append(e)
    except core.CodeFailure as x:
        ev.append(dict(op='failure', err=str(x)))
        note = str(x)
    except Exception as x:
        note = core.blame(x) or ''
        if not note:
            raise
        ev.append(dict(op='failure', err=note))
    d.setdefault('c', [0]), d.setdefault('t', [0])
    d['ev'] = ev
    d['replay'] = dict(note=note)
    return d


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng) for k in range(count)]


def gen_gpu(seed, count, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng, gpu=True) for k in range(count)]


def replay(seed, behs, prefix, gpu):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng, b, gpu) for k, b in enumerate(behs)]


def check(ctx):
    beh = ctx.model_check('MCCopies')
    ctx.rng.shuffle(beh)
    beh = beh[:ctx.n(1200, 20000)]
    traces = []
    for g in (False, True):
        part = beh[int(g)::2]
        traces += [t for r in core.jobs('c24', 'replay', [[ctx.seed + k, part[k::6], f'm{int(g)}{k}.', g] for k in range(6)], gpu=g) for t in r]
    traces += core.spread(ctx, 'c24', 'gen', ctx.n(900, 15000), prefix='r')
    traces += core.spread(ctx, 'c24', 'gen_gpu', ctx.n(900, 15000), prefix='g', gpu=True)
    ctx.need(len({(t['cls'], t.get('gpu')) for t in traces}) > 40, 'data classes on both devices')
    ctx.need(sum(len(t['ev']) for t in traces) > 8000, 'operations')
    ctx.validate('CopiesTrace', traces)
    ctx.assumptions.append('the device is a stand-in for cupy (arrays of their own type in ordinary memory)')
