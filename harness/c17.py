"""C17: multirate reconstruction and complementary fusion, step by step."""
import random
from fractions import Fraction
import numpy as np
import core
from core import vec

DT = 1000000


def ints(rng, n, k=9):
    return [rng.randint(-k, k) for _ in range(n)]


def slopes(n):
    from specula.data_objects.slopes import Slopes
    return Slopes(n)


def refusal(f):
    """Was the configuration refused (in constructor or setup)?"""
    try:
        with core.quiet():
            f()
        return False
    except ValueError:
        return True


def rec(tid, rng, hist=None):
    """hist: freshness per step (from TLC), or None for a random one."""
    from specula.processing_objects.modalrec_multirate import ModalrecMultirate
    from specula.data_objects.recmat import Recmat
    ns = len(hist[0]) if hist else rng.randint(1, 4)
    sizes = [rng.choice([2, 4, 6]) for _ in range(ns)]
    nm = rng.randint(1, 4)
    allm = [[bool(k >> j & 1) for j in range(ns)] for k in range(1, 2 ** ns)]
    rng.shuffle(allm)
    masks = allm[:rng.randint(1, len(allm))]
    mats = [[ints(rng, sum(sizes)) for _ in range(nm)] for _ in masks]
    steps = len(hist) if hist else rng.randint(1, 10)
    with core.quiet():
        src = [slopes(n) for n in sizes]
        o = ModalrecMultirate([Recmat(np.array(m, dtype=float)) for m in mats], masks, nm)
    o.inputs['in_slopes_list'].set(src)
    cur = [[0] * n for n in sizes]
    ev = []
    try:
        with core.quiet():
            o.setup()
            for j in range(steps):
                now = j * DT
                if hist:
                    fresh = list(hist[j])
                elif rng.random() < .85:
                    fresh = list(rng.choice(masks))
                else:
                    fresh = [rng.random() < .5 for _ in sizes]
                for k, s in enumerate(src):
                    if fresh[k]:
                        cur[k] = ints(rng, sizes[k])
                        if rng.random() < .5:
                            s.slopes[:] = cur[k]
                        else:
                            s.slopes = np.array(cur[k], dtype=s.slopes.dtype)
                        s.generation_time = now
                fail = False
                try:
                    if o.check_ready(now):
                        o.trigger()
                        o.post_trigger()
                except KeyError:
                    fail = True
                outs = [o.outputs[f'out_modes_{k}'] for k in range(ns)]
                ev.append(dict(fresh=fresh, slopes=[list(c) for c in cur], fail=fail, out=[vec(x.value) for x in outs],
                               ot=[int(x.generation_time) for x in outs], now=now))
                if fail:
                    break
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
    return dict(id=tid, kind='rec', masks=masks, mats=mats, sizes=sizes, nm=nm, ev=ev)


def cf(tid, rng, N=None, hist=None):
    from libobjs import sp
    from specula.base_value import BaseValue
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.multirate_complementary_filter import MultirateComplementaryFilter
    N = N or [rng.choice([1, 2, 2, 3, 4, 5]) for _ in range(rng.randint(1, 3))]
    n = rng.randint(1, 3)
    g = rng.choice([0, 1, 2, 4, 8])
    w = rng.choice({1: [[2, 2], [1, 3], [3, 1], [0, 4], [4, 0]], 2: [[2, 1, 1], [1, 1, 2], [0, 1, 3], [1, 3, 0]],
                    3: [[1, 1, 1, 1], [0, 2, 1, 1], [2, 0, 1, 1]]}[len(N)])
    wscale = rng.choice([1, 2, .25, 8])
    integ = rng.random() < .6
    num = [[0, rng.choice([1, 2, 4])] if integ else [rng.choice([0, 2, 4, -4]), rng.choice([2, 4, -2])] for _ in range(n)]
    den = [[-4, 4] if integ else [0, 4] for _ in range(n)]
    mode = 'sep' if hist else rng.choice(['sep', 'sep', 'vec'])
    sync = True if hist else mode == 'sep' and rng.random() < .7
    big = 64 * 16
    d = rng.choice([0, 0, 1, 2])
    usegm = rng.random() < .3
    steps = len(hist) if hist else rng.randint(1, 14)
    with core.quiet():
        data = IirFilterData([2] * n, [2] * n, np.array(num) / 4, np.array(den) / 4)
        idx = [list(range(n * k, n * (k + 1))) for k in range(len(N) + 1)]
        rng.shuffle(idx)
        kw = dict(idx_yf=idx[0], idx_ys=idx[1:]) if mode == 'vec' else {}
        o = MultirateComplementaryFilter(sp(dt=DT * 1e-9), data, g / 4, [x * wscale for x in w], N, delay=d, validate_sync=sync, **kw)
        yf, ys = BaseValue(value=np.zeros(n)), [BaseValue(value=np.zeros(n)) for _ in N]
        v = BaseValue(value=np.zeros(n * (len(N) + 1)))
        gm = BaseValue(value=np.ones(n))
    if mode == 'vec':
        o.inputs['in_vec'].set(v)
    else:
        o.inputs['in_yf'].set(yf)
        o.inputs['in_ys'].set(ys)
    if usegm:
        o.inputs['gain_mod'].set(gm)
    ev, frame = [], 0
    cy, cs, cg = [0] * n, [[0] * n for _ in N], [4] if usegm else []
    try:
        with core.quiet():
            o.setup()
            for j in range(steps):
                now = j * DT
                if j and not hist and rng.random() < .15:
                    if o.check_ready(now):
                        raise RuntimeError('ready without new input')
                    ev.append(dict(idle=True, nd=vec(o.out_comm_no_delay.value, big)))
                    continue
                frame += 1
                due = [frame % k == 0 for k in N]
                fresh = list(hist[j]) if hist else due
                if not hist and sync and rng.random() < .04:
                    k = rng.randrange(len(N))
                    fresh = [not x if q == k else x for q, x in enumerate(fresh)]
                if not sync and rng.random() < .7:
                    fresh = [rng.random() < .6 for _ in N]
                cy = ints(rng, n)
                cs = [ints(rng, n) if fresh[k] else cs[k] for k in range(len(N))]
                if mode == 'vec':
                    cs = [ints(rng, n) for _ in N]
                    a = np.zeros(n * (len(N) + 1))
                    for k, x in enumerate([cy] + cs):
                        a[idx[k]] = x
                    v.value = a
                    v.generation_time = now
                else:
                    yf.value = np.array(cy, dtype=float)
                    yf.generation_time = now
                    for k in range(len(N)):
                        if fresh[k]:
                            ys[k].value = np.array(cs[k], dtype=float)
                            ys[k].generation_time = now
                if usegm:
                    cg = [rng.choice([0, 2, 4, 4])] if rng.random() < .4 else [rng.choice([0, 2, 4, 4]) for _ in range(n)]
                    gm.value = np.array(cg) / 4
                    if rng.random() < .8:
                        gm.generation_time = now
                fail = False
                try:
                    if o.check_ready(now):
                        o.trigger()
                        o.post_trigger()
                except RuntimeError:
                    fail = True
                sc = lambda a: [x * big for x in a]
                ev.append(dict(fresh=fresh, yf=sc(cy), ys=[sc(x) for x in cs], gm=list(cg), fail=fail, nd=vec(o.out_comm_no_delay.value, big)))
                if fail:
                    break
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
    return dict(id=tid, kind='cf', N=N, g=g, w=w, n=n, num=num, den=den, sync=sync, ev=ev, replay=dict(mode=mode, delay=d))


def conf(tid, rng):
    from specula.processing_objects.modalrec_multirate import ModalrecMultirate
    from specula.data_objects.recmat import Recmat
    ev = []
    for _ in range(8):
        ns = rng.randint(1, 3)
        sizes = [rng.choice([2, 4]) for _ in range(ns)]
        nm = rng.randint(1, 3)
        masks = [[bool(k >> j & 1) for j in range(ns)] for k in rng.sample(range(1, 2 ** ns), rng.randint(1, 2 ** ns - 1))]
        rows, cols = [nm] * len(masks), [sum(sizes)] * len(masks)
        conn = list(sizes)
        what = rng.choice(['ok', 'ok', 'dup', 'short', 'row', 'col', 'count', 'less', 'more'])
        k = rng.randrange(len(masks))
        if what == 'dup':
            masks.append(list(masks[k]))
            rows.append(nm)
            cols.append(sum(sizes))
        elif what == 'short':
            masks[k] = masks[k] + [True]
        elif what == 'row':
            rows[k] += 1
        elif what == 'col':
            cols[k] += rng.choice([-1, 1, 2])
        elif what == 'count':
            masks = masks[:-1] or masks + [[False] * ns]
        elif what == 'less':
            conn = conn[:-1]
        elif what == 'more':
            conn = conn + [2]

        def f():
            o = ModalrecMultirate([Recmat(np.ones((r, c))) for r, c in zip(rows, cols)], masks, nm)
            o.inputs['in_slopes_list'].set([slopes(n) for n in conn])
            o.setup()
        ev.append(dict(masks=masks, rows=rows, cols=cols, nm=nm, sizes=conn, refused=refusal(f)))
    return dict(id=tid, kind='conf', ev=ev)


def cfconf(tid, rng):
    from libobjs import sp
    from specula.base_value import BaseValue
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.multirate_complementary_filter import MultirateComplementaryFilter
    ev = []
    for _ in range(8):
        nn = rng.randint(1, 3)
        nw, ny = nn + rng.choice([1, 1, 1, 1, 0, 2]), nn + rng.choice([0, 0, 0, 1, -1])
        mode = rng.choice(['sep', 'sep', 'vec', 'vec', 'none'])
        idx = rng.random() < .6

        def f():
            kw = dict(idx_yf=[0], idx_ys=[[k + 1] for k in range(nn)]) if idx else {}
            o = MultirateComplementaryFilter(sp(), IirFilterData.from_gain_and_ff([.5]), 1.0, [1.0] * nw, [2] * nn, **kw)
            if mode == 'sep':
                o.inputs['in_yf'].set(BaseValue(value=np.zeros(1)))
                o.inputs['in_ys'].set([BaseValue(value=np.zeros(1)) for _ in range(ny)])
            elif mode == 'vec':
                o.inputs['in_vec'].set(BaseValue(value=np.zeros(1 + nn)))
            o.setup()
        ev.append(dict(nw=nw, nn=nn, ny=ny, mode=mode, idx=idx, refused=refusal(f)))
    return dict(id=tid, kind='cfconf', ev=ev)


def gen(seed, count, prefix):
    rng = random.Random(seed)
    f = lambda k: conf if k % 20 == 0 else cfconf if k % 20 == 10 else rec if k % 2 else cf
    return [f(k)(f'{prefix}{k}', rng) for k in range(count)]


def replay(seed, items, prefix):
    rng = random.Random(seed)
    return [rec(f'{prefix}{k}', rng, b) if kind == 'rec' else cf(f'{prefix}{k}', rng, b['N'], b['h'])
            for k, (kind, b) in enumerate(items)]


def check(ctx):
    beh = [('rec', b) for b in ctx.model_check('MCMultirate', ctx.n('MCMultirate', 'MCMultirateT'))]
    beh += [('cf', b) for b in ctx.model_check('MCFusion')]
    ctx.rng.shuffle(beh)
    beh = beh[:ctx.n(1200, 6000)]
    parts = [beh[k::6] for k in range(6)]
    traces = [t for r in core.jobs('c17', 'replay', [[ctx.rng.randrange(2**31), p, f'm{k}.'] for k, p in enumerate(parts)]) for t in r]
    traces += core.spread(ctx, 'c17', 'gen', ctx.n(2400, 40000), prefix='r')
    ctx.need(sum(t['kind'] == 'cf' and any(e.get('fail') for e in t['ev']) for t in traces) > 30, 'refused timings')
    ctx.need(sum(t['kind'] == 'rec' and any(e.get('fail') for e in t['ev']) for t in traces) > 30, 'sets without matrix')
    ctx.validate('MultirateTrace', traces)
    ctx.assumptions.append('the complementary filter runs in every frame of its fast sensor; exactly representable data')
