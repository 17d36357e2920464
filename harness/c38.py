"""C38: extended sources, values given by the user, effective winds and delays."""
import json
import math
import multiprocessing as mp
import random
import time
import numpy as np
import core
from c37 import near, event, nears

MAXHALF = 300000


def spacing(w):
    return w['lam'] * w['s10'] * 206265 / (w['D'] * 1000)


def build(w, thr=None, psf=None):
    from specula.processing_objects.extended_source import ExtendedSource
    from specula.data_objects.simul_params import SimulParams
    sp = SimulParams(pixel_pupil=w['D'] // 2, pixel_pitch=.2, zenithAngleInDeg=60. if w['air'] == 2 else 0.)
    kw = dict(sampling_type=w['sampling'], sampling_lambda_over_d=w['s10'] / 10)
    if w['type'] in ('TOPHAT', 'GAUSS'):
        kw['size_obj'] = w['size'] * 1e-6
    if w['nr']:
        kw['n_rings'] = w['nr']
    if w['layers']:
        o = w['order']
        kw.update(layer_height=[w['layers'][k][0] * 1000. for k in o], intensity_profile=[w['layers'][k][3] / 100 for k in o], focus_height=w['foc'] * 1000.)
        if w['tt']:
            kw['tt_profile'] = np.array([[w['layers'][k][1] * 1e-6, w['layers'][k][2] * 1e-6] for k in o])
    if w['type'] == 'FROM_PSF':
        kw.update(initial_psf=psf, pixel_scale_psf=w['ps'] * 1e-6, crop_psf=w['crop'])
    if thr:
        kw['flux_threshold'] = thr / 10
    return ExtendedSource(sp, w['lam'], w['type'], **kw)


def by_rings(pts, gap):
    pts = sorted(pts, key=lambda p: math.hypot(p[0], p[1]))
    out, ring, last = [], [], 0
    for p in pts + [None]:
        d = math.hypot(p[0], p[1]) if p else 0
        if ring and (p is None or d > last + gap):
            out += sorted(ring, key=lambda q: round(math.atan2(q[1], q[0]) % (2 * math.pi) * 1e3) % 6283)
            ring = []
        if p:
            ring.append(p)
            last = d
    return out


def got(s, w, absolute=False):
    """the points of a source, by layer"""
    c = core.cpu(s.outputs['coeff'].value) if hasattr(core, 'cpu') else np.asarray(s.outputs['coeff'].value)
    xx, yy = np.asarray(s.xx_arcsec) * 1e6, np.asarray(s.yy_arcsec) * 1e6
    foc = [near(v, 1000) for v in c[:, 2]]
    groups = []
    fs = sorted(set(foc))
    for k, f in enumerate(fs):
        L = w['layers'][k] if w['layers'] and k < len(w['layers']) else [0, 0, 0, 100]
        pts = []
        for j in range(len(foc)):
            if foc[j] == f:
                x, y = near(xx[j] - L[1], 1), near(yy[j] - L[2], 1)
                fl = near(c[j, 3] * (1 if absolute else 100 / L[3]), 1e5)
                pts.append([x, y, near(c[j, 0], 1e4), near(c[j, 1], 1e4), f, fl])
        groups.append(by_rings(pts, spacing(w) / 10))
    return dict(n=int(s.npoints), rows=len(c), layers=groups)


def matrix(rng, n, kind=None):
    kind = kind or rng.choice(['delta', 'spot', 'random', 'random'])
    p = [[0] * n for _ in range(n)]
    c = n // 2
    for i in range(n):
        for j in range(n):
            if kind == 'random':
                p[i][j] = rng.randint(0, 9)
            elif kind == 'spot':
                p[i][j] = max(0, 9 - 3 * ((i - c)**2 + (j - c)**2))
    p[c][c] = 9
    return p


def off(rng, k):
    """far from ties of the rounding"""
    return k + rng.choice([-.3, -.2, -.1, .1, .2, .3])


def world(rng):
    w = dict(lam=rng.choice([500, 600, 1000]), D=rng.choice([40, 80]), s10=rng.choice([5, 8, 10]), air=rng.choice([1, 1, 2]), size=0, nr=0, F=1, ps=1, layers=[], foc=90, order=[], tt=False, crop=False, P=[])
    w['type'] = rng.choice(['POINT_SOURCE'] + ['TOPHAT'] * 6 + ['GAUSS'] * 5 + ['FROM_PSF'] * 4)
    w['sampling'] = 'CARTESIAN'
    os = spacing(w)
    if w['type'] == 'TOPHAT':
        w['sampling'] = rng.choice(['CARTESIAN', 'POLAR', 'RINGS'])
        lo = 1 if w['sampling'] == 'RINGS' else 2
        w['size'] = round(2 * os * off(rng, rng.randint(lo, 5)))
        if w['sampling'] == 'RINGS':
            if rng.random() < .4:
                w['size'] = round(2 * 50 / w['s10'] * os * off(rng, 1))
            else:
                w['nr'] = rng.randint(1, 4)
    elif w['type'] == 'GAUSS':
        w['sampling'] = rng.choice(['CARTESIAN', 'RINGS', 'RINGS'])
        if w['sampling'] == 'CARTESIAN':
            w['F'] = rng.choice([2, 4, 8])
            w['size'] = os * w['F']         # exactly so, for the library
        else:
            w['nr'] = rng.randint(1, 4)
            w['size'] = 100 * round(os * rng.uniform(1.5, 4) / 100)
            if rng.random() < .5:       # rings as many as the size needs
                w['nr'], w['size'] = 0, 100 * round(50 / w['s10'] * os * off(rng, rng.choice([1, 1, 2])) / 127.4)
    elif w['type'] == 'FROM_PSF':
        w['sampling'] = rng.choice(['CARTESIAN', 'CARTESIAN', 'POLAR'])
        n = rng.randint(3, 9)
        w['P'] = matrix(rng, n)
        m = rng.randint(2, 10) if w['sampling'] == 'CARTESIAN' else rng.choice([3, 5, 7, 9])
        w['ps'] = round(os * off(rng, m) / n)
        w['crop'] = rng.random() < .4
    if rng.random() < .35:
        k = rng.randint(1, 3)
        hs = sorted(rng.sample([h for h in range(82, 100) if h != 90], k))
        w['tt'] = rng.random() < .6
        w['layers'] = [[h] + ([rng.randint(-50000, 50000), rng.randint(-50000, 50000)] if w['tt'] else [0, 0]) + [rng.randint(10, 150)] for h in hs]
        w['order'] = rng.sample(range(k), k)
    return w


def fits(w):
    os = spacing(w)
    ext = dict(TOPHAT=w['size'] / 2, GAUSS=w['size'] * 1.274, FROM_PSF=len(w['P']) * w['ps'] * .75).get(w['type'], 0)
    n = 3.2 * (ext / os)**2 * max(1, len(w['layers']))
    return ext < MAXHALF and n < 260


def some_world(rng):
    while True:
        w = world(rng)
        if fits(w):
            return w


def spec(w):
    return {k: (int(round(v)) if k == 'size' else v) for k, v in w.items()}


def source(rng):
    w = some_world(rng)
    steps = []
    if w['type'] == 'FROM_PSF':
        n, n0 = len(w['P']), len(w['P'])
        os = spacing(w)
        for _ in range(rng.randint(0, 3)):
            u = rng.random()
            if u < .25:
                steps.append([])
            elif u < .45:
                steps.append([[0] * 3 for _ in range(3)])
            else:
                m = rng.choice([k for k in range(3, 11) if (k - n0) % 2 == 0]) if w['crop'] else n if rng.random() < .4 else rng.randint(3, 9)
                P = matrix(rng, m, 'spot' if w['crop'] else None)
                k = n if w['crop'] else m
                r = k * w['ps'] / os
                if abs(r - round(r)) > .4 or r < 1.6 or (w['sampling'] == 'POLAR' and round(r) % 2 == 0) or 3.2 * (r * .75)**2 * max(1, len(w['layers'])) > 260 or k * w['ps'] * .75 > MAXHALF:
                    continue
                steps.append(P)

    def go():
        from specula.base_value import BaseValue
        P = np.array(w['P'], dtype=float) if w['P'] else None
        keep = None if P is None else P.copy()
        s = build(w, psf=P)
        e = dict(spec(w), what='source', got=got(s, w), steps=[], spoilt=False, gt0=int(s.outputs['coeff'].generation_time))
        if steps:
            v = BaseValue(value=np.zeros((3, 3)))
            s.inputs['psf'].set(v)
            s.setup()
            for k, p in enumerate(steps):
                t = k + 1
                kept = None
                if p:
                    v.value = np.array(p, dtype=float)
                    kept = v.value.copy()
                    v.generation_time = t
                if s.check_ready(t):
                    s.prepare_trigger(t)
                    s.trigger()
                    s.post_trigger()
                if kept is not None and not np.array_equal(kept, v.value):
                    e['spoilt'] = True
                e['steps'].append(dict(psf=p, got=got(s, w), gt=int(s.outputs['coeff'].generation_time)))
        if P is not None and not np.array_equal(P, keep):
            e['spoilt'] = True
        return e
    return event(go)


def cut(rng):
    while True:
        w = some_world(rng)
        if w['type'] in ('GAUSS', 'FROM_PSF') or len(w['layers']) > 1:
            break
    thr = rng.randint(1, 18)

    def go():
        P = lambda: np.array(w['P'], dtype=float) if w['P'] else None
        a, k = build(w, psf=P()), build(w, thr, psf=P())
        g = [got(s, dict(w, layers=[]), True) for s in (a, k)]
        return dict(what='cut', thr=thr, all=sum(g[0]['layers'], []), kept=sum(g[1]['layers'], [])) if g[1]['n'] == g[1]['rows'] else dict(err='npoints')
    return event(go)


# ------------------------------------------------------------------ values from the user
def feeder(conn):
    def task(q):
        while True:
            try:
                x = conn.recv()
            except EOFError:
                return
            if x is None:
                return
            q.put(tuple(x))
    return task


def giver(batch):
    def task(q):
        for x in batch:
            q.put(tuple(x))
    return task


def user_at_once(ops):
    """a task for each batch: when it has ended all its values are in the queue, and one step has to read them"""
    def go():
        from specula.processing_objects.specula_input import SpeculaInput
        o = SpeculaInput(['a', 'b'])
        o.set_input_task(giver([]))
        o.setup()
        seen, t, batch = [], 0, []
        for op in ops:
            if op[0] == 'put':
                batch.append(op[1:])
                continue
            t += 1
            if batch:
                o.set_input_task(giver(batch))
                batch = []
            for p in mp.active_children():
                p.join(30)
            if o.check_ready(t):
                o.prepare_trigger(t)
                o.trigger()
                o.post_trigger()
            g = lambda n: dict(v=int(o.outputs[n].value or 0), t=int(o.outputs[n].generation_time))
            seen.append(dict(a=g('a'), b=g('b')))
        return dict(what='inputs', ops=ops, seen=seen)
    return event(go)


def user(ops):
    def go():
        from specula.processing_objects.specula_input import SpeculaInput
        here, there = mp.Pipe()
        o = SpeculaInput(['a', 'b', 'z'])
        o.set_input_task(feeder(there))
        try:
            o.setup()
            seen, t, mark, fresh = [], 0, 0, False
            for op in ops:
                if op[0] == 'put':
                    here.send(op[1:])
                    fresh = True
                    continue
                t += 1
                if fresh:
                    mark += 1
                    here.send(['z', mark])
                end = time.time() + 30
                while True:
                    if o.check_ready(t):
                        o.prepare_trigger(t)
                        o.trigger()
                        o.post_trigger()
                    if not fresh or o.outputs['z'].value == mark:
                        break
                    if time.time() > end:
                        return dict(err='values put into the queue never arrive')
                    time.sleep(.001)
                fresh = False
                g = lambda n: dict(v=int(o.outputs[n].value or 0), t=int(o.outputs[n].generation_time))
                seen.append(dict(a=g('a'), b=g('b')))
            return dict(what='inputs', ops=ops, seen=seen)
        finally:
            here.send(None)
            p = getattr(o, 'p', None)
            if p is not None:
                p.join(5)
                if p.is_alive():
                    p.terminate()
    return event(go)


# ------------------------------------------------------------------ moving targets
DIRS = [(0, 1, 1), (1, 0, 1), (0, -1, 1), (-1, 0, 1), (3, 4, 5), (-4, 3, 5), (-3, -4, 5), (4, -3, 5), (5, 12, 13), (-12, 5, 13)]


def wind(rng):
    n = rng.randint(1, 4)
    v, H, od = rng.choice([0, 500, 1500, 3000]), rng.choice([300000, 500000, 800000]), rng.choice(DIRS)
    ls = [dict(speed=rng.randint(0, 40), dir=rng.choice(DIRS), h=rng.choice([0, 5, 40, 100]), v=v, H=H // 100, odir=od) for _ in range(n)]
    deg = lambda d: math.degrees(math.atan2(d[0], d[1]))

    def go():
        from specula.lib.fsoc_lib import calc_effective_wind_speed as f
        a = [np.array([l['h'] * 100. for l in ls]), np.array([l['speed'] for l in ls], float), np.array([deg(l['dir']) for l in ls])]
        keep = [x.copy() for x in a]
        sp, d = f(*a, H, v, deg(od))
        d = np.radians(np.atleast_1d(d))
        return dict(what='wind', layers=ls, sp=nears(sp, 100), s=nears(np.sin(d), 10000), c=nears(np.cos(d), 10000), spoilt=not all(np.array_equal(x, y) for x, y in zip(a, keep)))
    return event(go)


def timing(rng):
    H, air = rng.randint(3000, 9000), rng.choice([1, 2])
    h = [rng.randint(0, 200) for _ in range(rng.randint(1, 4))]

    def go():
        from specula.lib.fsoc_lib import calc_timing_uplink_downlink as f
        up, down = f(60. if air == 2 else 0., H * 100., np.array(h) * 100.)
        return dict(what='timing', H=H, h=h, air=air, up=nears(up, 1e9), down=nears(down, 1e9))
    return event(go)


def inputs(rng):
    ops = [['step'] if rng.random() < .3 else ['put', rng.choice('aabbx'), rng.randint(1, 9)] for _ in range(rng.randint(4, 14))] + [['step']]
    return rng.choice([user, user_at_once, user_at_once])(ops)


GENS = [source] * 12 + [cut] * 4 + [wind] * 2 + [timing] + [inputs] * 2


def gen(seed, count, prefix):
    rng = random.Random(seed)
    ts = []
    while len(ts) < count:
        e = rng.choice(GENS)(rng)
        if e:
            ts.append(dict(id=f'{prefix}{len(ts)}', ev=[e]))
    return ts


def replays(items):
    return [dict(id=f'b{k}', ev=[(user if k % 3 == 0 else user_at_once)(b['ops'])]) for k, b in items]


def check(ctx):
    behs = sorted({json.dumps(b, sort_keys=True) for b in ctx.model_check('MCSources')})
    items = [(j, json.loads(b)) for j, b in enumerate(ctx.rng.sample(behs, min(ctx.n(180, len(behs)), len(behs))))]
    ts = sum(core.jobs('c38', 'replays', [(items[j::3],) for j in range(3)], 0), [])
    ts += core.spread(ctx, 'c38', 'gen', ctx.n(800, 6000), 6)
    ctx.validate('SourcesTrace', ts)
    for k in ('source', 'cut', 'inputs', 'wind', 'timing'):
        ctx.need(sum(any(e.get('what') == k for e in t['ev']) for t in ts) > 10, k)
