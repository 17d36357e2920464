"""C36: estimators (optical gain, gain optimiser, modal analysis, phase screen cube, spot monitor)."""
import json
import random
import numpy as np
import core
from core import enc, vec

LOOP = 0.125


def near(x, sc, lim=2 * 10**9):
    x = float(x) * sc
    return int(round(x)) if x == x and abs(x) < lim else core.BADINT


def nears(a, sc):
    return [near(x, sc) for x in np.asarray(a).ravel().tolist()]


def step_of(g, dt):
    return -1 if g < 0 else int(round(int(g) / dt))


def guarded(tid, head, ev, fn):
    import warnings
    try:
        with core.quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            fn()
    except Exception as x:
        b = core.blame(x)
        if not b and not isinstance(x, (AttributeError, KeyError, TypeError, IndexError)):
            raise
        ev.append(dict(err=(b or repr(x))[-300:]))
    return dict(id=tid, ev=ev, **head)


def run(o, t):
    if o.check_ready(t):
        o.trigger()
        o.post_trigger()


# ------------------------------------------------------------------ optical gain
def og(tid, cfg, steps):
    """cfg: k (quarters), g0 (units), num (initial gain as given); steps: t, dn, cn, r, c (command)"""
    ev = []

    def go():
        from specula.processing_objects.optical_gain_estimator import OpticalGainEstimator
        from specula.base_value import BaseValue
        o = OpticalGainEstimator(gain=cfg['k'] / 4, initial_optical_gain=cfg['num'])
        d, c = BaseValue(value=o.xp.zeros(1)), BaseValue(value=o.xp.zeros(1))
        o.inputs['in_demod_delta_command'].set(d)
        o.inputs['in_demod_command'].set(c)
        o.setup()
        dt = o.seconds_to_t(LOOP)
        for s in steps:
            t = s['t'] * dt
            if s['dn']:
                d.value[:] = s['r'] * s['c'] / 2
                d.generation_time = t
            if s['cn']:
                c.value[:] = s['c']
                c.generation_time = t
            run(o, t)
            g, u = o.outputs['optical_gain'], o.outputs['output']
            ev.append(dict(t=s['t'], dn=s['dn'], cn=s['cn'], r=s['r'], c0=abs(s['c']) < 1e-12, g=enc(g.value[0], 32768), out=enc(u.value[0], 32768),
                           tg=step_of(g.generation_time, dt), to=step_of(u.generation_time, dt)))
    return guarded(tid, dict(kind='og', cfg=cfg), ev, go)


def gen_og(rng, tid):
    num = rng.choice([1.0, .5, 2.0, 1, 2, .25])
    cfg = dict(k=rng.choice([1, 2, 4, 3]), g0=int(num * 32768), num=num)
    n = 0
    steps = []
    for t in range(rng.randint(1, 9)):
        dn, cn = rng.random() < .7, rng.random() < .7
        if dn and cn:
            n += 1
            if n > 5:
                break
        steps.append(dict(t=t, dn=dn, cn=cn, r=rng.choice([2, 1, 3, 0, -1, 4, 2]), c=rng.choice([1., 2., -4., .5, -1., 0., 1e-13, 3e5])))
        if dn and cn and abs(steps[-1]['c']) >= 1e-12 and abs(steps[-1]['c']) > 1e5:
            steps[-1]['c'] = 2.0**17
    return og(tid, cfg, steps)


# ------------------------------------------------------------------ gain optimiser
def ctf(ff, z):
    return 1 / (1 - ff / z)


def stable(g, ff, delay):
    """roots of z^d (1 - ff/z) + g, as a polynomial in z"""
    p = np.zeros(int(delay) + 1)
    p[0], p[1] = 1, -ff
    p[-1] += g
    return np.all(np.abs(np.roots(p)) < 1)


def max_gain(ff, delay):
    g = 0.
    while stable(g + .02, ff, delay):
        g += .02
    a, b = g, g + .02
    for _ in range(30):
        m = (a + b) / 2
        a, b = (m, b) if stable(m, ff, delay) else (a, m)
    return a


def opt(tid, cfg, steps):
    """cfg: period, n, limit, inc, safe (quarters), caps, g0 (1e-6), ff, delay; steps: t, new, delta, comm, og (quarters or -1)"""
    ev = []

    def go():
        from scipy import signal
        from specula.processing_objects.gain_optimizer import GainOptimizer
        from specula.data_objects.iir_filter_data import IirFilterData
        from specula.base_value import BaseValue
        from libobjs import sp
        m = len(cfg['g0'])
        f = IirFilterData.from_gain_and_ff([g / 1e6 for g in cfg['g0']], cfg['ff'])
        o = GainOptimizer(sp(dt=LOOP), f, opt_dt=cfg['period'] * LOOP, delay=cfg['delay'], max_gain_factor=.75, safety_factor=cfg['safe'] / 4,
                          max_inc=cfg['inc'] / 4, limit_inc=cfg['limit'], ngains=cfg['n'], verbose=False)
        d, c, w = (BaseValue(value=o.xp.zeros(k)) for k in (m, m, 1))
        o.inputs['delta_comm'].set(d)
        o.inputs['out_comm'].set(c)
        if steps[0]['og'] >= 0:
            o.inputs['optical_gain'].set(w)
        o.setup()
        dt = o.seconds_to_t(LOOP)
        ds, cs, npers = [], [], None
        for s in steps:
            t = s['t'] * dt
            best = [[] for _ in range(m)]
            if s['new']:
                d.value[:] = s['delta']
                d.generation_time = t
                if s['comm'] is not None:
                    c.value[:] = s['comm']
                    c.generation_time = t
                w.value[:] = s['og'] / 4
                w.generation_time = t
                ds.append(d.value.copy())
                cs.append(c.value.copy())
                if s['t'] >= cfg['period'] and s['t'] % cfg['period'] == 0 and len(ds) > 1:
                    pol = np.array(ds)
                    pol[1:] += np.array(cs)[:-1]
                    npers = npers or min(len(pol), 256)
                    for k in range(m):
                        fr, psd = signal.welch(pol[:, k], fs=1 / LOOP, window='hann', nperseg=npers)
                        z = np.exp(2j * np.pi * fr * LOOP)
                        den = np.where(abs(1 - cfg['ff'][k] / z) < 1e-12, np.inf, 0)
                        cost = []
                        for j in range(1, cfg['n'] + 1):
                            with np.errstate(all='ignore'):
                                h = 1 / (1 + cfg['caps'][k] / 1e6 * j / cfg['n'] * ctf(cfg['ff'][k], z) * z**-cfg['delay'])
                            cost.append(np.sum(np.where(den > 0, 0, abs(h)**2) * psd))
                        lim = min(cost) * 1.01 + 1e-20
                        best[k] = [j + 1 for j, x in enumerate(cost) if x <= lim]
            run(o, t)
            g = o.outputs['optimized_gain']
            ev.append(dict(t=s['t'], new=s['new'], og=s['og'], best=best, gain=nears(g.value, 1e6), fg=nears(f.num[:, -1], 1e6), tg=step_of(g.generation_time, dt)))
    return guarded(tid, dict(kind='opt', cfg=cfg), ev, go)


def gen_opt(rng, tid):
    m, period = rng.randint(1, 3), rng.randint(3, 14)
    delay = rng.choice([1, 2, 2, 3])
    ff = [rng.choice([1.0, 1.0, .9, .5]) for _ in range(m)]
    cfg = dict(period=period, n=rng.choice([3, 5, 8]), limit=rng.random() < .6, inc=rng.choice([1, 2, 4]), safe=rng.choice([4, 3, 4]), ff=ff, delay=delay,
               g0=[rng.choice([100000, 300000, 450000]) for _ in range(m)])
    cfg['caps'] = [int(max_gain(f, delay) * .75e6) for f in ff]
    ogs = rng.random() < .4
    gaps = rng.random() < .4
    rg = np.random.default_rng(rng.randrange(2**32))
    steps, slow = [], rg.normal(size=m) * 10
    amp, noise = rng.choice([0, 2, 6]), rng.choice([.2, 2, 5])
    first = rng.choice([0, 0, 0, period - 1, period, 2 * period])
    for t in range(period * rng.randint(2, 4) + 1):
        slow = slow * .95 + rg.normal(size=m) * amp
        new = t >= first and not (gaps and rng.random() < .3)
        steps.append(dict(t=t, new=new, delta=np.round(slow * .5 + rg.normal(size=m) * noise), comm=np.round(slow * .5) if not gaps or rng.random() < .8 else None,
                          og=rng.choice([4, 4, 3, 2, 5]) if ogs else -1))
    return opt(tid, cfg, steps)


# ------------------------------------------------------------------ modal analysis
def poisson(p, half, drop):
    """Least-squares unwrapping; drop: without the divergence along the inner part of the first and last column (the known finding)."""
    n = len(p)
    w = lambda d: np.mod(d + half, 2 * half) - half
    L, b = np.zeros((n * n, n * n)), np.zeros(n * n)
    for i in range(n):
        for j in range(n):
            for di, dj in [(0, 1), (1, 0)]:
                if i + di < n and j + dj < n:
                    q, r = i * n + j, (i + di) * n + j + dj
                    d = w(p[i + di, j + dj] - p[i, j])
                    for u, v, sg in [(q, r, 1), (r, q, -1)]:
                        L[u, u] -= 1
                        L[u, v] += 1
                        if not (drop and di and j in (0, n - 1) and 0 < u // n < n - 1):
                            b[u] += sg * d
    return np.linalg.lstsq(L, b - b.mean(), rcond=None)[0]


def gen_modal(rng, tid):
    rg = np.random.default_rng(rng.randrange(2**32))
    n = rng.randint(3, 6)
    wl = rng.choice([0, 0, 0, 10, 16])
    mask = np.ones((n, n)) if wl or rng.random() < .3 else (rg.random((n, n)) < .7).astype(float)
    if mask.sum() < 3:
        mask[:] = 1
    px = int(mask.sum())
    k = rng.randint(1, min(4, px - 1))
    full = rg.integers(-3, 4, size=(k + rng.choice([0, 0, 1, 2]), px)).astype(float)
    form = rng.choice(['ifunc', 'ifunc', 'inv', 'both'])
    if form != 'ifunc':
        full = full[:k]
    B = full[:k]
    tol = int(max(np.sum(np.abs(B @ B.T), axis=1)) / 2) + 3
    single, m = rng.choice([(1, 0), (1, 0), (0, 1), (0, 2), (0, 3), (1, 2)])
    steps = rng.randint(1, 3)
    dorms = bool(not m and not wl and rng.random() < .5)
    # the known finding: the vertical gradients of the first and last column, where they are not constant
    flat, found = rng.random() < .5, [True]
    ev = []

    def go():
        from specula.processing_objects.modal_analysis import ModalAnalysis
        from specula.data_objects.ifunc import IFunc
        from specula.data_objects.ifunc_inv import IFuncInv
        from specula.data_objects.electric_field import ElectricField
        kw = {}
        if form != 'inv':
            kw['ifunc'] = IFunc(full, mask=mask)
        if form != 'ifunc':
            kw['ifunc_inv'] = IFuncInv(np.linalg.pinv(B), mask)
        if len(full) > k:
            kw['nmodes'] = k
        o = ModalAnalysis(wavelengthInNm=float(wl), dorms=dorms, n_inputs=max(m, 1), **kw)
        efs = [ElectricField(n, n, .1) for _ in range(single + m)]
        if single:
            o.inputs['in_ef'].set(efs[0])
        if m:
            o.inputs['in_ef_list'].set(efs[single:])
        o.setup()
        dt = o.seconds_to_t(LOOP)
        true = [None] * len(efs)
        drop = [None] * len(efs)
        for t in range(steps):
            for q, ef in enumerate(efs):
                if t and q and rng.random() < .4:
                    continue
                if wl:
                    sx, sy = rng.randint(-3, 3), rng.randint(-3, 3)
                    rough = rg.integers(-1, 2, size=(n, n))
                    if flat:
                        rough[:, [0, -1]] = 0
                    f = sx * np.arange(n)[None, :] + sy * np.arange(n)[:, None] + rough + rng.randint(-20, 20)
                else:
                    f = rg.integers(-30, 31, size=(n, n))
                    if rng.random() < .5:
                        f[mask > 0] = rg.integers(-4, 5, size=k) @ B
                true[q] = f[mask > 0].astype(int).tolist()
                ef.phaseInNm[:] = np.mod(f, wl) - rng.choice([0, wl // 2]) if wl and rng.random() < .7 else f
                ef.generation_time = t * dt
                if wl and not flat:
                    drop[q] = poisson(np.array(ef.phaseInNm, dtype=float), wl / 2, True) @ np.linalg.pinv(B)
            run(o, t * dt)
            outs = ([o.outputs['out_modes']] if single else []) + (list(o.outputs['out_modes_list']) if m else [])
            jobs = []
            for q, v in enumerate(outs):
                if drop[q] is not None and not np.allclose(v.value, drop[q], atol=1e-2):
                    found[0] = False
                jobs.append(dict(f=true[q], half=wl // 2, m=nears(v.value, 1000), tm=step_of(v.generation_time, dt),
                                 rms=near(float(o.outputs['rms'].value[0])**2, px * px) if dorms else -1))
            ev.append(dict(t=t, jobs=jobs))
    d = guarded(tid, dict(kind='modal', B=B.astype(int).tolist(), sc=1000, tol=tol, n=n, form=form, wl=wl, single=single, m=m), ev, go)
    return dict(d, key='unwrapping-border-columns') if wl and not flat and found[0] else d


# ------------------------------------------------------------------ cube of phase screens
def gen_cube(rng, tid):
    rg = np.random.default_rng(rng.randrange(2**32))
    n, nf = rng.randint(2, 4), rng.randint(2, 4)
    ts = [rng.choice([0, 0, 0, 1, 2])]
    while len(ts) < nf:
        ts.append(ts[-1] + rng.choice([1, 2, 4]))
    frames = rg.integers(-20, 21, size=(nf, n, n)) * 4
    pup = (rg.random((n, n)) < .7).astype(float)
    scale = rng.choice([1, 1, 2, 3])
    axis = rng.choice([-1, 0])
    src = rng.choice([[], ['a'], ['ngs', 'lgs1']])
    times, t = [], rng.choice([0, 0, ts[0], ts[0] + 1])
    for _ in range(rng.randint(1, 8)):
        times.append(t)
        t += rng.choice([1, 1, 1, 2])
    ev = []

    def go():
        from specula.processing_objects.phase_screen_cube import PhaseScreenCube
        from specula.data_objects.spatio_temp_array import SpatioTempArray
        from specula.data_objects.pupilstop import Pupilstop
        from specula.data_objects.source import Source
        from specula.data_objects.simul_params import SimulParams
        p = SimulParams(pixel_pupil=n, pixel_pitch=.25, time_step=LOOP)
        arr = frames if axis == 0 else np.moveaxis(frames, 0, -1)
        cube = SpatioTempArray(arr.astype(float), np.array(ts) * LOOP, time_axis=axis)
        d = {k: Source(polar_coordinates=[0., 0.], magnitude=5, wavelengthInNm=600) for k in src}
        o = PhaseScreenCube(p, cube, pixel_scale=.25, source_dict=d or None, scale_factor=float(scale))
        stop = Pupilstop(p, input_mask=pup)
        stop.generation_time = 0
        o.inputs['pupilstop'].set(stop)
        o.setup()
        dt = o.seconds_to_t(LOOP)
        for t in times:
            stop.generation_time = t * dt
            try:
                run(o, t * dt)
            except ValueError:
                ev.append(dict(t=t, refused=True, outs=[]))
                break
            outs = [dict(ph=vec(v.phaseInNm), a=vec(v.A), t=step_of(v.generation_time, dt)) for v in o.outputs.values()]
            ev.append(dict(t=t, refused=False, outs=outs))
    return guarded(tid, dict(kind='cube', ts=ts, frames=[f.ravel().tolist() for f in frames], scale=scale, lit=pup.ravel().astype(int).tolist()), ev, go)


# ------------------------------------------------------------------ spot monitor
def gen_spot(rng, tid):
    rg = np.random.default_rng(rng.randrange(2**32))
    spots = rng.random() < .5
    b = rng.randint(4, 7)
    g = rng.randint(1, 3)
    cells = rng.sample([(y, x) for y in range(g) for x in range(g)], rng.randint(1, g * g))
    w = g * b
    idx = [[(y * b + q // b) * w + x * b + q % b for q in range(b * b)] for y, x in cells]
    ev = []

    def go():
        from specula.processing_objects.spot_monitor import SpotMonitor
        from specula.data_objects.subap_data import SubapData
        from specula.data_objects.pixels import Pixels
        o = SpotMonitor(SubapData(np.array(idx), np.array([y * g + x for y, x in cells]), g, g))
        p = Pixels(w, w)
        o.inputs['in_pixels'].set(p)
        o.setup()
        dt = o.seconds_to_t(LOOP)
        for t in range(rng.randint(1, 3)):
            new = t == 0 or rng.random() < .8
            if new:
                img = rg.integers(0, 6, size=(w, w)).astype(float)
                if spots:
                    cx, cy, gm = b / 2 + rng.uniform(-1.5, .5), b / 2 + rng.uniform(-1.5, .5), rng.uniform(1.2, 2.2)
                    yy, xx = np.mgrid[0:b, 0:b]
                    spot = 30 * (1 + ((xx - cx)**2 + (yy - cy)**2) / gm**2)**-2.5
                    for y, x in cells:
                        img[y * b:(y + 1) * b, x * b:(x + 1) * b] = np.round(spot * rng.uniform(.5, 1.5) + rg.normal(size=(b, b)))
                p.pixels[:] = img
                p.generation_time = t * dt
            run(o, t * dt)
            u = {k: o.outputs['out_' + k] for k in ('sum_pixels', 'model_pixels', 'residual_pixels', 'params')}
            gts = {step_of(v.generation_time, dt) for v in u.values()}
            pr = [float(x) for x in u['params'].value]
            fw, fwx = near(pr[6], 1000, 10**6), near(2 * pr[3] * np.sqrt(2**(1 / pr[4]) - 1), 1000, 10**6)
            ev.append(dict(t=t, new=new, pix=vec(p.pixels), sum=vec(u['sum_pixels'].pixels), model=nears(u['model_pixels'].pixels, 10), res=nears(u['residual_pixels'].pixels, 10),
                           chi=near(pr[7], 100), fw=fw, fwx=fwx, ok=int(pr[8]), ts=gts.pop() if len(gts) == 1 else -9))
    return guarded(tid, dict(kind='spot', idx=idx), ev, go)


GENS = [gen_og, gen_opt, gen_modal, gen_modal, gen_cube, gen_spot]


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [rng.choice(GENS)(rng, f'{prefix}{k}') for k in range(count)]


def replays(seed, items, prefix):
    """histories of the model: first element [g0], then the steps"""
    rng = random.Random(seed)
    out = []
    for k, b in items:
        h = json.loads(b)
        g0, st = h[0]['g0'], h[1:]
        c = rng.choice([1., -2., 8.])
        out.append(og(f'{prefix}b{k}', dict(k=2, g0=g0, num=g0 // 32768 if rng.random() < .5 else g0 / 32768), [dict(s, c=0. if s['c0'] else c) for s in st]))
    return out


def check(ctx):
    behs = sorted({json.dumps(b['ev']) for b in ctx.model_check('MCEstim')})
    k = ctx.n(900, len(behs))
    items = list(enumerate(ctx.rng.sample(behs, min(k, len(behs)))))
    ts = sum(core.jobs('c36', 'replays', [(ctx.seed, items[j::3], '') for j in range(3)], 0), [])
    ts += core.spread(ctx, 'c36', 'gen', ctx.n(1200, 20000), 6)
    ctx.validate('EstimTrace', ts)
    for k in ('og', 'opt', 'modal', 'cube', 'spot'):
        ctx.need(sum(t['kind'] == k for t in ts) > 50, k)
    ctx.need(sum(t['kind'] == 'opt' and sum(any(e.get('best') or [[]]) for e in t['ev']) > 1 for t in ts) > 30, 'repeated optimisations')
