"""C31: slope computers on random frames, refresh patterns, windows and geometries."""
import json
import random
import numpy as np
import core

DT = 1000000          # one step, in time units
F = 64


def ints(v, sc):
    return [int(x) for x in np.rint(np.asarray(v, dtype=float) * sc)]


def coords(n, e=1):
    """Pixel coordinates of a subaperture of n x n pixels, in units of 1/n**e."""
    c = [2 * k + 1 - n for k in range(n)]
    c = [(1 if v > 0 else -1) * abs(v) ** e for v in c]
    return [c[k % n] for k in range(n * n)], [c[k // n] for k in range(n * n)]


def disc(n, rad2):
    """1 for the pixels whose centre is within rad (rad2 = (2 rad)**2)."""
    return [1 if (2 * (k % n) + 1 - n) ** 2 + (2 * (k // n) + 1 - n) ** 2 < rad2 else 0 for k in range(n * n)]


def radii(n):
    """Radii (in pixels) whose circle passes through no pixel centre."""
    sq = {(2 * a + 1 - n) ** 2 + (2 * b + 1 - n) ** 2 for a in range(n) for b in range(n)}
    return [r / 2 for r in range(2, 2 * n) if r * r not in sq and r * r > min(sq)]


def geometry(n, e, rad, start=0):
    X, Y = coords(n, e)
    M = disc(n, round((2 * rad) ** 2)) if rad else [1] * (n * n)
    return dict(X=[a * b for a, b in zip(X, M)], Y=[a * b for a, b in zip(Y, M)], xd=n ** e, M=M, md=1, **{'from': start})


def blocks(rng, n, rows, cols):
    """Non-overlapping n x n blocks of the image, each as row-major flat indices."""
    pos = [(r, c) for r in range(0, rows - n + 1, n) for c in range(0, cols - n + 1, n)]
    rng.shuffle(pos)
    pos = pos[:rng.randint(1, min(4, len(pos)))]
    out = []
    for r, c in pos:
        r, c = min(r + rng.randint(0, (rows - n) % n), rows - n), c
        out.append([(r + a) * cols + c + b for a in range(n) for b in range(n)])
    return out


def make_null(rng, d, n, inter):
    """A random slope null in units of 1/16: (object, values in the order of the output)."""
    from specula.data_objects.slopes import Slopes
    if rng.random() < .6:
        return None, []
    x, y = [rng.randint(-8, 8) for _ in range(n // 2)], [rng.randint(-8, 8) for _ in range(n - n // 2)]
    own = rng.random() < .3 and n % 2 == 0
    v = [a for p in zip(x, y) for a in p] if own else x + y
    out = [a for p in zip(x, y) for a in p] if inter else x + y
    return Slopes(slopes=np.array(v) / 16, interleave=own), [a * d['S'] // 16 for a in out]


def make_filter(rng, d, n):
    """Random matrices of the slope filter; the tolerance grows with them."""
    if rng.random() < .75:
        return None
    m = rng.randint(1, 2)
    A, R = [[0] * n for _ in range(m)], [[0] * n for _ in range(m)]
    for row in A + R:
        for k in rng.sample(range(n), min(n, rng.randint(1, 3))):
            row[k] = rng.choice([-1, 1, 1, 2])
    d['A'] = [[A[j][k] for j in range(m)] for k in range(n)]
    d['R'] = R
    d['tol'] = 1 + max(sum(abs(d['A'][k][j]) * sum(map(abs, R[j])) for j in range(m)) for k in range(n))
    return np.array([np.array(A, dtype=float).T, np.array(R, dtype=float).T])


def drive(tid, d, build, names, shape, frames, replay):
    """frames: per step None or a list of new frames (None: this input is not refreshed)."""
    from specula.data_objects.pixels import Pixels
    ev = []
    cur = [[0] * (shape[0] * shape[1]) for _ in names]
    try:
        with core.quiet():
            src = [Pixels(shape[1], shape[0]) for _ in names]
            o = build()
            for n, s in zip(names, src):
                o.inputs[n].set(s)
            o.setup()
            for k, fr in enumerate(frames):
                now = k * DT
                hit = False
                for j, s in enumerate(src):
                    if fr is not None and fr[j] is not None:
                        cur[j] = list(fr[j])
                        s.set_value(np.array(cur[j], dtype=s.pixels.dtype).reshape(shape))
                        s.generation_time = now
                        hit = True
                ran = bool(o.check_ready(now))
                if ran != hit:
                    ev.append(dict(err='ready'))
                    break
                if ran:
                    o.trigger()
                    o.post_trigger()
                out = [np.atleast_1d(np.asarray(o.outputs[q].slopes if q == 'out_slopes' else o.outputs[q].value, dtype=float))
                       for q in ('out_slopes', 'out_flux_per_subaperture', 'out_total_counts', 'out_subap_counts')]
                nan = not all(np.all(np.isfinite(a)) for a in out)
                out = [np.clip(np.nan_to_num(a), -1e6, 1e6) for a in out]
                px = [list(c) for c in cur] if len(names) > 1 else list(cur[0])
                ev.append(dict(t=k, fresh=hit, px=px, s=ints(out[0], d['S']), f=ints(out[1], F),
                               tot=ints(out[2], F)[0], mean=ints(out[3], F)[0], nan=nan,
                               gt=[int(round(o.outputs[q].generation_time / DT)) for q in
                                   ('out_slopes', 'out_flux_per_subaperture', 'out_total_counts', 'out_subap_counts')],
                               kept=all(s.pixels.ravel().tolist() == c for s, c in zip(src, cur))))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:200]))
    base = dict(thr=0, norm='', nf=0, win=0, wth=-1, W=[], inter=False, sn=[], A=[], R=[], F=F, tol=1)
    return dict(base, id=tid, ev=ev, replay=replay, **d)


def some_frames(rng, npix, count, hi, ninp=1, neg=False, p=.7, dark=.12):
    out = []
    for k in range(count):
        if rng.random() > p and k:
            out.append(None)
            continue
        one = []
        for _ in range(ninp):
            u = rng.random()
            if u < dark:
                one.append([0] * npix)
            elif u < dark + .15:
                one.append([rng.choice([0, 0, 0, hi]) for _ in range(npix)])
            else:
                one.append([rng.randint(-2 if neg else 0, hi) for _ in range(npix)])
        if ninp > 1 and k and rng.random() < .3:
            one[rng.randrange(ninp)] = None
        out.append(one)
    return out


def edgy(px, idx, thr, M):
    """A subaperture is too close to the faintness limit for the comparison to be exact."""
    t = [sum(max(px[k] - thr, 0) * m for k, m in zip(i, M)) for i in idx]
    s = sum(t)
    return any(a and abs(a * 1000 * len(t) - s) * 50 < s for a in t)


def sh_case(rng, tid, beh=None):
    from specula.processing_objects.sh_slopec import ShSlopec
    from specula.data_objects.subap_data import SubapData
    if beh is not None:
        n, shape = 2, (2, 4)
        idx = [[0, 1, 4, 5], [3, 2, 7, 6]]
        win, wth, thr, e, rad, inter = beh['win'], beh['th'], 0, 1, 0, False
        frames = [None if not f else [list(f) * 2] for f in beh['h']]
    else:
        n = rng.choice([2, 2, 3, 4])
        shape = (rng.randint(n, 3 * n), rng.randint(n, 3 * n))
        idx = blocks(rng, n, *shape)
        if rng.random() < .2:
            idx = [rng.sample(range(shape[0] * shape[1]), n * n) for _ in range(rng.randint(1, 3))]
        win = rng.choice([0, 0, 1, 2, 3])
        wth = -1 if rng.random() < .6 else rng.randint(1, 20)
        thr = rng.choice([0, 0, 0, 1, 3, 7]) if not win else 0
        e = rng.choice([1, 1, 1, 2])
        rad = rng.choice([0, 0] + radii(n))
        inter = rng.random() < .3
        frames = some_frames(rng, shape[0] * shape[1], rng.randint(1, 9), 15 if win else rng.choice([20, 60]), neg=not win and rng.random() < .3)
    d = dict(kind='sh', idx=[[k + 1 for k in i] for i in idx], S=256, thr=thr, win=win, wth=wth, inter=inter)
    W = [geometry(n, e, rad)]
    vec = None
    if beh is None and rng.random() < .2 and radii(n):
        ts = sorted(rng.sample(range(0, 9), rng.randint(1, 3)))
        vec = [[rng.choice(radii(n)), (t + .5 * (rng.random() < .5)) * 1e-3] for t in ts]
        # an entry is in force in the steps after its time
        W += [geometry(n, e, r, int(t * 1000 + .01)) for r, t in vec]
    d['W'] = W
    if beh is None and not win and rng.random() < .3 and len(idx) > 1:
        # some subapertures are much fainter than the others
        for fr in frames:
            if fr is None or not any(fr[0]):
                continue
            for a, i in enumerate(idx):
                for k in i:
                    fr[0][k] = min(abs(fr[0][k]) * 60, 3600) if a % 2 == 0 else min(abs(fr[0][k]), 1) * (rng.random() < .3)
    frames = [f if f is None or not any(edgy(f[0], idx, thr, w['M']) for w in W) else [[3] * len(f[0])] for f in frames]
    ns = 2 * len(idx)
    sn, d['sn'] = make_null(rng, d, ns, inter) if beh is None else (None, [])
    filt = make_filter(rng, d, ns) if beh is None else None
    kw = dict(sn=sn, filtmat=filt, interleave=inter, exp_weight=float(e))
    if thr:
        kw['thr_value'] = rng.choice([float(thr), thr])
    if rad or vec:
        kw.update(windowing=True, weightedPixRad=float(rad))
    if vec:
        kw['vecWeiPixRadT'] = vec
    if win:
        kw.update(weight_int_pixel_dt=win * 1e-3, window_int_pixel=wth >= 0, window_int_threshold=float(max(wth, 1)))

    def build():
        sd = SubapData(idxs=np.array(idx), display_map=np.arange(len(idx)), nx=len(idx), ny=1)
        return ShSlopec(sd, **kw)
    return drive(tid, d, build, ['in_pixels'], shape, frames, dict(kind='sh', shape=shape, rad=rad, vec=vec, e=e))


def pyr_case(rng, tid):
    from specula.processing_objects.pyr_slopec import PyrSlopec
    from specula.processing_objects.double_roof_slopec import DoubleRoofSlopec
    from specula.data_objects.pupdata import PupData
    roof = rng.random() < .3
    shape = (2 * rng.randint(2, 4), 2 * rng.randint(2, 4))
    npix = shape[0] * shape[1]
    n = rng.randint(1, npix // 4)
    pix = rng.sample(range(npix), 4 * n)
    pup = [sorted(pix[k * n:(k + 1) * n]) for k in range(4)]
    norm = rng.choice(['mean', 'mean', 'fixed', 'total'] + ([] if roof else ['int', 'int']))
    if norm == 'int' and rng.random() < .5:
        pup = [p[:rng.randint(1, n)] for p in pup]
        n = max(map(len, pup))
    ind = np.full((n, 4), -1)
    for k, p in enumerate(pup):
        ind[:len(p), k] = p
    inter = norm != 'int' and rng.random() < .3
    thr = rng.choice([0, 0, 1, 4])
    nf = rng.choice([1, 2, 8, 16])
    d = dict(kind='roof' if roof else 'pyr', idx=[[k + 1 for k in p] for p in pup], S=256, thr=thr, norm=norm, nf=nf, inter=inter)
    ns = sum(map(len, pup)) if norm == 'int' else 2 * n
    sn, d['sn'] = make_null(rng, d, ns, inter)
    filt = make_filter(rng, d, ns)
    kw = dict(sn=sn, thr_value=rng.choice([float(thr), thr]), interleave=inter, filtmat=filt)
    if norm == 'fixed':
        kw['norm_factor'] = float(nf)
    elif norm == 'total':
        kw['shlike'] = True
    elif norm == 'int':
        kw['slopes_from_intensity'] = True

    def build():
        pd = PupData(ind_pup=ind, framesize=list(shape))
        return (DoubleRoofSlopec if roof else PyrSlopec)(pd, **kw)
    return drive(tid, d, build, ['in_pixels'], shape, some_frames(rng, npix, rng.randint(1, 7), 30, neg=rng.random() < .2),
                 dict(kind=d['kind'], shape=shape, norm=norm))


def one_case(rng, tid):
    from specula.processing_objects.cur_wfs_slopec import CurWfsSlopec
    from specula.processing_objects.zwfs_slopec import ZwfsSlopec
    n = rng.choice([4, 5, 6, 8])
    diam = 2 * rng.choice(radii(n))
    idx = [k + 1 for k, m in enumerate(disc(n, round(diam ** 2))) if m]
    d = dict(S=256)
    if rng.random() < .5:
        d.update(kind='cur', idx=idx)
        sn, d['sn'] = make_null(rng, d, len(idx), False)
        return drive(tid, d, lambda: CurWfsSlopec(int(diam), (n, n), sn=sn), ['in_pixels1', 'in_pixels2'], (n, n),
                     some_frames(rng, n * n, rng.randint(1, 7), 30, ninp=2), dict(kind='cur', n=n, diam=diam))
    obs = None
    if rng.random() < .4:
        inner = rng.choice([r for r in radii(n) if 2 * r < diam] or [0])
        if inner and any(a > b for a, b in zip(disc(n, round(diam ** 2)), disc(n, round((2 * inner) ** 2)))):
            obs = 2 * inner / diam
            hole = disc(n, round((2 * inner) ** 2))
            idx = [k for k in idx if not hole[k - 1]]
    thr = rng.choice([0, 0, 2])
    d.update(kind='zern', idx=idx, thr=thr)
    sn, d['sn'] = make_null(rng, d, len(idx), False)
    fr = some_frames(rng, n * n, rng.randint(1, 7), 30, p=.8)
    # without light or with some, but never a balance of light and threshold
    fr = [f if f is None or sum(f[0][k - 1] - thr for k in idx) > 0 else [[thr] * (n * n)] for f in fr]
    return drive(tid, d, lambda: ZwfsSlopec(diam, n, obsratio=obs, thr_value=float(thr), sn=sn), ['in_pixels'], (n, n), fr,
                 dict(kind='zern', n=n, diam=diam, obs=obs))


def deriv_case(rng, tid):
    """Mean derivatives; the subapertures next to dark ones are not judged."""
    from specula import RAD2ASEC
    from specula.processing_objects.ideal_derivative_sensor import IdealDerivativeSensor
    from specula.data_objects.electric_field import ElectricField
    from specula.data_objects.subap_data import SubapData
    from specula.data_objects.simul_params import SimulParams
    nx, b = rng.choice([2, 3, 4]), rng.choice([2, 3, 4])
    n = nx * b
    dark = set() if rng.random() < .5 else {(r, c) for r in range(nx) for c in range(nx) if rng.random() < .2}
    if len(dark) == nx * nx:
        dark = set()
    lit = [0 if ((k // n) // b, (k % n) // b) in dark else 1 for k in range(n * n)]
    maps = rng.sample(range(nx * nx), rng.randint(1, nx * nx))
    idx = [[((m // nx) * b + a) * n + (m % nx) * b + c for a in range(b) for c in range(b)] for m in maps]
    near = lambda m: (m // nx, m % nx) not in dark and any((m // nx + a, m % nx + c) in dark for a in (-1, 0, 1) for c in (-1, 0, 1))
    free = [j + 1 for j, m in enumerate(maps) if near(m)]
    fov, npx = rng.choice([1.0, 2.5, 4.0]), rng.choice([2, 4, 6])
    fac = 1e-9 * RAD2ASEC / (.5 * fov / 2) * (npx - 1) / npx
    d = dict(kind='deriv', id=tid, idx=[[k + 1 for k in i] for i in idx], lit=lit, cols=n, free=free + [j + len(maps) for j in free], S=256,
             thr=0, norm='', nf=0, win=0, wth=-1, W=[], inter=False, sn=[], A=[], R=[], F=F, tol=1,
             replay=dict(kind='deriv', n=n, nx=nx, fov=fov, npx=npx))
    ev = []
    try:
        with core.quiet():
            ef = ElectricField(n, n, .5, S0=1)
            ef.A[:] = np.array(lit, dtype=float).reshape(n, n)
            sd = SubapData(idxs=np.zeros((len(maps), npx * npx), dtype=int), display_map=np.array(maps), nx=nx, ny=nx)
            o = IdealDerivativeSensor(SimulParams(pixel_pupil=n, pixel_pitch=.5), sd, fov)
            o.inputs['in_ef'].set(ef)
            o.setup()
            px = [0] * (n * n)
            for k in range(rng.randint(1, 5)):
                hit = not k or rng.random() < .7
                if hit:
                    u = rng.random()
                    if u < .3:          # flat over part of the aperture
                        e = rng.randint(0, n)
                        px = [rng.choice([2, 7]) if (q % n if u < .15 else q // n) < e else 0 for q in range(n * n)]
                    elif u < .5:
                        a, c = rng.randint(-5, 5), rng.randint(-5, 5)
                        px = [a * (q % n) + c * (q // n) for q in range(n * n)]
                    else:
                        px = [rng.randint(-20, 20) for _ in range(n * n)]
                    ef.phaseInNm[:] = np.array(px, dtype=float).reshape(n, n)
                    ef.generation_time = k * DT
                if o.check_ready(k * DT):
                    o.trigger()
                    o.post_trigger()
                s = np.asarray(o.outputs['out_slopes'].slopes, dtype=float) / fac
                ev.append(dict(t=k, fresh=hit, px=list(px), s=ints(np.clip(np.nan_to_num(s), -1e6, 1e6), d['S']), f=[], tot=0, mean=0,
                               nan=not bool(np.all(np.isfinite(s))), gt=[int(round(o.outputs['out_slopes'].generation_time / DT))],
                               kept=ef.phaseInNm.ravel().tolist() == px and ef.A.ravel().tolist() == lit))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:200]))
    return dict(d, ev=ev)


def subap_case(rng, tid, tmp='/tmp'):
    from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.intensity import Intensity
    nl, b = rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3])
    n = nl * b
    th = rng.randint(0, 8)
    ev = []
    try:
        with core.quiet():
            o = ShSubapCalibrator(subap_on_diameter=nl, data_dir=tmp, energy_th=th / 8, output_tag='x')
            useint = rng.random() < .5
            src = Intensity(n, n) if useint else Pixels(n, n)
            o.inputs['in_i' if useint else 'in_pixels'].set(src)
            o.setup()
            for k in range(rng.randint(1, 3)):
                bright = [[rng.choice([0, 0, 1, 3]) for _ in range(nl)] for _ in range(nl)]
                px = [rng.randint(0, 4) * bright[(q // n) // b][(q % n) // b] for q in range(n * n)]
                (src.i if useint else src.pixels)[:] = np.array(px, dtype=float).reshape(n, n)
                src.generation_time = k * DT
                e = dict(px=px)
                try:
                    if o.check_ready(k * DT):
                        o.trigger()
                        o.post_trigger()
                    s = o.subaps
                    e.update(ok=True, got=[dict(m=int(m), p=[int(v) + 1 for v in row]) for m, row in zip(s.display_map, s.idxs)],
                             nx=s.nx, ny=s.ny)
                except ValueError:
                    e.update(ok=False, got=[], nx=nl, ny=nl)
                ev.append(e)
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:200]))
    return dict(id=tid, ev=ev, n=n, nl=nl, th=th, replay=dict(kind='subaps', n=n, nl=nl, th=th))


def run(seed, count, prefix=''):
    rng = random.Random(seed)
    out = []
    for k in range(count):
        u = rng.random()
        c = random.Random(f'{seed}.{k}')
        out.append((sh_case if u < .5 else pyr_case if u < .78 else one_case if u < .9 else deriv_case)(c, f'{prefix}{seed}.{k}'))
    return out


def replays(seed, behs, prefix=''):
    rng = random.Random(seed)
    return [sh_case(rng, f'{prefix}beh.{k}', json.loads(b)) for k, b in behs]


def subaps(seed, count, prefix=''):
    return [subap_case(random.Random(f'{seed}.{k}'), f'{prefix}{seed}.{k}') for k in range(count)]


def check(ctx):
    behs = ctx.model_check('MCSlopec', cfg='MCSlopecT' if ctx.tier == 'thorough' else 'MCSlopec')
    k = ctx.n(600, 6000)
    pick = ctx.rng.sample(range(len(behs)), min(k, len(behs)))
    items = [(p, json.dumps(behs[p])) for p in pick]
    parts = [items[j::3] for j in range(3)]
    ts = sum(core.jobs('c31', 'replays', [(ctx.seed, q, '') for q in parts], 0), [])
    ts += core.spread(ctx, 'c31', 'run', ctx.n(2200, 30000), 6)
    ts += core.spread(ctx, 'c31', 'run', ctx.n(700, 8000), 3, precision=1, prefix='p1.')
    ctx.validate('SlopecTrace', ts)
    ctx.validate('SubapTrace', core.spread(ctx, 'c31', 'subaps', ctx.n(400, 4000), 3))
