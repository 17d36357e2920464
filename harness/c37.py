"""C37: the geometry the library declares (masks, resampling, Zernikes, influence functions, fluxes, reconstructors, bases)."""
import json
import math
import random
import numpy as np
import core
from core import vec

HC = 6.626e-34 * 3e8


def near(x, sc):
    x = float(x) * sc
    return int(round(x)) if x == x and abs(x) < 2 * 10**9 else core.BADINT


def nears(a, sc):
    return [near(x, sc) for x in np.asarray(a).ravel().tolist()]


def rows(a, sc=1):
    a = np.asarray(a)
    return [nears(r, sc) for r in a] if a.ndim == 2 else [[core.BADINT]]


def event(fn):
    import warnings
    try:
        with core.quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return fn()
    except np.linalg.LinAlgError:
        return None         # actuators for which the thin plate splines have no unique solution
    except Exception as x:
        b = core.blame(x)
        if not b and not isinstance(x, (AttributeError, KeyError, TypeError, IndexError, ValueError)):
            raise
        return dict(err=(b or repr(x))[-300:])


def unit(deg):
    return [near(math.cos(math.radians(deg)), 10000), near(math.sin(math.radians(deg)), 10000)]


# ------------------------------------------------------------------ masks
def mask(w):
    def go():
        from specula.lib.make_mask import make_mask
        kw = dict(square=True) if w['square'] else {}
        if w['inverse']:
            kw['inverse'] = True
        if w['arms']:
            kw.update(spider=True, spider_width=w['width'], n_petals=len(w['arms']), angle_offset=w['off'])
        if w['dd'] != 2 * w['n'] or w.get('explicit'):
            kw['diaratio'] = w['dd'] / (2 * w['n'])
        if w['p']:
            kw['obsratio'] = w['p'] / w['q']
        if w['cx'] or w['cy']:
            kw.update(xc=w['cx'] / w['n'], yc=w['cy'] / w['n'])
        m = make_mask(w['n'], xp=np, **kw)
        m2, idx = make_mask(w['n'], xp=np, get_idx=True, **kw)
        if not np.array_equal(m, m2):
            return dict(err='get_idx changes the mask')
        return dict(w, what='mask', m=rows(m), at=[[int(y), int(x)] for y, x in zip(*idx)])
    return event(go)


def gen_mask(rng):
    n = rng.randint(2, 24)
    dd = rng.choice([2 * n, 2 * n, 2 * rng.randint(n // 2, n) + 1])
    p, q = rng.choice([(0, 1), (1, 3), (1, 5), (3, 7), (3, 5)])
    w = dict(n=n, dd=dd, p=p, q=q, cx=0, cy=0, square=rng.random() < .25, inverse=rng.random() < .25, arms=[], width=0, off=0)
    if dd % 2 and rng.random() < .5:
        w.update(cx=rng.randint(-n // 2, n // 2), cy=rng.randint(-n // 2, n // 2))
    if n > 9 and rng.random() < .5:
        k, off = rng.randint(1, 6), rng.choice([0, 30, 45, 90, 17, -20])
        w.update(arms=[unit(i * 360 / k + off) for i in range(k)], off=off, width=rng.randint(1, 5), square=rng.random() < .5)
    return mask(w)


# ------------------------------------------------------------------ resampling
def rebin(a, nr, nc, how, tot=None):
    def go():
        from specula.lib.rebin import rebin2d
        from specula.lib.toccd import toccd
        f = np.array(a, dtype=np.float32 if (nr * nc) % 2 else np.float64)
        keep = f.copy()
        if how == 'area':
            kw = {} if tot is None else dict(set_total=tot * f.sum())
            v = toccd(f, (nr, nc) if (nr + nc) % 2 else [nr, nc], xp=np, **kw) * nr * nc / (1 if tot is None or f.shape == (nr, nc) else tot)
        elif how == 'mean':
            v = rebin2d(f, (nr, nc), xp=np) * (f.shape[0] // nr) * (f.shape[1] // nc)
        else:
            v = rebin2d(f, (nr, nc), sample=True, xp=np)
        if not np.array_equal(keep, f):
            return dict(err='the frame given was modified')
        return dict(what='rebin', how=how, a=[[int(x) for x in r] for r in a], nr=nr, nc=nc, v=rows(v), tol=2 if f.dtype == np.float32 else 0)
    return event(go)


def gen_rebin(rng):
    how = rng.choice(['area', 'area', 'mean', 'sample'])
    big = rng.random() < .15
    r, c = (rng.randint(40, 64), rng.randint(1, 3)) if big else (rng.randint(1, 9), rng.randint(1, 9))
    if how == 'area':
        nr, nc = (rng.randint(1, 12), rng.randint(1, 6)) if rng.random() < .7 or big else (r * rng.randint(1, 2), c * rng.randint(1, 2))
        if rng.random() < .15:
            r, c, nr, nc = rng.randint(2, 4), rng.randint(1, 2), 49, rng.randint(1, 3)
    elif how == 'mean':
        nr, nc = r, c
        r, c = r * rng.randint(1, 4), c * rng.randint(1, 4)
    elif rng.random() < .3:
        r, nr = rng.randint(1, 9), 49 * rng.randint(1, 2)
        c = nc = rng.randint(1, 3)
    else:
        nr, nc = r * rng.randint(1, 8), c * rng.randint(1, 8)
    a = [[rng.randint(0, 9) for _ in range(c)] for _ in range(r)]
    a[rng.randrange(r)][rng.randrange(c)] += 1
    return rebin(a, nr, nc, how, rng.choice([None, None, 2, 0.5, 1]))


# ------------------------------------------------------------------ Zernikes
def zern(pupil4, js, order, rng):
    """pupil4: four times the radius"""
    out = []

    def go():
        from specula.lib.zernike_generator import ZernikeGenerator as Z
        dia = pupil4 / 2
        z = Z(int(dia) if dia == int(dia) else dia, np, np.float64)
        sz = int(math.ceil(dia))
        for j in js:
            do = dict(v=lambda: z.getZernike(j), dx=lambda: z.getDerivativeX(j), dy=lambda: z.getDerivativeY(j))
            got = {k: np.array(do[k]()) for k in rng.sample(sorted(do), 3)}
            v, dx, dy = got['v'], got['dx'], got['dy']
            n, m = Z.degree(j)
            if v.shape != (sz, sz):
                return dict(err='wrong shape')
            pts = [dict(i=y, j=x, v=near(v[y, x], 10000), dx=near(dx[y, x], 10000), dy=near(dy[y, x], 10000)) for y in range(sz) for x in range(sz)]
            out.append(dict(what='zern', k=j, n=int(n), m=int(m), sz=sz, d2=pupil4, pts=rng.sample(pts, min(len(pts), 30))))
    e = event(go)
    return out + ([e] if e else [])


def gen_zern(rng):
    p4 = rng.choice([4 * rng.randint(1, 3), 2 * rng.randint(3, 7), rng.randint(5, 13), 8, 12])
    top = 21 if p4 <= 8 else 15
    js = [rng.randint(1, top) for _ in range(4)]
    return zern(p4, js, 0, rng)


def zbase(rng):
    def go():
        from specula.lib.compute_zern_ifunc import compute_zern_ifunc
        from specula.lib.zernike_generator import ZernikeGenerator as Z
        from specula.lib.make_mask import make_mask
        dim = rng.randint(10, 22)
        num = rng.randint(3, 12)
        start = rng.choice([0, 0, 1, 2])
        obs = rng.choice([0, 0, .2, .4])
        kw = {}
        if rng.random() < .4:
            kw['mask'] = make_mask(dim, obs, xp=np)
        else:
            kw['obsratio'] = obs
        b, m = compute_zern_ifunc(dim, num, xp=np, dtype=np.float64, start_mode=start, **kw)
        if not np.array_equal(np.asarray(m) > 0, make_mask(dim, obs, xp=np) > 0):
            return dict(err='another mask')
        z = Z(dim, np, np.float64)
        sel = np.asarray(m) > 0
        basis = [np.ones(sel.sum())] + [z.getZernike(j)[sel] for j in range(2 + start, num + 2)]
        out, own = [], []
        for k in range(len(b)):
            B = np.array(basis[:k + 2]).T
            c = np.linalg.lstsq(B, b[k], rcond=None)[0]
            out.append(near(np.abs(B @ c - b[k]).max(), 10000))
            own.append(near(c[-1], 1000))
        return dict(what='zbase', num=num, start=start, mean=nears(b.mean(1), 100000), std=nears(b.std(1), 100000), out=out, own=own, full=False, gram=[])
    return event(go)


# ------------------------------------------------------------------ influence functions
def zonal(rng):
    def go():
        from specula.lib.compute_zonal_ifunc import compute_zonal_ifunc as cz
        n, step = rng.randint(3, 6), rng.randint(1, 4)
        if rng.random() < .25:
            n, step = rng.randint(7, 9), rng.randint(1, 2)
        dim = (n - 1) * step + 1
        geom = rng.choice(['square', 'alpao', None])
        c1, c2 = rng.choice([(0, 0), (310, 50), (200, 100), (150, 0)])
        kw = dict(do_mech_coupling=True, coupling_coeffs=[c1 / 1000, c2 / 1000]) if c1 else {}
        i, mk, co, sm = cz(dim, n, geom=geom, dtype=np.float64, mask=np.ones((dim, dim)), **kw)
        i = np.asarray(i).reshape(-1, dim, dim)
        xs, ys = vec(co[0]), vec(co[1])
        if core.BADINT in xs + ys or not all(0 <= v < dim for v in xs + ys):
            return dict(err='actuators out of the frame')
        return dict(what='zonal', n=n, step=step, geom=geom or 'square', xs=xs, ys=ys, c1=c1, c2=c2,
                    at=[[near(i[a, y, x], 1000) for x, y in zip(xs, ys)] for a in range(len(xs))])
    return event(go)


def rings(rng):
    def go():
        from specula.lib.compute_zonal_ifunc import compute_zonal_ifunc as cz
        n, dim, off = rng.randint(3, 6), rng.randint(8, 14), rng.choice([0, 0, 15, 30, -40])
        kw = dict(circ_geom=True) if rng.random() < .5 else dict(geom='circular')
        i, mk, co, sm = cz(dim, n, dtype=np.float64, angle_offset=off, **kw)
        r = n // 2 + 1 if n % 2 == 0 else (n + 1) // 2
        c = (dim - 1) / 2
        return dict(what='rings', n=n, xs=nears(np.asarray(co[0]) - c, 100), ys=nears(np.asarray(co[1]) - c, 100), step=near((dim - 1) / (2 * r - 2), 100),
                    cos=unit(off)[0], sin=unit(off)[1])
    return event(go)


def slaving(rng):
    def go():
        from specula.lib.compute_zonal_ifunc import compute_zonal_ifunc as cz
        from specula.lib.make_mask import make_mask
        n, step = rng.randint(4, 6), rng.randint(2, 3)
        dim = (n - 1) * step + 1
        thr = rng.choice([10, 30, 50, 80])
        mk = make_mask(dim, rng.choice([0, .3]), diaratio=rng.choice([.6, .75, .9, 1.]), xp=np)
        if rng.random() < .3:
            mk[:, :rng.randint(1, dim // 2)] = 0
        if not mk.any():
            return None
        linear = rng.random() < .5
        kw = dict(do_mech_coupling=True, coupling_coeffs=[.2, .1]) if rng.random() < .3 else {}
        full, _, co, _ = cz(dim, n, dtype=np.float64, mask=np.ones((dim, dim)), **kw)
        full = np.asarray(full).reshape(-1, dim, dim)
        sel = mk > 0
        peak, top = full[:, sel].max(1), full.max((1, 2))
        if np.any(np.abs(peak - thr / 100 * top) < 1e-3) or not np.any(peak > thr / 100 * top):
            return None
        sl, m2, mc, W = cz(dim, n, dtype=np.float64, mask=mk, do_slaving=True, slaving_thr=thr / 100, linear_slaving=linear, **kw)
        px = rng.sample(range(int(sel.sum())), min(12, int(sel.sum())))
        if np.abs(full[:, sel]).max() > 20 or np.abs(np.asarray(W)).max() > 10:
            return None
        return dict(what='slaving', xs=vec(co[0]), ys=vec(co[1]), step=step, thr=thr, linear=linear, peak=nears(peak, 10000), top=nears(top, 10000),
                    mx=vec(mc[0]), my=vec(mc[1]), W=rows(W, 10000), full=rows(full[:, sel][:, px], 1000), sl=rows(np.asarray(sl)[:, px], 1000))
    return event(go)


def petals(rng):
    def go():
        from specula.lib.compute_petal_ifunc import compute_petal_ifunc
        n, num, off = rng.randint(8, 18), rng.randint(1, 6), rng.choice([0, 0, 90, 30, 17, -25])
        tilts, spider = rng.random() < .6, rng.random() < .4
        width = rng.randint(1, 3) if spider else 0
        kw = dict(spider=True, spider_width=width) if spider else {}
        if rng.random() < .3:
            yy, xx = np.mgrid[0:n, 0:n]
            kw, width = dict(mask=((yy - n / 2)**2 + (xx - n / 3)**2 < (n / 2.5)**2) * 1), 0
        f, m, cen = compute_petal_ifunc(n, num, dtype=np.float64, angle_offset=off, obsratio=rng.choice([0, .2]), add_tilts=tilts, **kw)
        sel = np.asarray(m) > 0
        if 'mask' in kw and not np.array_equal(sel, kw['mask'] > 0):
            return dict(err='another mask')
        ys, xs = np.where(sel)
        f = np.asarray(f)
        if f.shape != ((3 if tilts else 1) * num, len(xs)):
            return dict(err=f'shape {f.shape}')
        pts = [dict(x=int(2 * x - n), y=int(2 * y - n), p=nears(f[:num, k], 1), t=nears(f[num:, k], 1000) if tilts else [0] * (2 * num)) for k, (y, x) in enumerate(zip(ys, xs))]
        return dict(what='petals', n=n, num=num, dirs=[unit(i * 360 / num + off) for i in range(num)], pts=pts, width=width, tilts=tilts, cen=rows(cen, 100))
    return event(go)


# ------------------------------------------------------------------ fluxes, frequencies, reconstructors, bases
def flux(rng):
    def go():
        from specula.lib.n_phot import n_phot
        model = rng.choice(['default', 'default', 'MAORY-1'])
        band, l = '', -1
        if rng.random() < .5:
            band = rng.choice(['U', 'B', 'V', 'R', 'I', 'J', 'H', 'K', 'L', 'M', 'Na', 'X'] if model == 'default' else ['V', 'R', 'I', 'J', 'H', 'K', 'Q'])
        else:
            l = rng.choice([360, 400, 450, 500, 550, 600, 640, 700, 850, 1250, 1600, 1650, 2200, 2500, 589, 590, 3000, 4500])
        w = rng.choice([-1, -1, 10, 50, 100])
        e0 = rng.choice([-1, -1, 500, 20000]) if l < 700 and not band else -1
        back = rng.choice([-1000, -1000, 195, 100, 0])
        mag, dt, surf = rng.choice([0., 5., 7.5, -1., 12.3]), rng.choice([1., .5, 12.]), rng.choice([1., 50.])
        kw = dict(model=model) if model != 'default' or rng.random() < .3 else {}
        if band:
            kw['band'] = band
        else:
            kw['lambda_'] = l / 1e9
        if w > 0:
            kw['width'] = w / 1e9
        if e0 > 0:
            kw['e0'] = e0 * 1e-12
        if back > -1000:
            kw['back_mag'] = back / 10
        d = dict(what='flux', model=model, band=band, l=l, w=w, e0=e0, back=back, nb=0, bm=0, refused=False)
        try:
            nb, bg = n_phot(mag, delta_t=dt, surf=surf, **kw)
        except Exception as x:
            if 'not found' not in str(x):
                raise
            return dict(d, refused=True)
        f = nb * HC / dt / surf / 10**(-mag / 2.5)
        return dict(d, nb=near(f, 1e9 * 1e3 * 1e12 / 10), bm=near(-2.5 * math.log10(bg * HC / dt / surf / f), 10))
    return event(go)


def freq(rng):
    def go():
        from specula.lib.calc_spatialfrequency import calc_spatialfrequency
        n = 2 * rng.randint(1, 12)
        return dict(what='freq', n=n, v=rows(calc_spatialfrequency(n, np, rng.randint(0, 1))))
    return event(go)


def spd(rng, n, diag):
    m = np.zeros((n, n), dtype=int)
    for k in range(n):
        m[k, k] = rng.randint(1, 4) + (0 if diag else 2 * n)
    if not diag:
        for a in range(n):
            for b in range(a):
                m[a, b] = m[b, a] = rng.randint(-1, 1)
    return m


def mmse(rng):
    def go():
        from specula.lib.mmse_reconstructor import compute_mmse_reconstructor as cm
        nm, ns = rng.randint(1, 4), rng.randint(1, 7)
        how = rng.choice(['none', 'var', 'full', 'diag'])
        wfs = rng.choice([k for k in (1, 2, 3) if ns % k == 0])
        A = np.array([[rng.randint(-3, 3) for _ in range(nm)] for _ in range(ns)])
        cx = spd(rng, nm, rng.random() < .5)
        var = [rng.choice([1, 2, 4]) for _ in range(wfs)]
        cz = np.eye(ns, dtype=int) if how == 'none' else np.diag(np.repeat(var, ns // wfs)) if how == 'var' else spd(rng, ns, how == 'diag')
        inv = rng.random() < .4
        u = 1. if how == 'none' else rng.choice([1., 1., 1e-14, 1e6])      # the units of the covariances do not matter
        fx, fz = cx * u, cz * u
        kw = dict(c_inverse=True) if inv else {}
        if how == 'var':
            kw['noise_variance'] = [v * u for v in var]
        elif how != 'none':
            kw['c_noise'] = np.linalg.inv(fz) if inv else fz
        a0 = A.astype(float)
        W = cm(a0, np.linalg.inv(fx) if inv else fx * 1., np, np.float64, **kw)
        if not np.array_equal(a0, A):
            return dict(err='the interaction matrix was modified')
        return dict(what='mmse', A=rows(A), cx=rows(cx), cz=rows(cz), W=rows(W, 100000), sc=100000)
    return event(go)


def kl(rng):
    def go():
        from specula.lib.compute_zonal_ifunc import compute_zonal_ifunc as cz
        from specula.lib.modal_base_generator import make_modal_base_from_ifs_fft as mb
        dim, n = rng.randint(12, 20), rng.randint(4, 5)
        i, mk, co, sm = cz(dim, n, dtype=np.float64, obsratio=rng.choice([0, .2]))
        i, mk = np.asarray(i), np.asarray(mk)
        F = None
        if rng.random() < .6:
            yy, xx = np.mgrid[0:dim, 0:dim] - (dim - 1) / 2
            pool = [xx, yy, xx * yy, xx**2 - yy**2, xx**2 + yy**2]
            F = np.array([f[mk > 0] for f in rng.sample(pool, rng.randint(1, 3))])
        keep = i.copy()
        k, m, s = mb(mk, 8., i, .15, 25., dtype=np.float64, **({} if F is None else dict(filt_modes=F)))
        if not np.array_equal(keep, i):
            return dict(err='the influence functions were modified')
        k = np.asarray(k)
        npx = k.shape[1]
        D = np.vstack([np.ones((1, npx))] + ([F] if F is not None else []))
        B = np.vstack([i, D]).T
        out = [np.abs(B @ np.linalg.lstsq(B, q, rcond=None)[0] - q).max() for q in k]
        filt = [] if F is None else [float(a @ b) / npx / np.sqrt(np.mean(b**2)) for a in k for b in F]
        return dict(what='kl', gram=rows(k @ k.T / npx, 10000), mean=nears(k.mean(1), 10000), filt=nears(filt, 10000), out=nears(out, 10000), count=len(i) - len(D))
    return event(go)


def radial(rng):
    def go():
        from specula.lib import radial_profile as rp
        h, w = rng.randint(2, 9), rng.randint(2, 9)
        img = [[rng.randint(0, 9) for _ in range(w)] for _ in range(h)]
        img[0][0] += 1
        cy2, cx2, kw = h, w, {}
        if rng.random() < .5:
            cy2, cx2 = rng.randint(0, 2 * h), rng.randint(0, 2 * w)
            kw = dict(center_in_px_y=cy2 / 2, center_in_px_x=cx2 / 2)
        p, r, c = rp.compute_radial_profile(np.array(img, dtype=float), return_counts=True, **kw)
        ee = rp.compute_encircled_energy(p, n_px_in_radial_bin=c)
        return dict(what='radial', img=img, cy2=cy2, cx2=cx2, prof=nears(p, 1000), cnt=vec(c), ee=nears(ee, 10000))
    return event(go)


GENS = [gen_mask, gen_mask, gen_rebin, gen_rebin, gen_zern, zbase, zonal, rings, slaving, slaving, petals, petals, flux, flux, freq, mmse, mmse, kl, radial]


def gen(seed, count, prefix):
    rng = random.Random(seed)
    ts = []
    while len(ts) < count:
        e = rng.choice(GENS)(rng)
        if e:
            ts.append(dict(id=f'{prefix}{len(ts)}', ev=e if isinstance(e, list) else [e]))
    return ts


def replays(seed, items, prefix):
    """worlds of the model"""
    return [dict(id=f'{prefix}b{k}', ev=[mask(b['w']) if b['what'] == 'mask' else rebin(b['a'], b['nr'], b['nc'], 'area')]) for k, b in items]


def check(ctx):
    behs = sorted({json.dumps(b, sort_keys=True) for b in ctx.model_check('MCShapes')})
    k = ctx.n(1500, len(behs))
    items = [(j, json.loads(b)) for j, b in enumerate(ctx.rng.sample(behs, min(k, len(behs))))]
    ts = sum(core.jobs('c37', 'replays', [(ctx.seed, items[j::3], '') for j in range(3)], 0), [])
    ts += core.spread(ctx, 'c37', 'gen', ctx.n(1400, 12000), 6)
    ctx.validate('ShapesTrace', ts)
    for k in ('mask', 'rebin', 'zern', 'zbase', 'zonal', 'rings', 'slaving', 'petals', 'flux', 'freq', 'mmse', 'kl', 'radial'):
        ctx.need(sum(any(e.get('what') == k for e in t['ev']) for t in ts) > 10, k)
