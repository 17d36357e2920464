"""C30: the dark frame and pyramid pupil calibrators driven by interactive commands."""
import json
import math
import os
import random
import shutil
import tempfile
import numpy as np
import core

DT = 1000000


def ints(v, sc=1):
    v = np.nan_to_num(np.asarray(v, dtype=float).ravel() * sc, nan=2e9, posinf=2e9, neginf=-2e9)
    return [int(x) for x in np.clip(np.rint(v), -2e9, 2e9)]


def files(d, ext):
    """Contents of the files under a directory, by name."""
    from astropy.io import fits
    r = []
    for top, _, names in os.walk(d):
        for n in sorted(names):
            p = os.path.join(top, n)
            with fits.open(p) as f:
                r.append([os.path.relpath(p, d)[:-len('.fits')] if n.endswith('.fits') else n, f[ext].data.copy()])
    return sorted(r, key=lambda x: x[0])


def cmd(rng, name):
    return name + rng.choice(['', '.fits'])


def step(o, t):
    ran = bool(o.check_ready(t * DT))
    if ran:
        o.trigger()
        o.post_trigger()
    return ran


def dark_case(rng, tid, beh=None):
    from specula.base_value import BaseValue
    from specula.data_objects.pixels import Pixels
    from specula.processing_objects.dynamic_dark_calibrator import DynamicDarkCalibrator
    d = tempfile.mkdtemp(prefix='c30.')
    ev = []
    ny, nx = (1, 1) if beh else (rng.randint(1, 3), rng.randint(1, 3))
    n, over = nx * ny, False if beh else rng.random() < .4
    N = 2 if beh else rng.randint(1, 5)
    try:
        def write(name, shape, v):
            q = Pixels(shape[1], shape[0])
            q.pixels[:] = np.array(v).reshape(shape)
            q.save(os.path.join(d, name + '.fits'))
        if beh:
            write('a', (1, 1), [7])
        else:
            write('a', (ny, nx), [rng.randint(0, 999) for _ in range(n)])
            if rng.random() < .5:
                write('w', (ny + 1, nx), [rng.randint(0, 999) for _ in range(n + nx)])
            if rng.random() < .5:
                write('s/b', (ny, nx), [rng.randint(0, 999) for _ in range(n)]) if os.makedirs(os.path.join(d, 's')) is None else None
        f0 = [[k, ints(v)] for k, v in files(d, 1)]
        o = DynamicDarkCalibrator(data_dir=d, nframes=N, overwrite=over)
        px = Pixels(nx, ny, bits=rng.choice([8, 16, 32]), signed=rng.choice([0, 1]))
        o.inputs['in_pixels'].set(px)
        cm = {k: BaseValue() for k in ('trigger', 'nframes', 'load', 'save', 'reset')}
        unwired = set() if beh else {k for k in cm if rng.random() < .08}
        for k, v in cm.items():
            if k not in unwired:
                o.inputs['in_' + k].set(v)
        o.setup()

        def send(k, v, t):
            cm[k].value = v
            cm[k].generation_time = t * DT
        T = len(beh) if beh else rng.randint(2, 14)
        busy = rng.choice([.15, .4])
        for t in range(T):
            c = dict(nf=0, bad=False, trig=False, reset=False, load='', save='')
            if beh:
                c, fresh = beh[t]['c'], beh[t]['fresh']
                frame = [2520 * 2 ** t]
            else:
                fresh = rng.random() < .75
                frame = [2520 * rng.randint(0, 60) for _ in range(n)]
                if rng.random() < .25 and 'nframes' not in unwired:
                    c['bad'] = rng.random() < .3
                    c['nf'] = 0 if c['bad'] else rng.randint(1, 7)
                c['trig'] = rng.random() < busy and 'trigger' not in unwired
                if rng.random() < .15 and 'reset' not in unwired:
                    c['reset'] = True
                elif rng.random() < .2 and 'load' not in unwired:
                    c['load'] = rng.choice(['a', 'a', 's/b', 'new', 'w', 'z'])
                if rng.random() < .2 and 'save' not in unwired:
                    c['save'] = rng.choice(['a', 'new', 's/c'])
            if c['nf'] or c['bad']:
                v = rng.choice([0, -3, 'many', None]) if c['bad'] else rng.choice([int, float, str])(c['nf'])
                send('nframes', v, t)
            if c['trig']:
                send('trigger', rng.choice([1, 0, True]), t)
            if c['reset']:
                send('reset', 1, t)
            if c['load']:
                send('load', cmd(rng, c['load']), t)
            if c['save']:
                send('save', cmd(rng, c['save']), t)
            if fresh:
                px.pixels[:] = np.array(frame, dtype=float).reshape(ny, nx)
                px.generation_time = t * DT
            with core.quiet():
                ran = step(o, t)
            g = o.outputs['out_darkframe'].generation_time
            ev.append(dict(t=t, c=c, fresh=fresh, frame=frame, ran=ran, dark=ints(o.outputs['out_darkframe'].pixels),
                           sub=ints(o.outputs['out_subtracted_pixels'].pixels), when=-1 if g < 0 else int(round(g / DT)),
                           files=[[k, ints(v)] for k, v in files(d, 1)]))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:200]))
    finally:
        shutil.rmtree(d)
    return dict(id=tid, kind='dark', n=n, N=N, over=over, files=f0, ev=ev, replay=dict(kind='dark', shape=[ny, nx], N=N))


def image(rng, h, w):
    """Four patches on a low background, sometimes missing or merged."""
    cy, cx = h // 2, w // 2
    d = min(cy, cx)
    bg = rng.choice([0, 0, 1])
    im = [[rng.randint(0, bg) for _ in range(w)] for _ in range(h)]
    common = rng.uniform(1, d / 2)
    u = rng.random()
    for k, (oy, ox) in enumerate(((cy - d, cx - d), (cy - d, cx), (cy, cx - d), (cy, cx))):
        if u < .06 and k == rng.randint(0, 3):
            continue
        r = common if rng.random() < .6 else rng.uniform(.8, d / 2)
        py, px = oy + d / 2 + rng.uniform(-1.5, 1.5), ox + d / 2 + rng.uniform(-1.5, 1.5)
        top = rng.randint(4, 9)
        for y in range(oy, oy + d):
            for x in range(ox, ox + d):
                q = math.hypot(y - py, x - px)
                if q <= r and not (u > .9 and q < r / 3):
                    im[y][x] = top - (rng.random() < .2) * rng.randint(0, 3)
    return [v for row in im for v in row]


def clear(img, h, w, t1, t2, own):
    """Whether no comparison of the measurement depends on rounding."""
    cy, cx = h // 2, w // 2
    d = min(cy, cx)
    im = np.array(img).reshape(h, w)
    geo = []
    for oy, ox in ((cy - d, cx - d), (cy - d, cx), (cy, cx - d), (cy, cx)):
        v = im[oy:oy + d, ox:ox + d]
        th = np.where(64 * v < 64 * v.min() + (v.max() - v.min()) * t1, 0, v)
        s, n = int(th.sum()), int((th > 0).sum())
        if n == 0:
            geo.append((0, 0, 0))
            continue
        if s % n and (th * 64 * n == s * t2).any():
            return False
        y, x = np.nonzero(th * 64 * n >= s * t2)
        geo.append((len(y), int(x.sum() + ox * len(y)), int(y.sum() + oy * len(y))))
    if not all(g[0] for g in geo):
        return True
    yy, xx = np.mgrid[:h, :w]
    m = max(g[0] for g in geo)
    for k, (n, sx, sy) in enumerate(geo):
        R = n * n * (n if own else m) / math.pi
        if (own or k == 0) and (abs((n * xx - sx) ** 2 + (n * yy - sy) ** 2 - R) < 1.5).any():
            return False
        n0 = geo[0]
        for s, s0 in ((sx, n0[1]), (sy, n0[2])):
            if (2 * (s * n0[0] - s0 * n) + n * n0[0]) % (2 * n * n0[0]) == 0 and not own:
                return False
        # in the common mask a pupil may not lose every pixel
        if not own and not (max(0, sx / n - 1) < w and max(0, sy / n - 1) < h):
            return False
    return True


def pyr_case(rng, tid, beh=None):
    from specula.base_value import BaseValue
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.intensity import Intensity
    from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator
    from specula.processing_objects.dynamic_pyr_pupdata_calibrator import DynamicPyrPupdataCalibrator
    dyn = beh is None and rng.random() < .8
    if beh:
        h = w = int(math.isqrt(len(beh['img'])))
        t1, t2, dt, own = beh['t1'], beh['t2'], 0, beh['own']
    else:
        h, w = rng.randint(8, 20), rng.randint(8, 20)
        if rng.random() < .5:
            w = h
        t1, t2, dt, own = rng.randint(4, 40), rng.randint(4, 60), rng.choice([0, 0, 1, 2, 3]), rng.random() < .5
    over, exit_ = rng.random() < .4, rng.random() < .5
    d = tempfile.mkdtemp(prefix='c30.')
    ev = []
    try:
        kw = dict(data_dir=d, dt=dt * DT / 1e9 if dt else None, thr1=t1 / 64, thr2=t2 / 64, slopes_from_intensity=own,
                  output_tag='tag', auto_detect_obstruction=False, overwrite=over, save_on_exit=exit_)
        o = (DynamicPyrPupdataCalibrator if dyn else PyrPupdataCalibrator)(**kw)
        asi = rng.random() < .5
        src = Intensity(w, h) if asi else Pixels(w, h)
        o.inputs['in_i' if asi else 'in_pixels'].set(src)
        cm = {k: BaseValue() for k in ('save', 'dt', 'thr1', 'thr2', 'output_tag')}
        if dyn:
            for k, v in cm.items():
                o.inputs['in_' + k].set(v)
        o.setup()

        def send(k, v, t):
            cm[k].value = v
            cm[k].generation_time = t * DT
        # what the image under measurement will be, to keep rounding out of the comparisons
        acc, last, cur1, cur2, cdt, done = np.zeros(h * w, int), np.zeros(h * w, int), t1, t2, dt, False
        T = 1 if beh else rng.randint(1, 6)
        for t in range(T):
            c = dict(t1=-1, t2=-1, dt=-1, tag='', save='', any=False)
            fresh, frame, todo = False, [0] * (h * w), []
            for _ in range(60):
                fresh = bool(beh) or rng.random() < .75
                frame = beh['img'] if beh else image(rng, h, w)
                c = dict(t1=-1, t2=-1, dt=-1, tag='', save='', any=False)
                todo = []
                n1, n2, nd = cur1, cur2, cdt
                if dyn:
                    num = lambda x: rng.choice([float, str])(x)
                    if rng.random() < .15:
                        n1 = c['t1'] = rng.randint(4, 40) if rng.random() < .8 else 64 * 3
                        todo.append(('thr1', num(n1 / 64)))
                    elif rng.random() < .1:
                        todo.append(('thr1', rng.choice(['low', None])))
                    if rng.random() < .15:
                        n2 = c['t2'] = rng.randint(4, 60)
                        todo.append(('thr2', num(n2 / 64)))
                    elif rng.random() < .1:
                        todo.append(('thr2', 'x'))
                    if rng.random() < .15:
                        nd = c['dt'] = rng.randint(1, 3)
                        todo.append(('dt', num(nd * DT / 1e9)))
                    elif rng.random() < .12:
                        todo.append(('dt', rng.choice([0, -0.001, 'x', '0'])))
                    if rng.random() < .15:
                        c['tag'] = rng.choice(['new', 'tag2'])
                        todo.append(('output_tag', c['tag']))
                    if done and rng.random() < .3:
                        c['save'] = rng.choice(['m', 's/m', 'tag'])
                        todo.append(('save', cmd(rng, c['save'])))
                    c['any'] = bool(todo)
                a, la = acc, np.array(frame) if fresh else last
                if fresh or todo:
                    if nd == 0:
                        a = la
                    elif fresh:
                        a = acc + la
                due = (fresh or todo) and (nd == 0 or t % nd == 0)
                if not due or clear(a, h, w, n1, n2, own):
                    break
            else:
                break
            acc, last, cur1, cur2, cdt = (np.zeros(h * w, int) if due else a), la, n1, n2, nd
            for k, v in todo:
                send(k, v, t)
            if fresh:
                (src.i if asi else src.pixels)[:] = np.array(frame, dtype=float).reshape(h, w)
                src.generation_time = t * DT
            err = False
            with core.quiet():
                try:
                    ran = step(o, t)
                except ValueError:
                    if dyn:
                        raise
                    ran, err = True, True
                    o.inputs_changed = False
            p = o.outputs['out_pupdata']
            when = -1 if p.generation_time < 0 else int(round(p.generation_time / DT))
            done = done or when >= 0
            if dyn:
                q = o.outputs['out_params']
                v = q.value or {}
                ok = v.get('status') == 'OK'
                par = [ints([v.get('thr1', 9e6)], 64)[0], ints([v.get('thr2', 9e6)], 64)[0], ints([(v.get('dt', 9) or 0)], 1e9 / DT)[0]]
                if ran and q.generation_time != t * DT:
                    ev.append(dict(err='parameters not refreshed'))
                    break
            else:
                # without commands a failed measurement ends in an exception
                ok, par = not err, [t1, t2, dt]
            ind = np.asarray(p.ind_pup)
            n = ints(np.asarray(p.radius) ** 2 * math.pi)
            geo = [[a, b, e] for a, b, e in zip(n, ints(np.asarray(p.cx) * n), ints(np.asarray(p.cy) * n))]
            pup = [[int(x) for x in ind[:, k] if x >= 0] for k in range(4)] if when >= 0 else []
            if when >= 0 and (list(p.framesize) != [h, w] or bool(p.slopes_from_intensity) != own):
                ev.append(dict(err='frame size or kind of slopes'))
                break
            ev.append(dict(t=t, c=c, fresh=fresh, frame=[int(x) for x in frame], ran=ran, pup=pup, geo=geo, when=when, ok=ok, par=par,
                           files=[[k, [[int(x) for x in v[:, j] if x >= 0] for j in range(4)]] for k, v in files(d, 1)]))
            if err:
                break
        else:
            if done:
                names = {k for k, _ in files(d, 1)}
                if over or not (exit_ and o.filename in names):
                    o.finalize()
                    ev.append({'exit': True, 'files': [[k, [[int(x) for x in v[:, j] if x >= 0] for j in range(4)]] for k, v in files(d, 1)]})
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:200]))
    finally:
        shutil.rmtree(d)
    if not ev:
        return None
    return dict(id=tid, kind='pyr', h=h, w=w, t1=t1, t2=t2, dt=dt, tag='tag', own=own, over=over, exit=exit_, ev=ev,
                replay=dict(kind='pyr', dynamic=dyn, h=h, w=w))


def run(seed, count, prefix=''):
    out = []
    for k in range(count):
        c = random.Random(f'{seed}.{k}')
        t = (dark_case if c.random() < .5 else pyr_case)(c, f'{prefix}{seed}.{k}')
        if t:
            out.append(t)
    return out


def replays(seed, behs, prefix=''):
    out = []
    for k, b in behs:
        c, b = random.Random(f'{seed}.{k}'), json.loads(b)
        if 'h' in b:
            out.append(dark_case(c, f'{prefix}beh.{k}', b['h']))
        elif clear(b['img'], math.isqrt(len(b['img'])), math.isqrt(len(b['img'])), b['t1'], b['t2'], b['own']):
            out.append(pyr_case(c, f'{prefix}pup.{k}', b))
    return [t for t in out if t]


def check(ctx):
    behs = ctx.model_check('MCICalib')
    items = [(p, json.dumps(behs[p])) for p in ctx.rng.sample(range(len(behs)), min(ctx.n(1200, 30000), len(behs)))]
    pups = ctx.model_check('MCPup')
    items += [(p, json.dumps(pups[p])) for p in ctx.rng.sample(range(len(pups)), min(ctx.n(250, 2300), len(pups)))]
    ts = sum(core.jobs('c30', 'replays', [(ctx.seed, items[j::4], '') for j in range(4)], 0), [])
    ts += core.spread(ctx, 'c30', 'run', ctx.n(1500, 25000), 6)
    ts += core.spread(ctx, 'c30', 'run', ctx.n(300, 4000), 2, precision=1, prefix='p1.')
    ctx.need(sum(t['kind'] == 'pyr' for t in ts) > 500, 'pupils')
    ctx.validate('ICalibTrace', ts)
    ctx.assumptions.append('obstruction detection off; comparisons that depend on rounding excluded; no reset together with a load; no save before the first measurement')
