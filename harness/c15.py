"""C15: CCD and WindowedIntegration over random histories, refreshed in every step."""
import random
import numpy as np
import core
from core import vec


def times(rng, pow2):
    loop = rng.choice([1953125, 125000000, 500000000]) if pow2 else rng.choice([1000000, 130000, 2000000, 1234567])
    n = rng.randint(1, 5)
    start = rng.choice([0, 0, 1, 2, 3, 5])
    return loop, n, start


def drive(o, src, put, observe, steps, loop, rng):
    ev = []
    try:
        o.setup()
        for j in range(steps):
            t = j * loop
            x = put()
            src.generation_time = t
            if o.check_ready(t):
                o.trigger()
                o.post_trigger()
            ev.append(dict(t=j, x=x, **observe(loop)))
    except Exception as x:
        ev.append(dict(t=0, err=f'{type(x).__name__}: {x}'[:150]))
    return ev


def gt(o, loop):
    g = int(o.generation_time)
    return -1 if g < 0 else g // loop if g % loop == 0 else core.BADINT


def ccd(tid, rng):
    from libobjs import sp
    from specula.processing_objects.ccd import CCD
    from specula.data_objects.intensity import Intensity
    loop, n, start = times(rng, True)
    b = rng.choice([1, 1, 2, 3, 4])
    nx, ny = b * rng.randint(1, 3), b * rng.randint(1, 3)
    bw = rng.choice([1, 2, 4, 128, 512, 3])
    qe, gains = rng.choice([4, 4, 1, 2, 3]), rng.random() < .3
    frac = {1953125: 512, 125000000: 8, 500000000: 2}[loop]
    mx, my = nx // b, ny // b
    g = [[rng.choice([4, 2, 1, 8, 0]) for _ in range(mx)] for _ in range(my)] if gains else [[4] * mx for _ in range(my)]
    src = Intensity(nx, ny)
    single = src.i.dtype == np.float32
    steps = rng.randint(1, 14)
    hi = 4 if single else 20

    with core.quiet():
        o = CCD(sp(dt=loop * 1e-9), [nx, ny], n * loop * 1e-9, bw, binning=b, start_time=start * loop * 1e-9, quantum_eff=qe / 4,
                pixelGains=np.array(g) / 4 if gains else None)
    o.inputs['in_i'].set(src)

    def put():
        a = np.array([[rng.randint(0, hi) * (b * b if b == 3 else 1) for _ in range(nx)] for _ in range(ny)])
        src.i[:] = a
        return a.ravel().tolist()

    def observe(loop):
        p, q = o.outputs['out_pixels'], o.outputs['integrated_i']
        return dict(pix=vec(p.pixels, frac * 16), pt=gt(p, loop), int=vec(q.i, frac), it=gt(q, loop))
    with core.quiet():
        ev = drive(o, src, put, observe, steps, loop, rng)
    return dict(id=tid, kind='ccd', loop=1, dt=n, start=start, size=nx * ny, nx=nx, ny=ny, bin=b, wn=bw, wd=frac, qe=qe,
                gain=[x for r in g for x in r], ondt=False, ev=ev, replay=dict(loop=loop))


def win(tid, rng):
    from libobjs import sp
    from specula.processing_objects.windowed_integration import WindowedIntegration
    from specula.base_value import BaseValue
    loop, n, start = times(rng, False)
    k = rng.randint(1, 3)
    ondt = rng.random() < .5
    src = BaseValue(value=np.zeros(k))
    with core.quiet():
        o = WindowedIntegration(sp(dt=loop * 1e-9), k, n * loop * 1e-9, start_time=start * loop * 1e-9, update_time_on_dt=ondt)
    o.inputs['input'].set(src)

    def put():
        a = [rng.randint(-50, 50) * n for _ in range(k)]
        if rng.random() < .5:
            src.value = np.array(a, dtype=float)
        else:
            src.value[:] = a
        return a

    def observe(loop):
        return dict(out=vec(o.output.value), ot=gt(o.output, loop))
    with core.quiet():
        ev = drive(o, src, put, observe, rng.randint(1, 16), loop, rng)
    return dict(id=tid, kind='win', loop=1, dt=n, start=start, size=k, nx=1, ny=1, bin=1, wn=1, wd=1, qe=4, gain=[4], ondt=ondt, ev=ev,
                replay=dict(loop=loop))


def refuse(tid, rng):
    from libobjs import sp
    from specula.processing_objects.windowed_integration import WindowedIntegration
    from specula.processing_objects.ccd import CCD
    ev = []
    for _ in range(12):
        loop = rng.choice([1000000, 130000, 2000000, 1234567, 500000])
        dt = rng.choice([loop * rng.randint(-1, 4), loop * rng.randint(1, 4) + rng.choice([1000, loop // 2, -1000]), loop // 2, rng.randint(1, 4) * 1000000])
        try:
            with core.quiet():
                if rng.random() < .5:
                    CCD(sp(dt=loop * 1e-9), [2, 2], dt * 1e-9, 1.0)
                else:
                    WindowedIntegration(sp(dt=loop * 1e-9), 2, dt * 1e-9)
            r = False
        except ValueError:
            r = True
        ev.append(dict(dt=dt, loop=loop, refused=r))
    return dict(id=tid, kind='refuse', ev=ev)


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [refuse(f'{prefix}{k}', rng) if k % 20 == 0 else (ccd if k % 2 else win)(f'{prefix}{k}', rng) for k in range(count)]


def check(ctx):
    ctx.model_check('MCWindow')
    traces = core.spread(ctx, 'c15', 'gen', ctx.n(2400, 40000), prefix='w')
    traces += core.spread(ctx, 'c15', 'gen', ctx.n(400, 6000), parts=2, precision=1, prefix='s')
    ctx.need(sum(any(e.get('pt', -1) >= 0 for e in t['ev']) for t in traces) > 200, 'frames')
    ctx.validate('WindowTrace', traces)
    ctx.assumptions.append('input refreshed in every step, start time a multiple of the time step; exactly representable data')
