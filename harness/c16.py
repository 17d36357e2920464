"""C16: Demodulator over random histories, refreshed in every step."""
import math
import random
import numpy as np
import core
from c15 import gt


def amplitude(x, f, fs):
    """Cumulated demodulation of one window, written from its definition."""
    x = np.asarray(x, dtype=np.float64)
    n = len(x)
    t = np.arange(n) / fs
    w = 2 * np.pi * f
    periods = int(math.floor((n - 1) / fs * f))
    if periods > 0:
        tv = np.arange(1, periods + 1) * fs / f
        err = np.abs(tv - np.round(tv))
        good = np.where(err <= 1e-3)[0]
        avg = int(tv[good.max()] if len(good) else tv[err.argmin()])
    else:
        avg = max(1, n // 4)
    if n < 3:
        return 0.0

    def detrend(y, m):
        z = y - y.mean()
        z = z - (z[-1] - z[0]) / m * np.arange(len(y))
        return z - (y - y.mean())[0]
    c = detrend(x, n)
    ph = math.atan2((c * np.sin(w * t)).mean(), (c * np.cos(w * t)).mean())
    s, o = np.sin(w * t - ph), np.cos(w * t - ph)
    amp = []
    for j in range(2, n):
        z = detrend(x[:j + 1], j)
        amp.append(2 * math.hypot((z * s[:j + 1]).sum() / (j + 1), (z * o[:j + 1]).sum() / (j + 1)))
    lo, hi = max(0, n - 2 - avg), n - 2
    return float(np.mean(amp[lo:hi])) if hi > lo else amp[-1]


def one(tid, rng):
    from libobjs import sp
    from specula.processing_objects.demodulator import Demodulator
    from specula.base_value import BaseValue
    loop = rng.choice([1000000, 2000000, 500000])
    fs = 1e9 / loop
    n = rng.choice([1, 2, 3, 5, 8, 12, 20])
    steps = rng.randint(1, 3 * n + 3)
    size = rng.randint(1, 5)
    modes = [rng.randrange(size) for _ in range(rng.randint(1, 3))] if rng.random() < .7 else list(range(size))
    # carriers for which the averaging length is not decided by rounding
    freqs = [fs / rng.choice([4, 5, 8, 10, 40, 3.3, 7.7]) for _ in modes]
    src = BaseValue(value=np.zeros(size))
    nr = np.random.default_rng(rng.randrange(2**31))
    with core.quiet():
        o = Demodulator(sp(dt=loop * 1e-9), modes, freqs, n * loop * 1e-9)
    o.inputs['in_data'].set(src)
    hist, ev = [], []
    last = None
    try:
        with core.quiet():
            o.setup()
            for j in range(steps):
                x = nr.normal(size=size) * 10
                hist.append(x)
                if rng.random() < .5:
                    src.value = x.copy()
                else:
                    src.value[:] = x
                src.generation_time = j * loop
                if o.check_ready(j * loop):
                    o.trigger()
                    o.post_trigger()
                v = np.array(o.output.value, dtype=float).copy()
                changed = last is not None and not np.array_equal(v, last)
                last = v
                e = dict(t=j, ot=gt(o.output, loop), changed=bool(changed), match=[[] for _ in modes])
                if (j + 1) % n == 0 or e['ot'] == j:
                    h = np.array(hist)
                    for k, f in enumerate(freqs):
                        for a in {0, max(0, j - n + 1)}:
                            for ch in range(size):
                                r = amplitude(h[a:, ch], f, fs)
                                if k < len(v) and abs(r - v[k]) <= 2e-4 * max(1, abs(r)):
                                    e['match'][k].append([a + 1, j + 1, ch])
                ev.append(e)
    except Exception as x:
        ev.append(dict(t=0, ot=0, changed=False, match=[], err=f'{type(x).__name__}: {x}'[:150]))
    return dict(id=tid, loop=1, dt=n, modes=modes, ev=ev, replay=dict(loop=loop, freqs=freqs, size=size))


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng) for k in range(count)]


def check(ctx):
    ctx.model_check('MCWindow')
    traces = core.spread(ctx, 'c16', 'gen', ctx.n(1200, 20000), prefix='m')
    traces += core.spread(ctx, 'c16', 'gen', ctx.n(200, 3000), parts=2, precision=1, prefix='s')
    ctx.need(sum(len(e['match']) for t in traces for e in t['ev'] if any(e['match'])) > 300, 'published amplitudes')
    ctx.validate('DemodTrace', traces)
    ctx.assumptions.append('input refreshed in every step; amplitudes compared with a definition of cumulated demodulation at 2e-4')
