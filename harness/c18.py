"""C18: signal generators step by step."""
import random
import numpy as np
import core
from core import vec


def drive(o, steps, dt, t0, encode):
    ev = []
    try:
        with core.quiet():
            o.setup()
            for j in range(steps):
                now = t0 + j * dt
                if o.check_ready(now):
                    o.trigger()
                    o.post_trigger()
                v = o.outputs['output']
                ev.append(dict(now=j, out=encode(v.value), ot=(int(v.generation_time) - t0) // dt if (int(v.generation_time) - t0) % dt == 0 else -7))
    except Exception as x:
        ev.append(dict(now=0, err=f'{type(x).__name__}: {x}'[:150]))
    return ev


def made(tid, d, build, steps, dt, encode, t0=0):
    try:
        with core.quiet():
            o = build()
    except Exception as x:
        return dict(id=tid, ev=[dict(now=0, err=f'{type(x).__name__}: {x}'[:150])], **d)
    return dict(id=tid, ev=drive(o, steps, dt, t0, encode), **d)


def sched(tid, rng):
    from specula.processing_objects.schedule_generator import ScheduleGenerator
    dt = rng.choice([1000000, 2000000, 130000, 1234567, 500000000, 333333])
    nt, ng = rng.randint(0, 4), rng.randint(1, 3)
    groups = [rng.randint(1, 3) for _ in range(ng)]
    times = sorted(rng.randint(-1, 9) for _ in range(nt))       # in half steps below
    half = [2 * t + rng.choice([0, 0, 1]) for t in times]
    values = [[rng.randint(-9, 9) for _ in range(ng)] for _ in range(nt + 1)]
    sec = [h * dt / 2 * 1e-9 if h % 2 else (h // 2 * dt) / 1e9 for h in half]
    half.sort()
    sec.sort()
    g = groups[0] if ng == 1 and rng.random() < .5 else groups
    # steps are counted in dt, times in half steps: a half step later is the next step
    d = dict(kind='sched', values=values, times=[-(-h // 2) for h in half], groups=groups)
    return made(tid, d, lambda: ScheduleGenerator(values, sec, g), rng.randint(1, 12), dt, vec)


def pp(tid, rng, p=None):
    from specula.processing_objects.push_pull_generator import PushPullGenerator
    fixed = p is not None
    if not fixed:
        nm = rng.randint(1, 8)
        p = dict(nm=nm, first=rng.randint(0, nm - 1), pat=rng.choice([[1, -1], [-1, 1], [1], [1, 0, -1], [2, -1, -1], [1, -1, 1, -1]]), nc=rng.randint(1, 4),
                 ns=rng.randint(1, 3), rep=rng.random() < .4, full=rng.random() < .3, amps=[])
    p = dict(p)
    n = p['nm'] - p['first']
    kind = rng.choice(['PUSHPULL', 'pushpull', 'PUSH', 'push'] if not fixed and p['pat'] == [1] else ['PUSHPULL', 'pushpull'])
    if kind.upper() == 'PUSH':
        p['ns'] = 1
    mode = 'vect' if fixed else rng.choice(['vect', 'const', 'scaled'])
    if any(abs(x) > 1 for x in p['pat']) and mode == 'scaled':
        mode = 'vect'
    kw, enc = {}, vec
    amp = rng.choice([1, 3, 50, 0.5, 1e-8]) if mode == 'scaled' else rng.randint(1, 50)
    if mode == 'vect':
        p['amps'] = [rng.randint(-30, 30) for _ in range(n)]
        kw['vect_amplitude'] = p['amps'] if rng.random() < .5 else np.array(p['amps'], dtype=float)
    elif mode == 'const':
        p['amps'] = [amp] * n
        kw.update(amp=amp, constant_amp=True)
    else:
        p['amps'] = [1] * n
        kw['amp'] = amp

        def enc(v):
            out = []
            for x in np.asarray(v, dtype=float):
                r = 0 if x == 0 else np.sign(x) * (amp / x) ** 2
                out.append(int(round(r)) if abs(r - round(r)) < 1e-4 * max(1, abs(r)) else core.BADINT)
            return out
    if kind.upper() != 'PUSH' and (p['pat'] != [1, -1] or rng.random() < .5):
        kw['pattern'] = p['pat']
    if p['ns'] != 1 or rng.random() < .3:
        kw['nsamples'] = p['ns']
    if p['nc'] != 1 or rng.random() < .3:
        kw['ncycles'] = p['nc']
    total = len(p['pat']) * n * p['nc'] * p['ns']
    d = dict(kind='ppr' if mode == 'scaled' else 'pp', p=p, replay=dict(kw=str(kw), type=kind))
    return made(tid, d, lambda: PushPullGenerator(p['nm'], first_mode=p['first'], push_pull_type=kind, repeat_ncycles=p['rep'],
                                                  repeat_full_sequence=p['full'], **kw), min(total, 60), 1000000, enc, rng.choice([0, 5000000]))


def hist(tid, rng):
    from specula.processing_objects.time_history_generator import TimeHistoryGenerator
    from specula.data_objects.time_history import TimeHistory
    n, k = rng.randint(1, 8), rng.randint(1, 4)
    one = rng.random() < .3
    rows = [[rng.randint(-99, 99) for _ in range(1 if one else k)] for _ in range(n)]
    a = np.array(rows, dtype=float)
    if one and rng.random() < .7:
        a = a[:, 0]
    return made(tid, dict(kind='hist', rows=rows), lambda: TimeHistoryGenerator(TimeHistory(a)), rng.randint(1, 12), 1000000, vec, rng.choice([0, 3000000]))


def wave(tid, rng):
    from specula.processing_objects.wave_generator import WaveGenerator
    n = rng.choice([1, 1, 2, 3])
    kind = rng.choice(['SIN', 'SQUARE', 'TRIANGLE'])
    dt = 500000000
    v = lambda lo, hi: [rng.randint(lo, hi) for _ in range(n if rng.random() < .5 else 1)]
    turn, off = v(0, 7), v(0, 7)
    if kind == 'SQUARE':     # keep away from the zero crossings
        turn, off = [2 * (x // 2) for x in turn], [2 * (x // 2) + 1 for x in off]
    amp, slope, const = v(-4, 4), v(-3, 3), v(-5, 5)
    one = lambda a, f: [x * f for x in a] if len(a) > 1 else a[0] * f
    kw = dict(freq=one(turn, .25), offset=one(off, np.pi / 4), amp=one(amp, 1.), slope=one(slope, 2.), constant=one(const, 1.))
    size = max(len(x) for x in (turn, off, amp, slope, const))
    if size == 1 and n > 1:
        kw[rng.choice(['vsize', 'output_size'])] = n
        size = n if 'vsize' in kw else n
    enc = lambda a: [core.enc(x) for x in np.round(np.asarray(a, dtype=float) * 1000)]
    d = dict(kind='wave', n=size, type=kind, turn8=turn, off8=off, amp=amp, slope=slope, const=const, replay=dict(kw=str(kw)))
    return made(tid, d, lambda: WaveGenerator(rng.choice([kind, kind.lower()]), **kw), rng.randint(1, 12), dt, enc)


def conf(tid, rng):
    from specula.processing_objects.schedule_generator import ScheduleGenerator
    ev = []
    for _ in range(10):
        nt, ng = rng.randint(0, 3), rng.randint(1, 3)
        nv = nt + rng.choice([1, 1, 1, 0, 2])
        sizes = [ng + (rng.choice([1, -1]) if rng.random() < .15 else 0) for _ in range(nv)]
        try:
            with core.quiet():
                ScheduleGenerator([[1.0] * s for s in sizes], [float(k) for k in range(nt)], [1] * ng)
            r = False
        except ValueError:
            r = True
        ev.append(dict(nv=nv, nt=nt, ng=ng, sizes=sizes, refused=r))
    return dict(id=tid, kind='conf', ev=[e for e in ev if e['nv']] or ev[:1])


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [conf(f'{prefix}{k}', rng) if k % 30 == 0 else [sched, pp, hist, pp, sched, wave][k % 6](f'{prefix}{k}', rng) for k in range(count)]


def replay(seed, items, prefix):
    rng = random.Random(seed)
    return [pp(f'{prefix}{k}', rng, p) for k, p in enumerate(items)]


def check(ctx):
    beh = ctx.model_check('MCSignal')
    uniq = {str(b): b for b in beh}
    beh = list(uniq.values())
    ctx.require(len(beh) > 150, 'push-pull options')
    parts = [beh[k::6] for k in range(6)]
    traces = [t for r in core.jobs('c18', 'replay', [[ctx.rng.randrange(2**31), p, f'm{k}.'] for k, p in enumerate(parts)]) for t in r]
    traces += core.spread(ctx, 'c18', 'gen', ctx.n(3000, 40000), prefix='g')
    traces += core.spread(ctx, 'c18', 'gen', ctx.n(400, 6000), parts=2, precision=1, prefix='s')
    ctx.validate('SignalTrace', traces)
    ctx.assumptions.append('push-pull sequences are observed up to their end; wave values compared to 4/1000 at eighths of a turn')
