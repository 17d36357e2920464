"""C22: InfinitePhaseScreen, AtmoInfiniteEvolution and its up/down variant."""
import copy
import math
import random
import types
import numpy as np
import core

DT = 15625000        # 1/64 s in ns
PITCH = 0.25         # a quarter of a pixel per step is a wind of 4 m/s
NONE = [999, 999]
_base = {}


def base(kind, nl, xs, xs2=None, px=8):
    """objects are slow to build: build each configuration once and copy it"""
    from libobjs import sp
    from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
    from specula.processing_objects.atmo_infinite_evolution_up_down import AtmoInfiniteEvolutionUpDown
    key = (kind, nl, px)
    if key not in _base:
        s = sp(dt=1 / 64, pixel_pupil=px, pixel_pitch=PITCH)
        kw = dict(L0=[20.0 + k for k in range(nl)], heights=[1000. * k for k in range(nl)], Cn2=[1 / nl] * nl, seed=3)
        with core.quiet():
            _base[key] = (AtmoInfiniteEvolutionUpDown if kind == 'updown' else AtmoInfiniteEvolution)(s, **kw)
    o = _base[key]
    memo = {}
    for x in [o] + o.infinite_phasescreens:
        for v in vars(x).values():
            if isinstance(v, types.ModuleType):
                memo[id(v)] = v
            for m in v if isinstance(v, list) else [v]:      # matrices, never the screen itself
                if isinstance(m, np.ndarray) and m.size > 257 * 257 + 1:
                    memo[id(m)] = m
    return copy.deepcopy(o, memo)


def shift(a, b, big=24):
    """the shift (r, c) with b[p] = a[p + (r, c)] bit for bit on all pixels that survive"""
    n = a.shape[0]
    if a.shape != b.shape:
        return NONE
    v = a[n // 2, n // 2]
    hit = np.argwhere(b == v)
    for p in hit:
        r, c = n // 2 - int(p[0]), n // 2 - int(p[1])
        if abs(r) <= n - 2 and abs(c) <= n - 2:
            x = a[max(0, r):n + min(0, r), max(0, c):n + min(0, c)]
            y = b[max(0, -r):n + min(0, -r), max(0, -c):n + min(0, -c)]
            if np.array_equal(x, y):
                return [r, c]
    return NONE


def screen(tid, rng):
    """operations on one screen"""
    ev = []
    try:
        s = base('plain', 1, None).infinite_phasescreens[0]
        lines, saved = {}, None
        lastop = None
        for j in range(rng.randint(3, 14)):
            if saved is not None and (rng.random() < .5):
                s.full_scrn = saved
                ev.append(dict(op='back', sh=[0, 0] if np.array_equal(saved, keep) else NONE))
                saved = None
                continue
            flush = saved is None and rng.random() < .5
            row, after = rng.random() < .5, rng.random() < .5
            if lastop and saved is None and rng.random() < .6:
                row, after = lastop
            lastop = (row, after)
            a = np.array(s.full_scrn)
            if not flush and saved is None:
                saved, keep = s.full_scrn, a
            s.add_line(int(row), int(after), flush) if not flush or rng.random() < .5 else s.add_line(int(row), int(after))
            b = np.array(s.full_scrn)
            line = (b[:, -1] if after else b[:, 0]) if row else (b[-1] if after else b[0])
            ev.append(dict(op='add', row=row, after=after, flush=flush, sh=shift(a, b),
                           line=lines.setdefault(line.tobytes() if np.all(np.isfinite(line)) and np.any(line != 0) else b'', len(lines))))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
    return dict(id=tid, kind='screen', ev=ev)


def drive(o, src, t, what, rng):
    for k, name in enumerate(dict.fromkeys(what)):
        src[name].generation_time = t * DT if k == 0 or rng.random() < .7 else (t - 1) * DT
    ran = o.check_ready(t * DT)
    if ran:
        o.trigger()
        o.post_trigger()
    return ran


def sources(o, nl):
    from specula.base_value import BaseValue
    src = {k: BaseValue(value=np.zeros(m)) for k, m in (('seeing', 1), ('wind_speed', nl), ('wind_direction', nl))}
    for k, v in src.items():
        o.inputs[k].set(v)
    return src


def layer(tid, rng, beh=None, updown=False):
    nl = rng.choice([1, 1, 3])
    axis = beh is not None or rng.random() < .6
    n = 8
    xs = [0] * nl if rng.random() < .5 else [rng.choice([0, 1, 2]) for _ in range(nl)]
    sec = lambda v: np.array([x / 64 for x in v])
    ev = []
    steps = len(beh) if beh else rng.randint(2, 12)
    d = dict(id=tid, kind='layer', layers=nl, xs=xs, tol=8)
    try:
        o = base('updown' if updown else 'plain', nl, None, px=n)
        with core.quiet():
            if updown:
                xs2 = [x + 1 for x in xs]      # the first direction is judged here
                o.extra_delta_time_down, o.extra_delta_time_up = sec(xs), sec(xs2)
            else:
                o.extra_delta_time = sec(xs)
            src = sources(o, nl)
            o.setup()
            lay = o.outputs['layer_list_down' if updown else 'layer_list']
            w, q, see = [0] * nl, [0.0] * nl, 1.0
            turn = [rng.choice([0, 90, 180, 270, 0, 360, -90]) for _ in range(nl)]
            corners = axis and rng.random() < .4     # the wind turns from one axis to the other
            if not axis:
                d['tol'] = 2048
            for j in range(steps):
                run = True if beh else rng.random() < .85 or j == 0
                what = ['wind_speed', 'wind_direction', 'seeing'] if j == 0 else rng.sample(list(src), rng.randint(1, 3)) if run else []
                if beh:
                    what = ['wind_speed', 'wind_direction'] + what
                    w = [abs(beh[j])] * nl
                    q = [t + (180.0 if beh[j] < 0 else 0) for t in turn]
                else:
                    if 'wind_speed' in what:
                        w = [rng.randint(0, 14) for _ in range(nl)]
                    if 'wind_direction' in what:
                        if corners:
                            turn = [rng.choice([t, 0, 90, 180, 270]) for t in turn]
                        q = [float(rng.choice([turn[k], turn[k], turn[k] + 180]) if axis else rng.randint(0, 3590) / 10) for k in range(nl)]
                src['wind_speed'].value = np.array(w) * 4.0
                src['wind_direction'].value = np.array(q)
                if 'seeing' in what:
                    see = rng.choice([0.5, 1.0, 1.3, 0.0]) if j else rng.choice([.5, 1.0])
                    src['seeing'].value = np.array([see])
                before = [np.array(s.full_scrn) for s in o.infinite_phasescreens]
                lbefore = [np.array(x.phaseInNm) for x in lay]
                ran = drive(o, src, j, what, rng)
                if ran != run:
                    raise ValueError('runs when it should not, or the opposite')
                e = dict(t=j, run=bool(ran), w=list(w), zero=not see, cr=[round(16384 * math.cos(math.radians(a))) for a in q],
                         cc=[round(16384 * math.sin(math.radians(a))) for a in q])
                after = [np.array(s.full_scrn) for s in o.infinite_phasescreens]
                if not ran:
                    e['same'] = all(map(np.array_equal, before, after)) and all(map(np.array_equal, lbefore, [np.array(x.phaseInNm) for x in lay]))
                else:
                    e['sh'] = [shift(a, b) for a, b in zip(before, after)]
                    e['px'] = []
                    for k, (x, s) in enumerate(zip(lay, after)):
                        scale = (see ** (5 / 6) if see else 1.0) * 500 / (2 * np.pi) * math.sqrt(1 / nl)
                        out = np.asarray(x.phaseInNm, dtype=float) / scale
                        if out.shape != (n, n) or not np.all(np.isfinite(out)) or np.any(np.asarray(x.A) != 1):
                            raise ValueError('wrong layer')
                        up = {}
                        # the neighbour in the direction of the carried fraction: the sign of the wind seen so far
                        pts = []
                        for _ in range(4):
                            r, c = rng.randint(1, n - 2), rng.randint(1, n - 2)
                            pts.append((r, c))
                        e['px'].append([(s, r, c, out[r, c]) for r, c in pts])
                    e['ot'] = [int(x.generation_time) // DT if int(x.generation_time) % DT == 0 else -9 for x in lay]
                ev.append(e)
            fractions(d, ev)
    except Exception as x:
        for e in ev:
            if 'px' in e:
                fractions(d, ev)
                break
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
    d['ev'] = ev
    return d


def fractions(d, ev):
    """replace sampled pixels by integers <<here, neighbour in columns, neighbour in rows, shown>>; the
    neighbour lies on the side of the carried fraction, which follows from the recorded displacements"""
    acc = [[0, 0] for _ in range(d['layers'])]
    last, wx = 0, [0] * d['layers']
    for e in ev:
        if not e.get('run'):
            continue
        for k in range(d['layers']):
            D = e['w'][k] * (e['t'] - last) + e['w'][k] * d['xs'][k] - wx[k]
            wx[k] = e['w'][k] * d['xs'][k]
            if e['sh'][k] == NONE:
                e['px'][k] = []
                continue
            for a, c in ((0, 'cc'), (1, 'cr')):
                acc[k][a] += D * e[c][k] - 65536 * e['sh'][k][a]
            sg = [1 if acc[k][a] > 0 else -1 for a in (0, 1)]
            I = lambda v: int(round(float(v) * 1024)) if abs(v) < 1000 else 10 ** 6
            e['px'][k] = [[I(s[r, c]), I(s[r, c + sg[1]]), I(s[r + sg[0], c]), I(o)] if not isinstance(p, list) else p
                          for p in e['px'][k] for s, r, c, o in [p]]
        last = e['t']


def updown(tid, xd, xu):
    """whole-pixel winds along an axis: the second direction against the first"""
    ev = []
    try:
        o = base('updown', 1, None, px=8)
        o.extra_delta_time_down, o.extra_delta_time_up = np.array([xd / 64]), np.array([xu / 64])
        with core.quiet():
            src = sources(o, 1)
            o.setup()
            src['seeing'].value = np.array([1.0])
            src['wind_speed'].value = np.array([16.0])      # one pixel per step
            for j in range(4):
                drive(o, src, j, list(src), random.Random(0))
                a, b = (np.array(o.outputs[f'layer_list_{x}'][0].phaseInNm) for x in ('down', 'up'))
                ev.append(dict(t=j, rel=shift(a, b), want=[0, xu - xd]))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
    return dict(id=tid, kind='updown', ev=ev, key=f'infinite-updown-offsets-{xd}-{xu}', replay=dict(down=xd, up=xu))


def gen(seed, count, prefix):
    rng = random.Random(seed)
    out = []
    for k in range(count):
        u = rng.random()
        out.append(screen(f'{prefix}{k}', rng) if u < .3 else layer(f'{prefix}{k}', rng, updown=u > .85))
    return out


def replay(seed, behs, prefix):
    rng = random.Random(seed)
    return [layer(f'{prefix}{k}', rng, b) for k, b in enumerate(behs)]


def pairs(seed, behs, prefix):
    return [updown(f'{prefix}{a}.{b}', a, b) for a, b in behs]


def check(ctx):
    beh = ctx.model_check('MCInfScreen')
    ctx.rng.shuffle(beh)
    beh = beh[:ctx.n(300, 1296)]
    traces = [t for r in core.jobs('c22', 'replay', [[ctx.seed + k, beh[k::6], f'm{k}.'] for k in range(6)]) for t in r]
    traces += core.spread(ctx, 'c22', 'gen', ctx.n(500, 8000), prefix='r')
    traces += core.spread(ctx, 'c22', 'gen', ctx.n(80, 1500), parts=2, precision=1, prefix='s')
    traces += [t for r in core.jobs('c22', 'pairs', [[0, [(a, b) for a in range(3) for b in range(3) if a != b], 'u']]) for t in r]
    ctx.need(sum(e.get('run', False) for t in traces for e in t['ev']) > 1500, 'steps')
    ctx.validate('InfScreenTrace', traces)
    ctx.assumptions.append('winds of whole quarters of a pixel per step; the interpolated layer is judged for displacements along an axis')
