"""C21: AtmoEvolution (and the up/down variant) on screens with known content."""
import os
import random
import shutil
import tempfile
import numpy as np
import core

DT = 15625000        # 1/64 s in ns
PITCH = 0.25         # m: one quarter of a pixel per step is a wind of 4 m/s
BAD = 10 ** 9


def screens(d, size, seeds, L0s):
    """phase screens with content 37 r + c^2, in the files the object reads"""
    from astropy.io import fits
    r, c = np.mgrid[:size, :size]
    s = (37. * r + c * c)
    for seed in seeds:
        for L0 in set(L0s):
            for p, t in (('single', np.float32), ('double', np.float64)):
                fits.writeto(os.path.join(d, f'ps_seed{seed}_dim{size}_pixpit{PITCH:.3f}_L0{float(L0):.4f}_{p}.fits'), s.astype(t), overwrite=True)


def one(tid, rng, beh=None):
    from libobjs import sp
    from specula.base_value import BaseValue
    from specula.processing_objects.atmo_evolution import AtmoEvolution
    from specula.processing_objects.atmo_evolution_up_down import AtmoEvolutionUpDown
    n = rng.choice([2, 4, 4, 6])
    size = 12 if beh else rng.choice([12, 16, 24, 40])
    if beh:
        n = 4
    size = max(size, 2 * n)
    nl = rng.choice([1, 1, 4] if n < 6 else [1])
    updown = rng.random() < .3
    L0 = [20.0] * nl if rng.random() < .6 else [20.0 + k for k in range(nl)]
    xs = [beh['x']] * nl if beh else [rng.choice([0, 0, 1, 2])] * nl if rng.random() < .5 else [rng.choice([0, 0, 1, 2]) for _ in range(nl)]
    xs2 = [rng.choice([0, 1, 2]) for _ in range(nl)]
    sec = lambda v: v[0] / 64 if len(set(v)) == 1 and rng.random() < .7 else [x / 64 for x in v]
    steps = len(beh['hist']) if beh else rng.randint(2, 12)
    # wind such that the offset alone never leaves the screen
    big = max(xs + (xs2 if updown else []))
    wmax = min(12, (4 * (size - n) - 5) // max(1, big)) if big else 14
    ev = []
    d = dict(id=tid, n=n, size=size, layers=nl, xs=xs + xs2 if updown else xs)
    tmp = tempfile.mkdtemp(prefix='c21')
    replay = dict(updown=updown, L0=L0)
    try:
        screens(tmp, size, range(1, 5), L0)
        airmass, kw = 1.0, {}
        with core.quiet():
            s = sp(dt=1 / 64, pixel_pupil=n if rng.random() < .5 else 2, pixel_pitch=PITCH)
            if s.pixel_pupil != n or rng.random() < .5:
                kw['fov_in_m'] = n * PITCH
            args = dict(L0=L0 if len(set(L0)) > 1 or rng.random() < .8 else L0[0], heights=[1000. * k for k in range(nl)], Cn2=[1 / nl] * nl,
                        data_dir=tmp, pixel_phasescreens=size, seed=1, **kw)
            if updown:
                o = AtmoEvolutionUpDown(s, extra_delta_time_down=sec(xs), extra_delta_time_up=sec(xs2), **args)
            else:
                o = AtmoEvolution(s, extra_delta_time=sec(xs), **args)
            src = {k: BaseValue(value=np.zeros(m)) for k, m in (('seeing', 1), ('wind_speed', nl), ('wind_direction', nl))}
            for k, v in src.items():
                o.inputs[k].set(v)
            o.setup()
            lists = [o.outputs['layer_list_down'], o.outputs['layer_list_up']] if updown else [o.outputs['layer_list']]
            layers = [x for ll in lists for x in ll]
            w, q, see = [0] * nl, [0] * nl, 0.5
            for j in range(steps):
                run = beh['hist'][j] >= 0 if beh else rng.random() < .85 or j == 0
                what = ['wind_speed', 'wind_direction', 'seeing'] if j == 0 else rng.sample(list(src), rng.randint(1, 3)) if run else []
                if beh and run:
                    what.append('wind_speed')
                if 'wind_speed' in what:
                    w = [beh['hist'][j]] * nl if beh else [rng.randint(0, wmax) for _ in range(nl)]
                    src['wind_speed'].value = np.array(w) * 4.0
                if 'wind_direction' in what:
                    q = [rng.choice([0, 0, 1, 2, 3, 4, 5, -1, -2]) for _ in range(nl)]
                    src['wind_direction'].value = np.array(q) * 90.0
                if 'seeing' in what:
                    see = rng.choice([0.5, 0.5, 0.8, 1.0, 0.0]) if j else rng.choice([.5, .8])
                    src['seeing'].value = np.array([see])
                # delayed inputs carry the time of the previous step: one refreshed input is enough to run
                for k, name in enumerate(dict.fromkeys(what)):
                    src[name].generation_time = j * DT if k == 0 or rng.random() < .7 else (j - 1) * DT
                ran = o.check_ready(j * DT)
                if ran != run:
                    raise ValueError('runs when it should not, or the opposite')
                if ran:
                    o.trigger()
                    o.post_trigger()
                # 4 x content of the screen (without its mean), undoing the documented amplitude
                r0 = 0.9759 * 0.5 / (see * 4.848) if see else 1.0
                scale = np.sqrt(1 / nl) * 500 / (2 * np.pi) * (PITCH / r0) ** (5 / 6) if see else 1.0
                if not ran:
                    scale = prev
                prev = scale
                out = []
                for x in layers:
                    v = np.asarray(x.phaseInNm, dtype=float).ravel() / scale * 4
                    if not ran or not see:
                        out.append([int(round(z * 64)) if abs(z) < BAD else BAD for z in v])
                        continue
                    v = v + off if ev and off is not None else v
                    out.append(v)
                if ran and see:
                    if not any('zero' in e and not e['zero'] for e in ev):
                        off = -float(out[0][0])          # an arbitrary origin, the same in all frames
                        base = [-float(z[0]) for z in out]
                        out = [z + b for z, b in zip(out, base)]
                    else:
                        out = [z - off + b for z, b in zip(out, base)]
                    out = [[int(round(z)) if abs(z) < BAD and abs(z - round(z)) < .3 else BAD for z in v] for v in out]
                    shown = out
                elif not ran:
                    raw = [np.asarray(x.phaseInNm, dtype=float) for x in layers]
                    out = shown if all(np.array_equal(a, b) for a, b in zip(raw, lastraw)) else [[BAD]] * len(layers)
                else:
                    shown = out
                lastraw = [np.array(x.phaseInNm, dtype=float) for x in layers]
                ot = [int(x.generation_time) // DT if int(x.generation_time) % DT == 0 else -9 for x in layers]
                ev.append(dict(t=j, run=bool(ran), w=list(w), k=list(q), zero=not see, out=out, ot=ot))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    d['ev'] = ev
    d['replay'] = replay
    return d


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng) for k in range(count)]


def replay(seed, behs, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng, b) for k, b in enumerate(behs)]


def check(ctx):
    beh = ctx.model_check('MCTurb')
    ctx.rng.shuffle(beh)
    beh = [b for b in beh if b['hist'][0] >= 0][:ctx.n(500, 8000)]
    traces = [t for r in core.jobs('c21', 'replay', [[ctx.seed + k, beh[k::6], f'm{k}.'] for k in range(6)]) for t in r]
    traces += core.spread(ctx, 'c21', 'gen', ctx.n(900, 20000), prefix='r')
    traces += core.spread(ctx, 'c21', 'gen', ctx.n(150, 3000), parts=2, precision=1, prefix='s')
    ctx.need(sum(e.get('run', False) for t in traces for e in t['ev']) > 3000, 'steps')
    ctx.validate('TurbTrace', traces)
    ctx.assumptions.append('screens with content 37 r + c^2 read from files; quarter-turn wind directions; winds of whole quarters of a pixel per step')
