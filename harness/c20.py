"""C20: PSF and PsfCoronagraph over TLC-enumerated and random histories of fields."""
import random
import numpy as np
import core

N = 8
SC = 2 ** 20


def build(rng, kind, dt, start, flags):
    from libobjs import sp
    from specula.processing_objects.psf import PSF
    from specula.processing_objects.psf_coronagraph import PsfCoronagraph
    from specula.data_objects.electric_field import ElectricField
    s = sp(dt=dt, pixel_pupil=N, pixel_pitch=0.1)
    kw = dict(wavelengthInNm=500.0, nd=2, start_time=start, verbose=False, **flags)
    o = PSF(s, **kw) if kind == 'psf' else PsfCoronagraph(s, use_average_field=kind == 'avg', **kw)
    ef = ElectricField(N, N, 0.1)
    o.inputs['in_ef'].set(ef)
    return o, ef


def channels(o, kind, pix, stat):
    """values of the judged elements of the instantaneous, mean or deviation outputs"""
    names = {'': ['out_psf', 'out_sr'], 'int': ['out_int_psf', 'out_int_sr'], 'std': ['out_std_psf']}[stat]
    if kind != 'psf':
        names = names + {'': ['out_coronagraph_psf'], 'int': ['out_int_coronagraph_psf'], 'std': ['out_std_coronagraph_psf']}[stat]
    v, t = [], []
    for n in names:
        x = o.outputs[n]
        a = np.asarray(x.value, dtype=float)
        v += [float(a)] if a.ndim == 0 else [float(a[p]) for p in pix]
        t.append(int(x.generation_time))
    return np.array(v), t


def one(tid, rng, beh=None):
    kind = rng.choice(['psf', 'psf', 'avg', 'perfect'])
    dt = rng.choice([0.001, 0.0005, 0.1, 0.002])
    nf = 3 if beh else rng.randint(2, 4)
    hist = beh['hist'] if beh else [rng.choice([0] + [1 + k % nf for k in range(4)]) for _ in range(rng.randint(1, 9))]
    # times in tenths of a step
    s10 = beh['start'] * 5 if beh else rng.choice([0, 0, 10, 20, 30, 50, 3, 15, 27, 200, -10])
    start = round(s10 / 10 * dt, 12)
    flags = rng.choice([{}, {}, dict(compute_profile_metrics=True), dict(compute_profile_metrics=True, compute_metrics_in_trigger=True)])
    nr = np.random.default_rng(rng.randrange(2 ** 31))
    y, x = np.mgrid[:N, :N] - (N - 1) / 2
    amp = ((x * x + y * y) < (N / 2) ** 2).astype(float)
    fields = [nr.normal(size=(N, N)) * 30 * k + x * rng.choice([0, 20, 60]) for k in range(1, nf + 1)]
    pix = [(N, N), (N, N + 1), (N - 1, N), (N + 2, N - 3)]
    ev = []
    d = dict(id=tid, start=s10, replay=dict(kind=kind, dt=dt, hist=hist, start=start, flags=flags))
    ns = round(dt * 1e9)
    tt = lambda t: t * 10 // ns if t * 10 % ns == 0 else -7777
    try:
        with core.quiet():
            refs = []
            for f in fields:                      # each field seen by a fresh object
                o, ef = build(rng, kind, dt, 0, {})
                ef.A[:], ef.phaseInNm[:] = amp, f
                ef.generation_time = 0
                o.setup()
                o.check_ready(0), o.trigger(), o.post_trigger()
                refs.append(channels(o, kind, pix, '')[0])
            m = np.maximum(np.abs(refs).max(axis=0), 1e-30)
            q = lambda v, s=SC: [int(round(z)) if abs(z) < 2 ** 30 else 2 ** 30 for z in np.nan_to_num(v / m * s, nan=2e30)]
            no_sr = [k for k in range(len(m)) if k != len(pix)]
            d['ref'] = [q(r) for r in refs]
            d['refy'] = [q(r, 1024) for r in refs]
            o, ef = build(rng, kind, dt, start, flags)
            ef.A[:] = amp
            o.setup()
            for j, f in enumerate(hist):
                now = j * ns
                if f:
                    ef.phaseInNm[:] = fields[f - 1]
                    ef.generation_time = now
                ran = o.check_ready(now)
                if ran:
                    o.trigger()
                    o.post_trigger()
                elif f:
                    raise ValueError('did not run')
                if not ran and not any(hist[:j]):
                    continue            # never run so far: nothing published
                v, t = channels(o, kind, pix, '')
                if flags.get('compute_metrics_in_trigger') and ran:
                    t += [int(o.outputs[n].generation_time) for n in ('out_psf_profile', 'out_psf_fwhm')]
                e = dict(k='run' if ran else 'look', t=10 * j, q=q(v), ot=[tt(z) for z in t])
                if ran:
                    e['f'] = f
                elif flags.get('compute_metrics_in_trigger'):
                    e['ot'] += [tt(int(o.outputs[n].generation_time)) for n in ('out_psf_profile', 'out_psf_fwhm')]
                ev.append(e)
            o.finalize()
            r, t = channels(o, kind, pix, 'int')
            s, t2 = channels(o, kind, pix, 'std')
            full = np.zeros(len(m))
            full[no_sr] = s
            s = q(full, 1024)
            s[len(pix)] = -1
            ev.append(dict(k='fin', t=10 * (len(hist) - 1), r=q(r), s=s, ot=[tt(z) for z in t + t2]))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
        d.setdefault('ref', [[0]])
        d.setdefault('refy', [[0]])
    d['ev'] = ev
    return d


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng) for k in range(count)]


def replay(seed, behs, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng, b) for k, b in enumerate(behs)]


def check(ctx):
    beh = ctx.model_check('MCLongExp')
    ctx.rng.shuffle(beh)
    beh = beh[:ctx.n(600, 10000)]
    parts = [beh[k::6] for k in range(6)]
    traces = [t for r in core.jobs('c20', 'replay', [[ctx.seed + k, p, f'm{k}.'] for k, p in enumerate(parts)]) for t in r]
    traces += core.spread(ctx, 'c20', 'gen', ctx.n(900, 20000), prefix='r')
    traces += core.spread(ctx, 'c20', 'gen', ctx.n(150, 3000), parts=2, precision=1, prefix='s')
    ctx.need(sum(len(t['ev']) > 3 for t in traces) > 400, 'runs')
    ctx.validate('LongExpTrace', traces)
    ctx.assumptions.append('four pixels and the Strehl ratio judged, as integers of 20 bits; instantaneous outputs compared with those of a fresh object')
