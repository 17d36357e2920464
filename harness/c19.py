"""C19: calibrators: interaction matrices from push-pull histories, slope nulls, reconstructors, and their files."""
import os
import random
import shutil
import tempfile
import numpy as np
import core

UNIT = 1000
AMPS = [1.0, -1.0, 2.0, .5, -.25, -2.0, .25]


def scaled(a, unit=UNIT):
    """the values in units of 1/unit, rounded"""
    out = []
    for x in np.asarray(a, dtype=float).ravel():
        v = x * unit
        out.append(int(round(v)) if np.isfinite(v) and abs(v) < 2 ** 24 else -10 ** 9)
    return out


def cols(m):
    m = np.asarray(m)
    return [scaled(m[:, k]) for k in range(m.shape[1])]


def setv(o, v, t):
    o.set_value(np.asarray(v, dtype=float))
    o.generation_time = t


def step(o, t):
    if o.check_ready(t):
        o.trigger()
        o.post_trigger()


def generator(rng, n, first):
    k = n - first
    p = dict(n=n, first=first, pattern=rng.choice([[1, -1], [1], [-1, 1], [1, -1, 2], [2, -2, -2, 2]]), amp=[rng.choice([4, 8, 16, -4, 2]) for _ in range(k)],
             cycles=rng.randint(1, 3), samples=rng.randint(1, 3), each=rng.random() < .5, full=rng.random() < .3)
    kw = dict(vect_amplitude=[a / 4 for a in p['amp']])
    if rng.random() < .3:
        p['amp'] = [p['amp'][0]] * k
        kw = dict(amp=p['amp'][0] / 4, constant_amp=True)
    if rng.random() < .2:
        p['pattern'], p['samples'] = [1], 1
        kw['push_pull_type'] = rng.choice(['PUSH', 'push'])
    elif p['pattern'] != [1, -1] or rng.random() < .5:
        kw['pattern'] = p['pattern']
    kw['nsamples'] = p['samples']
    return p, dict(kw, nmodes=n, first_mode=first, ncycles=p['cycles'], repeat_ncycles=p['each'], repeat_full_sequence=p['full'])


NOGEN = dict(n=0, first=0, pattern=[], amp=[], cycles=0, samples=0, each=False, full=False)


def im_trace(tid, rng, hist=None):
    from specula.processing_objects.im_calibrator import ImCalibrator
    from specula.processing_objects.multi_im_calibrator import MultiImCalibrator
    from specula.processing_objects.rec_calibrator import RecCalibrator
    from specula.processing_objects.push_pull_generator import PushPullGenerator
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.slopes import Slopes
    from specula.base_value import BaseValue
    tmp = tempfile.mkdtemp(prefix='c19')
    ev = []
    multi = rng.random() < .5
    sensors = 2 if hist is not None and multi else rng.randint(1, 3) if multi else 1
    first = 0 if multi else 1 if hist is not None else rng.choice([0, 0, 1, 2])
    nmodes = 2 if hist is not None else rng.randint(1, 4)
    width = 3 if hist is not None else first + nmodes + rng.choice([0, 0, 1])
    ns = [2 * rng.randint(1, 2) for _ in range(sensors)]
    d = dict(id=tid, kind='im', cls='MultiImCalibrator' if multi else 'ImCalibrator', first=first, nmodes=nmodes, ns=ns, p=NOGEN)
    try:
        with core.quiet():
            data_dir = os.path.join(tmp, rng.choice(['', 'sub/dir']))
            ow = rng.random() < .5
            p = None
            if hist is None and rng.random() < .5:
                p, kw = generator(rng, width, rng.choice([0, first, min(first + 1, width - 1)]))
                gen = PushPullGenerator(**kw)
                gen.setup()
                total = len(p['pattern']) * (p['n'] - p['first']) * p['cycles'] * p['samples']
                d['p'] = p
            streams = 1 if p or hist is not None or not multi else rng.randint(1, 2)
            if hist is None:
                hist = []
                for k in range(total if p else rng.randint(1, 14)):
                    cs = []
                    for s in range(streams):
                        c = [0] * width
                        if rng.random() < .8 and not any(any(x) for x in cs):      # one mode at a time
                            c[rng.randrange(width)] = int(4 * rng.choice(AMPS))
                        cs.append(c)
                    fresh = [rng.random() < .8 for _ in range(sensors)] if rng.random() < .6 else [True] * sensors
                    hist.append((cs, fresh, rng.random() < .8))
            else:
                hist = [([h['c']], h['fresh'][:sensors], True) for h in hist]
            resp = [8 * np.random.default_rng(rng.randrange(1 << 30)).integers(-5, 6, (n, width)) for n in ns]
            noise = rng.random() < .5
            sl = [Slopes(n) for n in ns]
            cmd = [BaseValue(value=np.zeros(width)) for _ in range(streams)]
            if multi:
                cal = MultiImCalibrator(nmodes=nmodes, n_inputs=sensors, data_dir=data_dir, im_tag=[f'im{k}' for k in range(sensors)], full_im_tag='full', overwrite=ow)
                cal.inputs['in_slopes_list'].set(sl)
                cal.inputs['in_commands_list'].set(cmd)
            else:
                cal = ImCalibrator(nmodes=nmodes, data_dir=data_dir, im_tag='im0', first_mode=first, overwrite=ow)
                cal.inputs['in_slopes'].set(sl[0])
                cal.inputs['in_commands'].set(cmd[0])
            cal.verbose = rng.random() < .2
            cal.setup()
            dt = 10 ** 6
            held = [[0] * width for _ in range(streams)]
            shown = [np.zeros(n) for n in ns]
            for k, (cs, fresh, cfresh) in enumerate(hist):
                t = k * dt
                if p:
                    step(gen, t)
                    held = [[int(x) for x in scaled(gen.outputs['output'].value, 4)]]
                    setv(cmd[0], gen.outputs['output'].value, t)
                elif cfresh:
                    held = cs
                    for o, c in zip(cmd, cs):
                        setv(o, np.array(c) / 4, t)
                for w in range(sensors):
                    if fresh[w]:
                        r = sum(resp[w] @ (np.array(c) / 4) for c in held)
                        if noise:
                            r = r + 8 * np.random.default_rng(rng.randrange(1 << 30)).integers(-4, 5, ns[w])
                        shown[w] = r
                        setv(sl[w], r, t)
                step(cal, t)
                ev.append(dict(cmds=held, sl=[scaled(v, 1) for v in shown], fresh=list(fresh)))
            cal.finalize()
            outs = cal.outputs['out_intmat_list'] if multi else [cal.outputs['out_intmat']]
            read = lambda n: cols(Intmat.restore(os.path.join(data_dir, n + '.fits')).intmat)
            any_seen = outs[0].nslopes > 0
            e = dict(fin=True, im=[cols(o.intmat) for o in outs], saved=[read(f'im{k}') for k in range(sensors)], full=[], fullsaved=[])
            if multi:
                e['full'], e['fullsaved'] = cols(cal.outputs['out_intmat_full'].intmat), read('full')
            if not any_seen:
                return None
            ev.append(e)
    except Exception as x:
        b = core.blame(x)
        if not b:
            raise
        ev.append(dict(err=b))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    d['ev'] = ev
    return d


def sn_trace(tid, rng):
    from specula.processing_objects.sn_calibrator import SnCalibrator
    from specula.data_objects.slopes import Slopes
    tmp = tempfile.mkdtemp(prefix='c19')
    n = 2 * rng.randint(1, 3)
    d = dict(id=tid, kind='sn', ns=n)
    ev = []
    try:
        with core.quiet():
            s = Slopes(n)
            o = SnCalibrator(data_dir=tmp, output_tag='sn', overwrite=rng.random() < .5)
            o.inputs['in_slopes'].set(s)
            o.setup()
            k = 0
            while len(ev) < rng.randint(1, 11) or not ev:
                if rng.random() < .7:
                    v = np.random.default_rng(rng.randrange(1 << 30)).integers(-200, 200, n)
                    setv(s, v, k)
                    ev.append(dict(sl=[int(x) for x in v]))
                step(o, k)
                k += 1
            o.finalize()
            ev.append(dict(fin=True, saved=scaled(Slopes.restore(tmp + '/sn.fits').slopes)))
    except Exception as x:
        b = core.blame(x)
        if not b:
            raise
        ev.append(dict(err=b))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    d['ev'] = ev
    return d


def rec_trace(tid, rng):
    from specula.processing_objects.rec_calibrator import RecCalibrator
    from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.recmat import Recmat
    tmp = tempfile.mkdtemp(prefix='c19')
    d = dict(id=tid, kind='rec')
    ev = []
    g = np.random.default_rng(rng.randrange(1 << 30))
    try:
        with core.quiet():
            m, k = rng.randint(1, 4), rng.randint(1, 3)
            use = rng.randint(1, m)
            ims = [np.vstack([np.eye(m), g.integers(-3, 4, (rng.randint(0, 3), m))]) * rng.choice([1, 2, .5]) for _ in range(k)]
            objs = [Intmat(a.copy()) for a in ims]
            data_dir = os.path.join(tmp, rng.choice(['', 'new/dir']))
            if rng.random() < .5:
                cal = MultiRecCalibrator(nmodes=use, data_dir=data_dir, rec_tag='rec', full_rec_tag='full', overwrite=rng.random() < .5)
                full = np.vstack(ims)
                cal.inputs['intmat_list'].set(objs)
                f = Intmat(full.copy())
                cal.inputs['full_intmat'].set(f)
                pairs = [(f'rec{i}', a) for i, a in enumerate(ims)] + [('full', full)]
                objs.append(f)
            else:
                cal = RecCalibrator(nmodes=use, data_dir=data_dir, rec_tag='rec', overwrite=rng.random() < .5)
                cal.inputs['in_intmat'].set(objs[0])
                pairs = [('rec', ims[0])]
            cal.setup()
            for o in objs:
                o.generation_time = 0
            step(cal, 0)
            cal.finalize()
            for name, a in pairs:
                r = np.asarray(Recmat.restore(os.path.join(data_dir, name + '.fits')).recmat)
                q = a[:, :use] @ r
                ev.append(dict(prod=[scaled(x, 1000) for x in r @ a[:, :use]], sym=bool(np.allclose(q, q.T, atol=1e-9)), nmodes=use))
    except Exception as x:
        b = core.blame(x)
        if not b:
            raise
        ev.append(dict(err=b))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    d['ev'] = ev
    return d


def discs():
    """four pupils of a pyramid sensor"""
    y, x = np.mgrid[0:48, 0:48]
    im = np.zeros((48, 48))
    for cy in (13, 35):
        for cx in (13, 35):
            im[(y - cy) ** 2 + (x - cx) ** 2 <= 64] = 100
    return im


def keep_trace(tid, rng, n):
    """one calibrator, with a file in its way at construction, at saving, or not"""
    from specula.data_objects.slopes import Slopes
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.subap_data import SubapData
    from specula.data_objects.pupdata import PupData
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.intensity import Intensity
    from specula.base_value import BaseValue
    g = np.random.default_rng(rng.randrange(1 << 30))
    kinds = ['im', 'multi', 'multifull', 'rec', 'multirec', 'multirecfull', 'sn', 'subap', 'pup', 'dark']
    kind = kinds[n % len(kinds)]
    before, between = rng.random() < .5, rng.random() < .5
    ow = rng.random() < .5
    tmp = tempfile.mkdtemp(prefix='c19')
    data_dir = os.path.join(tmp, 'd')
    path = os.path.join(data_dir, {'multi': 'x1', 'multirec': 'x1', 'multirecfull': 'full', 'multifull': 'full'}.get(kind, 'x') + '.fits')
    e = dict(before=before, between=before or between, ow=ow, ctor='ok', fin='ok', same=True, saved=True)
    d = dict(id=tid, kind='keep', cls=kind, ev=[e])
    junk = b'an older calibration'

    def occupy():
        os.makedirs(data_dir, exist_ok=True)
        open(path, 'wb').write(junk)
    try:
        with core.quiet():
            if before:
                occupy()
            try:
                ims = [Intmat(np.vstack([np.eye(2), g.integers(-3, 4, (2, 2))])) for _ in range(2)]
                sl = [Slopes(4) for _ in range(2)]
                cmd = BaseValue(value=np.zeros(2))
                if kind == 'im':
                    from specula.processing_objects.im_calibrator import ImCalibrator as C
                    o = C(nmodes=2, data_dir=data_dir, im_tag='x', overwrite=ow)
                    o.inputs['in_slopes'].set(sl[0]), o.inputs['in_commands'].set(cmd)
                elif kind in ('multi', 'multifull'):
                    from specula.processing_objects.multi_im_calibrator import MultiImCalibrator as C
                    o = C(nmodes=2, n_inputs=2, data_dir=data_dir, im_tag=['x0', 'x1'], full_im_tag='full', overwrite=ow)
                    o.inputs['in_slopes_list'].set(sl), o.inputs['in_commands_list'].set([cmd])
                elif kind == 'rec':
                    from specula.processing_objects.rec_calibrator import RecCalibrator as C
                    o = C(nmodes=2, data_dir=data_dir, rec_tag='x', overwrite=ow)
                    o.inputs['in_intmat'].set(ims[0])
                elif kind in ('multirec', 'multirecfull'):
                    from specula.processing_objects.multi_rec_calibrator import MultiRecCalibrator as C
                    o = C(nmodes=2, data_dir=data_dir, rec_tag='x', full_rec_tag='full', overwrite=ow)
                    o.inputs['intmat_list'].set(ims)
                    full = Intmat(np.vstack([i.intmat for i in ims]))
                    full.generation_time = 0
                    o.inputs['full_intmat'].set(full)
                elif kind == 'sn':
                    from specula.processing_objects.sn_calibrator import SnCalibrator as C
                    o = C(data_dir=data_dir, output_tag='x', overwrite=ow)
                    o.inputs['in_slopes'].set(sl[0])
                elif kind == 'subap':
                    from specula.processing_objects.sh_subap_calibrator import ShSubapCalibrator as C
                    o = C(subap_on_diameter=2, data_dir=data_dir, energy_th=.1, output_tag='x', overwrite=ow)
                    i = Intensity(8, 8)
                    setv(i, g.random((8, 8)) + .5, 0)
                    o.inputs['in_i'].set(i)
                elif kind == 'pup':
                    from specula.processing_objects.pyr_pupdata_calibrator import PyrPupdataCalibrator as C
                    o = C(data_dir=data_dir, output_tag='x', overwrite=ow)
                    i = Intensity(48, 48)
                    setv(i, discs(), 0)
                    o.inputs['in_i'].set(i)
                else:
                    from specula.processing_objects.dynamic_dark_calibrator import DynamicDarkCalibrator as C
                    o = C(data_dir=data_dir, nframes=1, overwrite=ow)
                    i = Pixels(4, 3)
                    setv(i, g.integers(0, 99, (3, 4)), 0)
                    go = BaseValue(value=1.0)
                    go.generation_time = 0
                    o.inputs['in_pixels'].set(i), o.inputs['in_trigger'].set(go)
                o.setup()
            except FileExistsError:
                e['ctor'] = 'refused'
            if e['ctor'] == 'ok':
                for q, v in enumerate([[1, 0], [0, -1]]):
                    setv(cmd, v, q)
                    for s in sl:
                        setv(s, g.integers(-8, 9, 4), q)
                    for s in ims:
                        s.generation_time = 0
                    step(o, q)
                if between:
                    occupy()
                try:
                    o.save('x') if kind == 'dark' else o.finalize()
                except OSError as x:
                    e['fin'] = 'refused'
                    d['note'] = str(x)
                if e['fin'] == 'ok' and not (e['between'] and not ow):
                    same = lambda a, b: bool(np.array_equal(np.asarray(a, dtype=float), np.asarray(b, dtype=float)))
                    if kind == 'im':
                        e['saved'] = same(Intmat.restore(path).intmat, o.outputs['out_intmat'].intmat)
                    elif kind == 'multi':
                        e['saved'] = same(Intmat.restore(path).intmat, o.outputs['out_intmat_list'][1].intmat)
                    elif kind == 'multifull':
                        e['saved'] = same(Intmat.restore(path).intmat, o.outputs['out_intmat_full'].intmat)
                    elif 'rec' in kind:
                        m = {'rec': ims[0], 'multirec': ims[1]}.get(kind) or full
                        e['saved'] = bool(np.allclose(Recmat.restore(path).recmat, np.linalg.pinv(m.intmat)))
                    elif kind == 'sn':
                        e['saved'] = same(Slopes.restore(path).slopes, o.slopes.slopes)
                    elif kind == 'subap':
                        r = SubapData.restore(path)
                        e['saved'] = same(r.idxs, o.subaps.idxs) and same(r.display_map, o.subaps.display_map) and r.nx == r.ny == 2
                    elif kind == 'pup':
                        r = PupData.restore(path)
                        e['saved'] = same(r.ind_pup, o.pupdata.ind_pup) and same(r.cx, o.pupdata.cx) and same(r.framesize, [48, 48])
                    else:
                        e['saved'] = same(Pixels.restore(path).pixels, i.pixels)
            if e['between']:
                e['same'] = os.path.exists(path) and open(path, 'rb').read() == junk
            if before and e['ctor'] == 'refused':
                e['same'] = os.path.exists(path) and open(path, 'rb').read() == junk
    except Exception as x:
        b = core.blame(x)
        if not b:
            raise
        d['ev'] = [dict(err=b)]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return d


def gen(seed, count, prefix):
    rng = random.Random(seed)
    out = []
    for k in range(count):
        u = k % 8
        out.append(im_trace(f'{prefix}{k}', rng) if u < 4 else sn_trace(f'{prefix}{k}', rng) if u == 4 else rec_trace(f'{prefix}{k}', rng) if u == 5 else
                   keep_trace(f'{prefix}{k}', rng, k // 8 * 2 + u - 6))
    return [t for t in out if t]


def replay(seed, behs, prefix):
    rng = random.Random(seed)
    return [t for t in (im_trace(f'{prefix}{k}', rng, b) for k, b in enumerate(behs)) if t]


def check(ctx):
    beh = ctx.model_check('MCCalib')
    ctx.rng.shuffle(beh)
    beh = beh[:ctx.n(900, 12000)]
    traces = [t for r in core.jobs('c19', 'replay', [[ctx.seed + k, beh[k::6], f'm{k}.'] for k in range(6)]) for t in r]
    traces += core.spread(ctx, 'c19', 'gen', ctx.n(1900, 24000), prefix='r')
    ctx.need(sum(t['kind'] == 'im' for t in traces) > 1500, 'calibrations')
    ctx.need(sum(t['kind'] == 'keep' for t in traces) > 300, 'files')
    ctx.need(sum(t['kind'] == 'im' and t['p']['n'] > 0 for t in traces) > 200, 'generated sequences')
    ctx.validate('CalibTrace', traces)
    ctx.assumptions.append('one mode is moved at a time; responses are exact multiples of the amplitudes')
