"""C35: what the wavefront sensors see.  Reference frames are taken in forked processes, each with one new sensor which is
triggered once, before the process that records the traces has built any sensor."""
import json
import os
import pickle
import random
import numpy as np
import core

N, PITCH, UNIT, NBINS = 24, 0.1, 100000, 32
LAM = (600.0, 900.0, 1200.0)


def enc(x, scale=1):
    v = float(x) * scale
    return int(round(v)) if np.isfinite(v) and abs(v) < 2e9 else 2000000001


def sh(rng, **k):
    d = dict(cls='sh', wavelengthInNm=rng.choice(LAM), subap_wanted_fov=rng.choice([3.0, 6.0, 2.5]), sensor_pxscale=rng.choice([0.5, 0.4]), subap_on_diameter=rng.choice([2, 3, 4, 6]),
             subap_npx=rng.choice([4, 6, 8, 12]), squaremask=rng.random() < .6, fov_ovs_coeff=rng.choice([1, 1, 1.5, 2]),
             xShiftPhInPixel=rng.choice([0, 0, 0, 1.5]), yShiftPhInPixel=rng.choice([0, 0, 0, -1]), rotAnglePhInDeg=rng.choice([0, 0, 0, 15]))
    d.update(k)
    return d


def pyr(rng, **k):
    d = dict(cls='pyr', wavelengthInNm=rng.choice(LAM), fov=rng.choice([0.6, 0.9]), pup_diam=rng.choice([8, 10]), output_resolution=rng.choice([28, 32]), mod_amp=1.0,
             mod_step=8, mod_type=rng.choice(['circular', 'vertical', 'horizontal']), fov_errinf=0.9, fov_errsup=9.0, rotAnglePhInDeg=rng.choice([0, 0, 20]),
             pup_shifts=rng.choice([(0.0, 0.0), (0.0, 0.0), (1.0, -0.5)]), pyr_tip_def_ld=rng.choice([0.0, 0.0, 1.0]))
    d.update(k)
    return d


def other(rng):
    w = rng.choice(LAM)
    return rng.choice([
        dict(cls='roof', wavelengthInNm=w, fov=2.0, pup_diam=8, output_resolution=30, mod_amp=1.0, mod_step=8, fov_errinf=0.9, fov_errsup=9.0),
        dict(cls='zern', wavelengthInNm=w, fov=2.0, pup_diam=10, output_resolution=16),
        dict(cls='curv', wavelengthInNm=w, wanted_fov=1.5, pxscale=rng.choice([0.1, 0.05]), number_px=20, defocus_rms_nm=200.0),
        dict(cls='ciao', wavelengthInNm=w, number_px=rng.choice([12, 24]), tiltInArcsec=(0.02, -0.1), rotAnglePhInDeg=rng.choice([0.0, 30.0]), diffRotAngleInDeg=rng.choice([180.0, 90.0])),
        dict(cls='deriv', nx=rng.choice([4, 6]), fov=2.0),
        dict(cls='lyot', wavelengthInNm=w, iwaInLambdaOverD=2.0, innerStopAsRatioOfPupil=0.0, outerStopAsRatioOfPupil=0.9),
        dict(cls='fpf', wavelengthInNm=w, fov=rng.choice([0.5, 0.8]), fov_errinf=0.9, fov_errsup=9.0, fp_obs=rng.choice([0.0, 0.2])),
        dict(cls='app', wavelengthInNm=w, contrastInDarkHole=0.02, iwaInLambdaOverD=2.0, owaInLambdaOverD=5.0, max_its=500, make_symmetric=rng.random() < .5),
        dict(cls='quad', wavelengthInNm=w, outerStopAsRatioOfPupil=0.9),
        dict(cls='vort', wavelengthInNm=w, vortexCharge=2, outerStopAsRatioOfPupil=0.9),
        dict(cls='pcor', wavelengthInNm=w, nd=rng.choice([2, 3]), use_average_field=rng.random() < .5)])


CLASSES = {'sh': ('sh', 'SH'), 'dist': ('distributed_sh', 'DistributedSH'), 'psh': ('poly_chrom_sh', 'PolyChromSH'), 'pyr': ('modulated_pyramid', 'ModulatedPyramid'),
           'fpf': ('focal_plane_filter', 'FocalPlaneFilter'), 'app': ('apodizer_coronagraph', 'APPCoronagraph'),
           'ext': ('ext_source_pyramid', 'ExtSourcePyramid'),
           'ppyr': ('poly_crom_pyramid', 'PolyCromPyramid'), 'roof': ('modulated_double_roof', 'ModulatedDoubleRoof'), 'zern': ('zernike_sensor', 'ZernikeSensor'),
           'curv': ('curvature_sensor', 'CurvatureSensor'), 'ciao': ('ciao_ciao_sensor', 'CiaoCiaoSensor'), 'deriv': ('ideal_derivative_sensor', 'IdealDerivativeSensor'),
           'lyot': ('lyot_coronagraph', 'LyotCoronagraph'), 'quad': ('four_quadrant_coronagraph', 'FourQuadrantCoronagraph'),
           'vort': ('vortex_coronagraph', 'VortexCoronagraph'), 'pcor': ('psf_coronagraph', 'PsfCoronagraph')}


def load():
    import importlib
    import specula.data_objects.subap_data
    import specula.data_objects.simul_params
    for mod, _ in CLASSES.values():
        importlib.import_module('specula.processing_objects.' + mod)


def build(d, ef):
    import importlib
    from specula.data_objects.simul_params import SimulParams
    d = dict(d)
    mod, cls = CLASSES[d.pop('cls')]
    if mod not in ('sh', 'distributed_sh', 'poly_chrom_sh', 'curvature_sensor', 'ciao_ciao_sensor'):
        d['simul_params'] = SimulParams(pixel_pupil=N, pixel_pitch=PITCH)
    if 'nx' in d:
        from specula.data_objects.subap_data import SubapData
        nx = d.pop('nx')
        own = sorted(random.Random(nx).sample(range(nx * nx), nx * nx - 3))
        d['subapdata'] = SubapData(idxs=np.zeros((len(own), 4), dtype=int), display_map=np.array(own), nx=nx, ny=nx)
    points = d.pop('points', None)
    if mod == 'apodizer_coronagraph':
        d['pupil'] = np.ones((N, N))
    o = getattr(importlib.import_module('specula.processing_objects.' + mod), cls)(**d)
    o.inputs['in_ef'].set(ef)
    if points:
        from specula.base_value import BaseValue
        src = BaseValue(value=np.array(points, dtype=float))
        src.generation_time = 0
        o.inputs['ext_source_coeff'].set(src)
        o.source_of_this_harness = src
    o.setup()
    return o


def light(d):
    # images moved over the detector lose or double some of their borders
    if d['cls'] == 'pcor':
        return 'dark'
    return '' if d['cls'] == 'deriv' or d.get('pup_shifts', (0.0, 0.0)) != (0.0, 0.0) else 'scale' if d['cls'] in ('lyot', 'quad', 'vort', 'fpf', 'app') else 'field'


def frames(o, flip):
    """(main array, total, everything as one vector, fraction of the light declared to pass, time)"""
    out = o.outputs
    if 'out_i' in out or 'out_i1' in out:
        a = np.array(out['out_i'].i if 'out_i' in out else np.stack([out['out_i1'].i, out['out_i2'].i]), dtype=float)
        a = np.swapaxes(a, -1, -2) if flip else a
        tot, ref = float(a.sum()), out.get('out_i') or out['out_i1']
        rest, p = [], 1.0
        if 'out_transmission' in out:
            p = float(np.ravel(out['out_transmission'].value)[0]) * (float(np.ravel(o.flux_frac_inside_ccd.value)[0]) if hasattr(o, 'flux_frac_inside_ccd') else 1.0)
            rest = [p]
            for k in ('out_psf_tot', 'out_psf_bfm'):
                if k in out:
                    v = np.array(out[k].value, dtype=float)
                    rest += list((v.T if flip else v).ravel() / (v.sum() or 1.0))
        if 'out_i1' in out:
            tot /= 2
        return a / (tot or 1.0), tot, np.concatenate([a.ravel() / (tot or 1.0) * a.size, np.array(rest) * max(1, len(rest))]), p, ref.generation_time
    if 'out_coronagraph_psf' in out:
        c, q = (np.zeros(1) if out[k].value is None else np.array(out[k].value, dtype=float) for k in ('out_coronagraph_psf', 'out_psf'))
        v = np.concatenate([c.ravel(), q.ravel(), np.ravel(out['out_sr'].value or 0.0)])
        return v, float(c.max() / (q.max() or 1.0)), v, 0.0, out['out_coronagraph_psf'].generation_time
    if 'out_slopes' in out:
        s = out['out_slopes']
        v = np.array(s.slopes, dtype=float)
        return v, 0.0, v, 0.0, s.generation_time
    e = out['out_ef']
    v = np.concatenate([np.array(e.A, dtype=float).ravel(), np.array(e.A * np.cos(e.phaseInNm * 2 * np.pi / 900), dtype=float).ravel()])
    return v, float(e.S0), v, float(e.S0), e.generation_time


def run(o, ef, t):
    ef.generation_time = t
    if hasattr(o, 'source_of_this_harness') and t % 3 == 0:
        o.source_of_this_harness.generation_time = t
    r = o.check_ready(t)
    if r or (r is None and o.inputs_changed):
        o.trigger()
        o.post_trigger()


def field(world, key):
    from specula.data_objects.electric_field import ElectricField
    ef = ElectricField(N, N, PITCH, S0=1.0)
    ef.A[:] = world['A'].T if key.endswith('T') else world['A']
    ef.phaseInNm[:] = world['c'][key]
    return ef


def child(world, cfg, key):
    """frame of a new sensor in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                with core.quiet():
                    ef = field(world, key)
                    o = build(cfg, ef)
                    run(o, ef, 5)
                a, tot, v, p, t = frames(o, False)
                res = dict(a=a, tot=tot, v=v, p=p, t=t, interp=bool(getattr(getattr(o, 'ef_interpolator', None), 'do_interpolation', True)))
            except Exception as x:
                res = dict(err=core.blame(x) or repr(x), type=type(x).__name__, code=bool(core.blame(x)))
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        res = pickle.load(f)
    os.waitpid(pid, 0)
    return res


def tilted(ph, t):
    """the field seen with a tilt of t arcsec, from the first to the last pixel"""
    u = np.linspace(-1, 1, N) * (N * PITCH / 2) / 206264.80624709636 * 1e9
    return ph + t[0] * u[None, :] + t[1] * u[:, None]


def binned(a, groups):
    return [enc(x, UNIT) for x in np.bincount(groups, weights=np.asarray(a, dtype=float).ravel(), minlength=NBINS)]


def groups(size):
    return np.random.default_rng(size).permutation(np.arange(size) % NBINS)


def worlds(rng):
    yy, xx = np.mgrid[:N, :N] - (N - 1) / 2
    r = np.hypot(xx, yy)
    A = ((r < N / 2) & (r >= rng.choice([0, 0, 4]))).astype(float) if rng.random() < .7 else np.ones((N, N))
    if rng.random() < .3:
        A[:, :rng.choice([3, 5])] = 0
    if rng.random() < .25:      # whole rows of lenslets in the dark
        A[slice(0, 12) if rng.random() < .5 else slice(12, 24)] = 0
    g = np.random.default_rng(rng.randrange(2**31))
    c = {}
    for k in 'ab':
        s = g.normal(size=(N, N)) * rng.choice([0, 20, 60]) + 80 * sum(g.normal() * np.cos(xx * g.normal() / 3 + yy * g.normal() / 3 + g.normal()) for _ in range(3))
        c[k] = s + g.normal() * 20 * xx + g.normal() * 20 * yy
    return dict(A=A, c=c)


def choose(rng):
    """configurations with references, and sensors made of them: name -> (configuration to build, flipped, parts)"""
    cfg, sensors, tilts = {}, {}, []

    def ref(d):
        for k, x in cfg.items():
            if x == d:
                return k
        cfg[f'r{len(cfg)}'] = d
        return f'r{len(cfg) - 1}'

    def tilt(t):
        if tuple(t) == (0, 0):
            return ''
        if t not in tilts:
            tilts.append(t)
        return f'+{tilts.index(t)}'

    def plain(d):
        sensors[f's{len(sensors)}'] = (d, False, [[(ref(d), 1, '')]])
    kind = rng.choice(['sh', 'sh', 'sh', 'pyr', 'pyr', 'mix', 'mix'])
    if kind == 'sh':
        base = sh(rng)
        plain(base)
        plain(sh(rng, **{k: base[k] for k in rng.sample(sorted(base), rng.randint(4, len(base) - 1))}))
        if rng.random() < .6:      # sensors with arrays of the same size
            a = sh(rng, wavelengthInNm=1200.0, subap_wanted_fov=3.0, sensor_pxscale=0.5, subap_npx=6, subap_on_diameter=rng.choice([2, 3, 4]), fov_ovs_coeff=2)
            plain(a)
            plain(dict(a, wavelengthInNm=600.0, subap_wanted_fov=6.0, subap_npx=12, fov_ovs_coeff=1))
        if rng.random() < .6:
            n = base['subap_on_diameter']
            sensors[f's{len(sensors)}'] = (dict(base, cls='dist', n_slices=rng.randint(1, n)), False, [[(ref(base), 1, '')]])
        if rng.random() < .6:
            ws, fl = rng.sample(LAM, 2), [rng.randint(1, 4), rng.randint(0, 4)]
            ts = [(0, 0), rng.choice([(0, 0), (0.3, 0), (0, -0.3), (0.2, 0.4)])]
            d = dict(base, cls='psh', wavelengthInNm=ws, flux_factor=[float(x) * .5 for x in fl], xy_tilts_in_arcsec=[list(t) for t in ts])
            sensors[f's{len(sensors)}'] = (d, False, [[(ref(dict(base, wavelengthInNm=w)), f, tilt(t)) for w, f, t in zip(ws, fl, ts)]])
        if rng.random() < .5 and base['rotAnglePhInDeg'] == 0:
            d = dict(base, xShiftPhInPixel=base['yShiftPhInPixel'], yShiftPhInPixel=base['xShiftPhInPixel'])
            sensors[f's{len(sensors)}'] = (d, True, [[(ref(base), 1, 'T')]])
    elif kind == 'pyr':
        base = pyr(rng)
        plain(base)
        if rng.random() < .5:
            plain(pyr(rng, **{k: base[k] for k in rng.sample(sorted(base), rng.randint(6, len(base) - 1))}))
        if rng.random() < .6:
            sensors[f's{len(sensors)}'] = (dict(base, mod_type='alternating'), False, [[(ref(dict(base, mod_type=m)), 1, '')] for m in ('vertical', 'horizontal')])
        if rng.random() < .6:
            ws, fl = rng.sample(LAM, 2), [rng.randint(1, 4), rng.randint(1, 4)]
            ts = [(0, 0), rng.choice([(0, 0), (0.05, 0), (0, -0.05)])]
            d = dict(base, cls='ppyr', wavelengthInNm=ws, flux_factor=[float(x) for x in fl], xy_tilts_in_arcsec=[list(t) for t in ts])
            sensors[f's{len(sensors)}'] = (d, False, [[(ref(dict(base, wavelengthInNm=w)), f, tilt(t)) for w, f, t in zip(ws, fl, ts)]])
        if rng.random() < .5:       # an extended source is the sum of its points
            e = {k: v for k, v in base.items() if not k.startswith('mod_')}
            e.update(cls='ext', max_batch_size=rng.choice([1, 2, 3, 8]), cuda_stream_enable=rng.random() < .5)
            pts = [[rng.choice([-2., -1., 0., 1., 2.]), rng.choice([-2., 0., 1.]), rng.choice([0., 0., .5]), float(rng.randint(1, 4))] for _ in range(rng.randint(1, 5))]
            one = dict(e, max_batch_size=1, cuda_stream_enable=True)
            sensors[f's{len(sensors)}'] = (dict(e, points=pts), False, [[(ref(dict(one, points=[q[:3] + [1.]])), int(q[3]), '') for q in pts]])
            if rng.random() < .4:
                sensors[f's{len(sensors)}'] = (dict(e, points=[[0., 0., 0., 1.]]), False, [[(ref(dict(base, mod_amp=0.0, mod_step=1, mod_type='circular')), 1, '')]])
        if rng.random() < .5 and base['rotAnglePhInDeg'] == 0 and base['pup_shifts'] == (0.0, 0.0) and base['pyr_tip_def_ld'] == 0:
            d = dict(base, mod_type={'vertical': 'horizontal', 'horizontal': 'vertical'}.get(base['mod_type'], 'circular'))
            sensors[f's{len(sensors)}'] = (d, True, [[(ref(base), 1, 'T')]])
    else:
        for _ in range(rng.randint(2, 3)):
            plain(other(rng))
        plain(rng.choice([sh, pyr])(rng))
    return cfg, sensors, tilts


def bench(tid, seed, steps=8, plan=None):
    rng = random.Random(seed)
    world = worlds(rng)
    cfg, sensors, tilts = choose(rng)
    keys = ['a', 'b']
    flip = any(s[1] for s in sensors.values())
    if flip:
        world['A'] = np.maximum(world['A'], world['A'].T)
        for k in 'ab':
            world['c'][k + 'T'] = world['c'][k].T.copy()
        keys += ['aT', 'bT']
    lam = rng.choice(sorted({w for d in cfg.values() if 'wavelengthInNm' in d for w in [d['wavelengthInNm']]} or {600.0}))
    wraps = np.random.default_rng(seed).integers(-2, 3, (N, N))
    world['c']['a~'] = world['c']['a'] + 137.25 + lam * wraps      # the same field for a sensor at this wavelength
    world['c']['b^'] = world['c']['b'] - 61.5       # piston alone
    world['c']['f'] = np.full((N, N), 30.0)
    keys += ['a~', 'b^', 'f']
    for k in list(keys):
        for j, t in enumerate(tilts):
            world['c'][f'{k}+{j}'] = tilted(world['c'][k], t)
    refs, raw = {}, {}
    same, piston = {}, {}
    for r, d in cfg.items():
        raw[r] = {k: child(world, d, k) for k in world['c'] if '+' not in k or any(p[0] == r and p[2] for s in sensors.values() for ps in s[2] for p in ps)}
        e = [x for x in raw[r].values() if 'err' in x]
        if e:
            if e[0]['type'] == 'ValueError':       # refused configuration
                return None
            return dict(id=tid, kind='bench', seed=seed, ev=[dict(err=e[0]['err'][-300:])])
        if not all(np.isfinite(x['v']).all() and (x['tot'] > 0 or d['cls'] in ('deriv', 'pcor')) for x in raw[r].values()):
            return None
        piston[r] = d['cls'] in ('sh', 'pyr', 'ext', 'zern', 'pcor', 'curv', 'psf') and not any(x['interp'] for x in raw[r].values()) or d['cls'] == 'pcor'
        same[r] = d.get('wavelengthInNm') == lam and d['cls'] in ('sh', 'pyr', 'ext', 'zern') and not any(x['interp'] for x in raw[r].values())
        scale = 1.0 if d['cls'] not in ('deriv', 'lyot', 'quad', 'vort', 'fpf', 'app', 'pcor') else 1.0 / (np.abs(raw[r]['a']['a']).sum() or 1.0)
        refs[r] = {k: dict(bins=binned(x['a'] * scale, groups(x['a'].size)), **{'pass': enc(x['p'], UNIT)}) for k, x in raw[r].items()}
        raw[r]['scale'] = scale
    spec = {}
    for name, (d, fl, parts) in sensors.items():
        out = []
        for ps in parts:
            qs = []
            for r, w, suf in ps:
                m = {}
                for k in keys:
                    base = 'a' if k == 'a~' and same[r] and not suf else 'b' if k == 'b^' and piston[r] and not suf else k
                    if suf == 'T':
                        base = {'a': 'aT', 'aT': 'a', 'b': 'bT', 'bT': 'b', 'a~': 'aT' if same[r] else k, 'b^': 'bT' if piston[r] else k}.get(k, k)
                    m[k] = base + (suf if suf != 'T' else '')
                qs.append(dict(cfg=r, w=w, map=m))
            out.append(qs)
        spec[name] = dict(parts=out, light=light(d))
    if flip:     # what a flipped sensor sees of the wrapped field is only known where the wraps do not matter
        for name, (d, fl, parts) in sensors.items():
            if fl and not all(same[r] and piston[r] for ps in parts for r, _, _ in ps):
                keys = [k for k in keys if k not in ('a~', 'b^')]
    lit = int(world['A'].sum())
    ev, live = [], {}
    with core.quiet():
        ef = field(world, 'a')
    order = list(sensors)
    rng.shuffle(order)
    visitors = []

    def visit(t):
        """a sensor of the same kind that looks somewhere else, through a clear pupil"""
        if len(visitors) < 2:
            other = field(world, 'a')
            other.A[:] = 1.0
            visitors.append((build(sensors[rng.choice(order)][0], other), other))
        o, other = rng.choice(visitors)
        other.phaseInNm[:] = rng.choice([world['c']['b'], world['c']['b'][::-1], 0 * world['c']['b']])
        other.S0 = float(rng.randint(1, 9))
        run(o, other, t)
    if plan:
        if len(order) < 2:
            return None
        steps = len(plan)
    try:
        with core.quiet():
            for t in range(1, steps + 1):
                p = plan[t - 1] if plan else None
                for name in order[len(live):p['built'] if p else None if t > 2 else len(live) + 2]:
                    live[name] = build(sensors[name][0], ef)
                put, S = '', 0
                if p['put'] if p else t == 1 or rng.random() < .75:
                    put, S = p['put'] if p else rng.choice(keys), rng.randint(1, 9)
                    ef.phaseInNm[:] = world['c'][put]
                    ef.S0 = float(S)
                    ef.generation_time = t
                before = (ef.A.tobytes(), ef.phaseInNm.tobytes(), ef.S0, ef.generation_time)
                poll = [n for n in live if rng.random() < .8]
                rng.shuffle(poll)
                if p:
                    poll = [order[int(n[1])] for n in p['poll']]
                for n in poll:
                    o = live[n]
                    if rng.random() < .25:
                        visit(t)
                    r = o.check_ready(t)
                    if r or (r is None and o.inputs_changed):
                        o.trigger()
                        o.post_trigger()
                same_ = before == (ef.A.tobytes(), ef.phaseInNm.tobytes(), ef.S0, ef.generation_time)
                obs = {}
                for n, o in live.items():
                    d, fl, parts = sensors[n]
                    a, tot, v, p, g = frames(o, fl)
                    own = {r for ps in parts for r, _, _ in ps}
                    dist = {r: {k: min(10**9, enc(np.abs(v - x['v']).max() / (np.abs(x['v']).max() + 1e-30), 10**6) if v.shape == x['v'].shape and np.isfinite(v).all() else 10**9)
                                for k, x in raw[r].items() if k != 'scale'} for r in own}
                    obs[n] = dict(bins=binned(a * raw[parts[0][0][0]]['scale'], groups(a.size)), dist=dist, t=int(g),
                                  tot=enc(tot / (PITCH * PITCH) if spec[n]['light'] == 'field' else tot, 1000), **{'pass': enc(p, UNIT)})
                ev.append(dict(t=t, put=put, S=S, poll=poll, same=same_, obs=obs))
    except Exception as x:
        b = core.blame(x)
        if not b:
            raise
        ev.append(dict(err=b[-300:]))
    return dict(id=tid, kind='bench', seed=seed, ref=refs, sensors=spec, lit=lit, ev=ev, what={n: s[0] for n, s in sensors.items()})


def gen(seed, count, prefix):
    load()
    rng = random.Random(seed)
    out = []
    while len(out) < count:
        t = bench(f'{prefix}{len(out)}', rng.randrange(2**31))
        if t:
            out.append(t)
    return out


def replays(seed, plans, prefix):
    load()
    rng = random.Random(seed)
    out = []
    for j, p in enumerate(plans):
        t = None
        while t is None:
            t = bench(f'{prefix}b{j}', rng.randrange(2**31), plan=p)
        out.append(t)
    return out


def grid(tid, seed):
    """A sensor of n x n lenslets against one with a single lenslet"""
    rng = random.Random(seed)
    g = np.random.default_rng(seed)
    from specula.data_objects.electric_field import ElectricField
    n, p = rng.choice([2, 3, 4]), rng.choice([8, 10])
    lam, npx = rng.choice(LAM), rng.choice([6, 8])
    px = lam * 1e-9 / (p * PITCH) * 206265 * rng.choice([0.5, 0.8, 1.0])
    d = dict(cls='sh', wavelengthInNm=lam, subap_wanted_fov=px * npx * rng.choice([1, 1, 3]), sensor_pxscale=px, subap_npx=npx, squaremask=rng.random() < .6, fov_ovs_coeff=1)
    x = np.arange(p) - (p - 1) / 2
    patches = [(np.ones((p, p)), np.zeros((p, p)), (0, 0))]
    for ax in (0, 1):
        sh_ = rng.choice([-1, 1])
        k = sh_ * px / 206265 * PITCH * 1e9
        patches.append((np.ones((p, p)), np.broadcast_to(x * k if ax == 1 else (x * k)[:, None], (p, p)), (sh_ * 1000 if ax == 0 else 0, sh_ * 1000 if ax == 1 else 0)))
    for _ in range(2):
        A = np.ones((p, p))
        if rng.random() < .5:
            A[:, :rng.randint(1, p - 2)] = 0
        patches.append((A, g.normal(size=(p, p)) * 60 + g.normal() * 30 * x, None))

    def frame(A, ph, m, S):
        from specula.processing_objects.sh import SH
        ef = ElectricField(m * p, m * p, PITCH, S0=float(S))
        ef.A[:], ef.phaseInNm[:] = A, ph
        c = dict(d, subap_on_diameter=m)
        o = build(c, ef)
        run(o, ef, 1)
        return np.array(o.outputs['out_i'].i, dtype=float) / PITCH**2, o
    ev, tok, o = [], [], None
    try:
        with core.quiet():
            for k, (A, ph, disp) in enumerate(patches):
                f, o = frame(A, ph, 1, 1)
                w = f / f.sum()
                c = [int(round(1000 * float((w.sum(axis=1 - a) * np.arange(npx)).sum()))) for a in (0, 1)]
                c0 = tok[0]['c'] if tok else c
                tok.append(dict(shape=[enc(v, UNIT) for v in w.ravel()], lit=int(A.sum()), c=c, d=[c[a] - c0[a] for a in (0, 1)] if disp is None else list(disp)))
            if any(getattr(o, '_fov_ovs', 1) != 1 for _ in [0]):
                return None
            for _ in range(3):
                S = rng.randint(1, 9)
                a = [rng.randrange(len(patches)) for _ in range(n * n)]
                put = lambda j: np.block([[patches[a[r * n + q]][j] for q in range(n)] for r in range(n)])
                f, o = frame(put(0), put(1), n, S)
                blocks = []
                for l in range(n * n):
                    b = f[l // n * npx:(l // n + 1) * npx, l % n * npx:(l % n + 1) * npx]
                    blocks.append(dict(shape=[enc(v, UNIT) for v in (b / b.sum()).ravel()], tot=enc(b.sum(), 1000)))
                ev.append(dict(S=S, g=[v + 1 for v in a], blocks=blocks))
    except Exception as x_:
        if isinstance(x_, ValueError):
            return None
        b = core.blame(x_)
        if not b:
            raise
        ev.append(dict(err=b[-300:]))
    full = bool(d['squaremask'] and getattr(o, '_cutpixels', 1) == 0 and float(np.min(getattr(o, '_fp_mask', 0))) == 1)
    return dict(id=tid, kind='grid', seed=seed, tok=tok, full=full, ev=ev, what=d)


def grids(seed, count, prefix):
    rng = random.Random(seed)
    out = []
    for _ in range(count * 40):
        if len(out) == count:
            break
        t = grid(f'{prefix}g{len(out)}', rng.randrange(2**31))
        if t:
            out.append(t)
    return out


def check(ctx):
    behs = ctx.model_check('MCSensor')
    behs = sorted((b for b in behs if sum(1 for e in b if e['put'] and e['poll']) > 1), key=json.dumps)
    plans = ctx.rng.sample(behs, min(len(behs), ctx.n(100, 3000)))
    ts = sum(core.jobs('c35', 'replays', [(ctx.rng.randrange(2**31), plans[j::6], f'{j}.') for j in range(6)], 0), [])
    ts += core.spread(ctx, 'c35', 'gen', ctx.n(120, 2500), 6)
    ts += core.spread(ctx, 'c35', 'grids', ctx.n(150, 2500), 3)
    ctx.validate('SensorTrace', ts)
    seen = {t['what'][n]['cls'] for t in ts if t['kind'] == 'bench' and 'what' in t for n in t['what']}
    ctx.need(len(seen) >= 11, f'kinds of sensors: {sorted(seen)}')
