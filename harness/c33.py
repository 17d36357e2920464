"""C33: analysing other directions after the run.  Every run is recorded together with the fields of all the directions
asked for later, so that each answer of the FieldAnalyser can be identified with what the run itself computed."""
import copy
import hashlib
import json
import os
import random
import shutil
import tempfile
import numpy as np
import core

NPX = 12
KINDS = ('_PSF', '_MA', '_CUBE')


def params(rng, root, decim):
    """a run: atmosphere, one or two mirrors moved by recorded commands, its own source"""
    steps = rng.randint(3, 6)
    p = {'main': {'class': 'SimulParams', 'root_dir': root, 'pixel_pupil': NPX, 'pixel_pitch': 0.25,
                  'total_time': steps * 0.001, 'time_step': 0.001}}
    p['seeing'] = {'class': 'WaveGenerator', 'constant': rng.choice([0.3, 0.8]), 'outputs': ['output']}
    p['wspeed'] = {'class': 'WaveGenerator', 'constant': [rng.choice([10.0, 60.0]), rng.choice([0.0, 100.0])], 'outputs': ['output']}
    p['wdir'] = {'class': 'WaveGenerator', 'constant': [0.0, rng.choice([90.0, 45.0])], 'outputs': ['output']}
    p['atmo'] = {'class': 'AtmoEvolution', 'simul_params_ref': 'main', 'L0': 20.0, 'heights': [0.0, rng.choice([4000.0, 9000.0])],
                 'Cn2': [0.5, 0.5], 'fov': 120.0, 'seed': rng.randint(1, 9), 'pixel_phasescreens': 64, 'data_dir': os.path.join(root, 'ps'),
                 'inputs': {'seeing': 'seeing.output', 'wind_speed': 'wspeed.output', 'wind_direction': 'wdir.output'}, 'outputs': ['layer_list']}
    p['pupilstop'] = {'class': 'Pupilstop', 'simul_params_ref': 'main', 'obs_diam': rng.choice([0.0, 0.3])}
    p['star'] = {'class': 'Source', 'polar_coordinates': [3.0, 20.0], 'magnitude': 5, 'wavelengthInNm': 600}
    dms, stored = [], []
    for k in range(rng.choice([1, 1, 2])):
        nm = rng.randint(2, 6)
        p[f'comm{k}'] = {'class': 'RandomGenerator', 'distribution': 'NORMAL', 'amp': [80.0] * nm, 'seed': rng.randint(1, 99), 'outputs': ['output']}
        if rng.random() < .4:     # recorded downstream of an object with memory
            p[f'ctrl{k}'] = {'class': 'Integrator', 'simul_params_ref': 'main', 'delay': rng.choice([0, 1]), 'int_gain': [0.5] * nm,
                             'inputs': {'delta_comm': f'comm{k}.output'}, 'outputs': ['out_comm']}
            cmd = f'ctrl{k}.out_comm'
        else:
            cmd = f'comm{k}.output'
        p[f'dm{k}'] = {'class': 'DM', 'simul_params_ref': 'main', 'type_str': 'zernike', 'nmodes': nm, 'npixels': NPX if k == 0 else 24,
                       'height': 0.0 if k == 0 else 6000.0, 'inputs': {'in_command': cmd}, 'outputs': ['out_layer']}
        dms.append(f'dm{k}.out_layer' + rng.choice(['', ':-1']))
        if rng.random() < .8:
            stored.append(f'c{k}-{cmd}')
    if rng.random() < .3:
        stored.append('see-seeing.output')
    if rng.random() < .2:
        stored += ['win-wspeed.output', 'dir-wdir.output']
    p['prop'] = {'class': 'AtmoPropagation', 'simul_params_ref': 'main', 'source_dict_ref': ['star'],
                 'inputs': {'atmo_layer_list': ['atmo.layer_list'], 'common_layer_list': ['pupilstop'] + dms}, 'outputs': ['out_star_ef']}
    p['store'] = {'class': 'DataStore', 'store_dir': os.path.join(root, 'out'), 'data_format': rng.choice(['fits', 'pickle']),
                  'inputs': {'input_list': stored or ['star-prop.out_star_ef']}}
    if decim:
        p['store']['downsample_factor'] = 2
    return p


def dirs(rng):
    """directions, some of them close to each other"""
    out = [(0.0, 0.0)]
    while len(out) < 5:
        r, t = rng.choice([0.0, 8.0, 15.5, 30.0, 40.0]), rng.choice([0.0, 30.0, 90.0, 200.0, -45.0])
        if len(out) > 1 and rng.random() < .5:
            r, t = out[-1]
            r, t = (r + 0.03, t) if rng.random() < .5 else (r, t + 0.04)
        if (r, t) not in out:
            out.append((r, t))
    return out


def reqs(rng, nm):
    """what can be asked: kind and parameters (directions apart)"""
    wl = rng.choice([750.0, 1650.0])
    a = dict(kind='psf', wl=wl, start=0.0, nd=2)
    out = [a, dict(a, start=0.002), dict(a, wl=wl + 0.4), dict(a, nd=3)]
    m = dict(kind='modal', wl=wl, mp=dict(type_str='zernike', nmodes=4, npixels=NPX, obsratio=0.1))
    out += [m]
    for kw in (dict(nmodes=6), dict(obsratio=0.104), dict(obsratio=0.3), dict(diaratio=0.9), dict(wavelengthInNm=900.0)):
        out.append(dict(m, mp=dict(m['mp'], **kw)))
    out.append(dict(m, default=True, mp=dict(type_str='zernike', nmodes=nm, npixels=NPX)))     # those of the mirror
    out.append(dict(kind='cube', wl=wl))
    return out


def record(seed, decim=False):
    """run with everything that will be asked for; returns the directory and the true answers"""
    rng = random.Random(seed)
    import yaml
    from specula.simul import Simul
    root = tempfile.mkdtemp(prefix='c33.')
    p = params(rng, root, decim)
    plain = copy.deepcopy(p)
    D, R = dirs(rng), reqs(rng, p['dm0']['nmodes'])
    full = copy.deepcopy(p)
    truth = []
    for d, (r, t) in enumerate(D):
        for w in sorted({x['wl'] for x in R}):
            full[f'q{d}w{int(w * 10)}'] = {'class': 'Source', 'polar_coordinates': [r, t], 'magnitude': 8, 'wavelengthInNm': w}
            full['prop']['source_dict_ref'].append(f'q{d}w{int(w * 10)}')
            full['prop']['outputs'].append(f'out_q{d}w{int(w * 10)}_ef')
        for k, x in enumerate(R):
            ef = f"prop.out_q{d}w{int(x['wl'] * 10)}_ef"
            if x['kind'] == 'psf':
                full[f'psf{d}_{k}'] = {'class': 'PSF', 'simul_params_ref': 'main', 'wavelengthInNm': x['wl'], 'nd': x['nd'], 'start_time': x['start'],
                                       'inputs': {'in_ef': ef}, 'outputs': ['out_int_psf', 'out_int_sr']}
                truth += [f't{d}_{k}-psf{d}_{k}.out_int_psf', f's{d}_{k}-psf{d}_{k}.out_int_sr']
            elif x['kind'] == 'modal':
                full[f'ma{d}_{k}'] = dict({'class': 'ModalAnalysis', 'inputs': {'in_ef': ef}, 'outputs': ['out_modes']}, **x['mp'])
                truth.append(f't{d}_{k}-ma{d}_{k}.out_modes')
            else:
                truth.append(f't{d}_{k}-{ef}')
    full['store']['inputs']['input_list'] = truth
    full['store'].pop('downsample_factor', None)
    full['store'].update(data_format='fits', store_dir=os.path.join(root, 'truth'))
    out = {}
    with core.quiet():
        for name, q in (('plain', plain), ('full', full)):
            f = os.path.join(root, name + '.yml')
            with open(f, 'w') as h:
                yaml.dump(q, h, sort_keys=False)
            Simul(f).run()
    tn = os.listdir(os.path.join(root, 'out'))[0]
    tt = os.path.join(root, 'truth', os.listdir(os.path.join(root, 'truth'))[0])
    return dict(root=root, tn=tn, truth=tt, D=D, R=R, decim=decim and any(x[0] in 'cw' or x.startswith('see') for x in p['store']['inputs']['input_list']))


def digest(d):
    h = hashlib.sha256()
    for f in sorted(os.listdir(d)):
        h.update(f.encode() + b'\0' + open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()


def same(a, b, single):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape or not np.all(np.isfinite(a)):
        return False
    return bool(np.all(np.abs(a - b) <= (1e-4 if single else 1e-9) * (np.abs(b).max() + 1e-30)))


def truths(rec):
    from astropy.io import fits
    T = {}
    for f in os.listdir(rec['truth']):
        if f[0] in 'ts' and f.endswith('.fits') and f[1].isdigit():
            d, k = f[1:-5].split('_')
            with fits.open(os.path.join(rec['truth'], f)) as h:
                T[f[0], int(d), int(k)] = np.array(h[0].data)
                T['time'] = np.array(h[1].data) if len(h) > 1 and h[1].data is not None and f[0] == 't' and rec['R'][int(k)]['kind'] == 'cube' else T.get('time')
    return T


def ask(rec, T, dd, k, force, an, single, rng, how=None):
    """one request; returns the event and the analyser"""
    from specula.field_analyser import FieldAnalyser
    x = rec['R'][k]
    key = (tuple(dd), x['wl'], x.get('start', 0.0))
    e = dict(op='ask', kind=x['kind'], dirs=[d + 1 for d in dd], k=k + 1, force=force)
    with core.quiet():
        a = an.get(key)
        if a is None or rng.random() < .5:
            c = np.array([rec['D'][d] for d in dd])
            if len(dd) == 2 or rng.random() < .5 and len(dd) != 2:
                c = c.T if len(dd) != 1 or rng.random() < .5 else c
            if c.shape[0] != 2 and c.shape[1] != 2:
                c = c.T
            a = an[key] = FieldAnalyser(os.path.dirname(rec['dir']), rec['tn'], c.reshape(2, 1) if c.shape == (2,) else c, wavelength_nm=x['wl'],
                                        start_time=x.get('start', 0.0), verbose=rng.random() < .3)
        if x['kind'] == 'psf':
            r = a.compute_field_psf(psf_sampling=x['nd'], force_recompute=force)
            got = list(zip(r['psf_list'], r['sr_list']))
        elif x['kind'] == 'modal':
            mp = None if x.get('default') else dict(x['mp'])
            r = a.compute_modal_analysis(mp, force_recompute=force)
            got = list(r['modal_coeffs'])
            e['stats'] = [[dict(c=[int(round(float(v) * 8)) for v in m[:, j]], a=int(round(float(r['residual_average'][i][j]) * 8)),
                                v=int(round(float(r['residual_variance'][i][j]) * 64))) for j in range(2)] for i, m in enumerate(got)]
        else:
            r = a.compute_phase_cube(force_recompute=force)
            got = list(r['phase_cubes'])
            e['times'] = bool(r['times'] is not None and np.array_equal(r['times'], T['time']))
        pol = [[int(round(v * 1000)) for v in d] for d in zip(r['distances'], [s['polar_coordinates'][1] for s in a.sources])]
    e['pol'] = pol
    e['is'] = []
    for g in got:
        hit = []
        for d in range(len(rec['D'])):
            for j, y in enumerate(rec['R']):
                if y['kind'] == x['kind']:
                    ok = same(g[0], T['t', d, j], single) and same(g[1], T['s', d, j], single) if x['kind'] == 'psf' else same(g, T['t', d, j], single)
                    if ok:
                        hit.append([d + 1, j + 1])
        e['is'].append(hit)
    return e


def history(tid, rec, T, behs, rng, single=False):
    ev, an = [], {}
    d = dict(id=tid, D=[[int(round(v * 1000)) for v in x] for x in rec['D']], kinds=[x['kind'] for x in rec['R']], decim=rec['decim'], ev=ev)
    base = digest(rec['dir'])
    try:
        for k, dd, force in behs:
            made = sorted(os.path.join(rec['dir'] + s, f) for s in KINDS if os.path.isdir(rec['dir'] + s) for f in os.listdir(rec['dir'] + s))
            if force:       # whatever is found there
                kept = {f: open(f, 'rb').read() for f in made}
                for f in made:
                    with open(f, 'wb') as h:
                        h.write(rng.choice(list(kept.values())) if rng.random() < .5 else b'')
                spoilt = {f: open(f, 'rb').read() for f in made}
            elif made and (k < 0 or rng.random() < .15):
                for f in rng.sample(made, rng.choice([1, len(made)])):
                    os.unlink(f)
                ev.append(dict(op='lost'))
            if k < 0:
                continue
            e = ask(rec, T, dd, k, force, an, single, rng)
            e['run'] = digest(rec['dir']) == base
            ev.append(e)
            for f in made if force else []:
                if open(f, 'rb').read() == spoilt[f]:
                    with open(f, 'wb') as h:
                        h.write(kept[f])
    except Exception as x:
        ev.append(dict(op='refused', why=f'{type(x).__name__}: {x}'[:160], run=digest(rec['dir']) == base))
    for s in KINDS:
        shutil.rmtree(rec['dir'] + s, ignore_errors=True)
    return d


def prepare(rec, rng):
    """where the run is found afterwards: in place or moved"""
    src = os.path.join(rec['root'], 'out', rec['tn'])
    if rng.random() < .5:
        to = os.path.join(rec['root'], 'moved')
        os.makedirs(to)
        shutil.move(src, to)
        src = os.path.join(to, rec['tn'])
    rec['dir'] = src


def random_seq(rec, rng):
    out = []
    ks = rng.sample(range(len(rec['R'])), rng.randint(1, 3))
    for _ in range(rng.randint(2, 4)):
        k = rng.choice(ks + [x for x in range(len(rec['R'])) if rec['R'][x]['kind'] == rec['R'][ks[0]]['kind']])
        out.append((k, rng.sample(range(len(rec['D'])), rng.choice([1, 1, 2, 3, 5])), rng.random() < .2))
    return out


def several(seed, count, prefix):
    rng = random.Random(seed)
    out = []
    for k in range(count):
        rec = record(rng.randint(1, 10 ** 6), decim=rng.random() < .15)
        prepare(rec, rng)
        T = truths(rec)
        for j in range(5):
            out.append(history(f'{prefix}{k}.{j}', rec, T, random_seq(rec, rng), rng))
        shutil.rmtree(rec['root'])
    return out


def mapped(beh, rec, rng):
    """a behaviour of MCField on this run: its directions and requests renamed"""
    d = rng.sample(range(len(rec['D'])), 3)
    m = [k for k, x in enumerate(rec['R']) if x['kind'] == 'modal']
    k = [0, 1, 2] + rng.sample(m, 2) + [len(rec['R']) - 1]
    return [(-1, [], False) if a['lose'] else (k[a['k'] - 1], [d[x - 1] for x in a['ds']], a['force']) for a in beh['h']]


def replays(seed, behs, prefix):
    rng = random.Random(seed)
    out = []
    for j in range(0, len(behs), 12):
        rec = record(rng.randint(1, 10 ** 6))
        prepare(rec, rng)
        T = truths(rec)
        for q, b in behs[j:j + 12]:
            out.append(history(f'{prefix}b{q}', rec, T, mapped(json.loads(b), rec, rng), rng))
        shutil.rmtree(rec['root'])
    return out


def recorded(seed, count, where):
    """runs recorded in single precision, analysed elsewhere"""
    import pickle
    rng = random.Random(seed)
    for k in range(count):
        rec = record(rng.randint(1, 10 ** 6))
        prepare(rec, rng)
        with open(os.path.join(where, f'{seed}.{k}.pickle'), 'wb') as h:
            pickle.dump(rec, h)


def crossed(seed, files, prefix):
    import pickle
    rng = random.Random(seed)
    out = []
    for f in files:
        with open(f, 'rb') as h:
            rec = pickle.load(h)
        T = truths(rec)
        for j in range(3):
            out.append(history(f'{prefix}{os.path.basename(f)[:-7]}.{j}', rec, T, random_seq(rec, rng), rng, single=True))
        shutil.rmtree(rec['root'])
    return out


def check(ctx):
    behs = ctx.model_check('MCField')
    k = ctx.n(60, 900)
    items = [(p, json.dumps(behs[p])) for p in ctx.rng.sample(range(len(behs)), min(k, len(behs)))]
    ts = sum(core.jobs('c33', 'replays', [(ctx.seed + j, items[j::6], '') for j in range(6)], 0), [])
    ts += core.spread(ctx, 'c33', 'several', ctx.n(18, 240), 6)
    where = tempfile.mkdtemp(prefix='c33.')
    try:
        n = ctx.n(1, 12)
        core.jobs('c33', 'recorded', [(ctx.seed + 50 + j, n, where) for j in range(3)], 1)
        fs = sorted(os.path.join(where, f) for f in os.listdir(where))
        ts += sum(core.jobs('c33', 'crossed', [(ctx.seed + j, fs[j::3], 'p1.') for j in range(3)], 0), [])
    finally:
        shutil.rmtree(where)
    ctx.validate('FieldTrace', ts)
