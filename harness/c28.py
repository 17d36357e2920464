"""C28: draws of the objects with random data, over runs, interleavings and processes."""
import hashlib
import os
import random
import shutil
import tempfile
import numpy as np
import core

DT = 1000000


def cid(a):
    a = np.ascontiguousarray(a)
    return hashlib.sha1(repr((a.shape, str(a.dtype))).encode() + a.tobytes()).hexdigest()[:16]


def declare(rng, kind=None, near=None):
    """a declaration: kind, params, seeds (those that matter and the others); near: another declaration to stay close to"""
    kind = kind or rng.choice(['rand'] * 3 + ['vib'] * 2 + ['ccd'] * 4 + ['atmo'] * 3 + ['phase'] * 2 + ['pyr'])
    d = dict(kind=kind, p={}, seed=rng.randint(1, 6), other=rng.randint(1, 50))
    if near and near['kind'] == kind and rng.random() < .7:
        d['p'] = dict(near['p'])
        if kind in ('atmo', 'phase') and rng.random() < .7:      # close by, and another screen all the same
            x = rng.choice(['pitch', 'L0', 'prec', 'px'])
            d['p'][x] = {'pitch': lambda v: v + rng.choice([.0004, -.0003, .00001]), 'L0': lambda v: v + rng.choice([.4, .3, -.2, .00004, 1]),
                         'prec': lambda v: 1 - v, 'px': lambda v: v + 8}[x](d['p'][x])
            d['seed'] = near['seed']
        return d
    if kind == 'rand':
        d['p'] = dict(distribution=rng.choice(['NORMAL', 'UNIFORM', 'uniform']), amp=rng.choice([1.0, 2.0, [1.0, .5, 3.0, 2.0]]), constant=rng.choice([0., 1.5]),
                      output_size=4, vsize=rng.choice([1, 1, 4]))
    elif kind == 'vib':
        n = rng.randint(1, 3)
        d['p'] = dict(nmodes=n, start_from_zero=rng.random() < .3, niter=rng.choice([20, 31]))
    elif kind == 'ccd':
        d['p'] = dict(photon=rng.random() < .6, readout=rng.random() < .5, excess=rng.random() < .3, cic=rng.random() < .5, light=rng.choice([0, 0, 100, 300]),
                      every=rng.choice([1, 1, 2]))
        if not any(d['p'][x] for x in ('photon', 'readout', 'excess', 'cic')):
            d['p'][rng.choice(['photon', 'readout', 'cic'])] = True
        if d['p']['excess'] and not d['p']['light']:
            d['p']['light'] = 100
    elif kind in ('atmo', 'phase'):
        d['p'] = dict(pitch=rng.choice([.05, .25, .0507, .0514, 8.118 / 160]), L0=rng.choice([20., 25., 25.4]), prec=rng.randint(0, 1), px=rng.choice([32, 40]))
        if kind == 'atmo':
            d['p']['layers'] = rng.randint(1, 3)
            d['p']['several'] = rng.random() < .4
    elif kind == 'inf':
        d['p'] = dict(layers=rng.randint(1, 2), updown=rng.random() < .3)
    elif kind == 'pyr':
        d['p'] = dict(roof=rng.random() < .5, edge=rng.choice([0, 1.0, 2.0]), tip=rng.choice([1.0, 2.0, 3.0]))
    return d


def wave(o, v, t):
    o.set_value(v)
    o.generation_time = t


class Stream:
    """one object built from its declaration, drawn from again and again"""
    def __init__(self, d, tmp, sim=None):
        from libobjs import sp
        from specula.base_value import BaseValue
        self.d, self.n, self.t = d, 0, -DT
        kind, p, s = d['kind'], d['p'], d['seed']
        self.src = {}
        own, self.tell = [s], True
        with core.quiet():
            if kind == 'rand':
                from specula.processing_objects.random_generator import RandomGenerator
                self.o = RandomGenerator(seed=s, **p)
                self.get = lambda: [self.o.output.value]
            elif kind == 'vib':
                from specula.processing_objects.vibration_generator import VibrationGenerator
                f = np.linspace(1, 500, 40)
                self.o = VibrationGenerator(sp(dt=.001, total=.001 * p['niter']), p['nmodes'], np.array([100. / f] * p['nmodes']), f, seed=s,
                                            start_from_zero=p['start_from_zero'])
                self.get = lambda: [self.o.output.value]
                self.tell = not p['start_from_zero']
            elif kind == 'ccd':
                from specula.processing_objects.ccd import CCD
                from specula.data_objects.intensity import Intensity
                seeds = dict(photon_seed=d['other'] + 1, readout_seed=d['other'] + 2, excess_seed=d['other'] + 3, cic_seed=d['other'] + 4)
                own = []
                for x in ('photon', 'readout', 'excess', 'cic'):
                    if p[x] and not (x == 'photon' and not p['light'] and not p['cic']):
                        seeds[x + '_seed'] = s + len(own)
                        own.append(s + len(own))
                self.tell = bool(own)
                self.o = CCD(sp(dt=.001), [8, 8], .001 * p['every'], 1000.0, photon_noise=p['photon'], readout_noise=p['readout'], readout_level=3.0,
                             excess_noise=p['excess'], cic_noise=p['cic'], cic_level=.5, **seeds)
                self.src['in_i'] = Intensity(8, 8)
                self.src['in_i'].i[:] = p['light']
                self.o.inputs['in_i'].set(self.src['in_i'])
                self.get = lambda: [self.o.outputs['out_pixels'].pixels]
            elif kind == 'atmo':
                from specula.processing_objects.atmo_evolution import AtmoEvolution
                nl = p['layers']
                L0 = [p['L0'] + k for k in range(nl)] if p['several'] else p['L0']
                self.o = AtmoEvolution(sp(dt=.001, pixel_pupil=8, pixel_pitch=p['pitch']), L0=L0, heights=[0.] * nl, Cn2=[1 / nl] * nl, data_dir=tmp,
                                       pixel_phasescreens=p['px'], seed=s, precision=p['prec'])
                for x, v in (('seeing', np.array([.8])), ('wind_speed', np.full(nl, p['pitch'] * 1000)), ('wind_direction', np.zeros(nl))):
                    self.src[x] = BaseValue(value=v)
                    self.o.inputs[x].set(self.src[x])
                self.get = lambda: [x.phaseInNm for x in self.o.layer_list]
            elif kind == 'inf':
                from specula.processing_objects.atmo_infinite_evolution import AtmoInfiniteEvolution
                from specula.processing_objects.atmo_infinite_evolution_up_down import AtmoInfiniteEvolutionUpDown
                nl = p['layers']
                self.o = (AtmoInfiniteEvolutionUpDown if p['updown'] else AtmoInfiniteEvolution)(
                    sp(dt=.001, pixel_pupil=8, pixel_pitch=.25), L0=[20.] * nl, heights=[0.] * nl, Cn2=[1 / nl] * nl, seed=s)
                for x, v in (('seeing', np.array([.8])), ('wind_speed', np.full(nl, 250.)), ('wind_direction', np.full(nl, 30.))):
                    self.src[x] = BaseValue(value=v)
                    self.o.inputs[x].set(self.src[x])
                self.get = lambda: [x.phaseInNm for x in (self.o.layer_list if not p['updown'] else self.o.outputs['layer_list_down'])]
            elif kind == 'phase':
                from specula.processing_objects.atmo_random_phase import AtmoRandomPhase
                from specula.data_objects.pupilstop import Pupilstop
                q = sp(dt=.001, pixel_pupil=16, pixel_pitch=p['pitch'])
                self.o = AtmoRandomPhase(q, L0=p['L0'], data_dir=tmp, pixel_phasescreens=p['px'], seed=s, wavelengthInNm=500., precision=p['prec'])
                self.src['seeing'] = BaseValue(value=np.array([.8]))
                self.src['pupilstop'] = Pupilstop(q)
                for x in self.src:
                    self.o.inputs[x].set(self.src[x])
                self.get = lambda: [x.phaseInNm for x in self.o.layer_outputs.values()]
            elif kind == 'pyr':
                from specula.processing_objects.modulated_pyramid import ModulatedPyramid
                from specula.processing_objects.modulated_double_roof import ModulatedDoubleRoof
                self.o = (ModulatedDoubleRoof if p['roof'] else ModulatedPyramid)(sp(dt=.001, pixel_pupil=32, pixel_pitch=.25), 600., 1.0, 16, 40,
                                                                                  pyr_edge_def_ld=p['edge'], pyr_tip_def_ld=p['tip'])
                self.get = lambda: [self.o.roof1_tlt, self.o.roof2_tlt] if p['roof'] else [self.o.pyr_tlt]
                self.tell, own = False, []
            if kind != 'pyr':
                self.o.setup()
        self.group = f'{kind} {sorted(p.items())}'
        self.key = f'{self.group} {own}'

    def draw(self):
        self.n += 1
        if self.d['kind'] != 'pyr':
            for _ in range(self.d['p'].get('every', 1)):
                self.t += DT
                for x in self.src.values():
                    x.generation_time = self.t
                with core.quiet():
                    if self.o.check_ready(self.t):
                        self.o.trigger()
                        self.o.post_trigger()
        v = [np.asarray(x) for x in self.get()]
        return dict(k=self.key, g=self.group, n=self.n if self.d['kind'] != 'pyr' else 1, c=''.join(cid(x) for x in v) if len(v) < 3 else cid(np.stack(v)),
                    d=self.tell, parts=[cid(x) for x in v] if self.d['kind'] in ('atmo', 'inf') else [])


def touch(rng):
    """another consumer uses the global generators"""
    x = rng.randint(0, 3)
    if x == 0:
        np.random.seed(rng.randint(0, 5))
    elif x == 1:
        np.random.random(rng.randint(1, 9))
    elif x == 2:
        np.random.normal(size=3)
    else:
        random.seed(rng.randint(0, 9))


def runs(ev, decls, tmp, plan, rng):
    """plan: [op, who] with op run (who: indices in building order), draw (who: [index]), touch"""
    objs = {}
    try:
        for op, who in plan:
            if op == 'run':
                objs = {}
                for k in who:
                    objs[k] = Stream(decls[k], tmp)
            elif op == 'touch':
                touch(rng)
            else:
                ev.append(objs[who[0]].draw())
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:200], kind=[d['kind'] for d in decls], blame=core.blame(x)))


def plan(rng, n, nruns):
    out = []
    for _ in range(nruns):
        who = rng.sample(range(n), rng.randint(1, n))
        out.append(['run', who])
        for _ in range(rng.randint(2, 4 * len(who))):
            out.append(['touch', []] if rng.random() < .15 else ['draw', [rng.choice(who)]])
    return out


def scenario(sid, seed, turn, kinds=None):
    """the draws of one set of declarations in one process"""
    rng = random.Random(f'{sid} {seed}')
    decls = [declare(rng, rng.choice(kinds) if kinds else None)]
    for _ in range(rng.randint(1, 4)):
        decls.append(declare(rng, (rng.choice(kinds) if kinds else decls[0]['kind']) if rng.random() < .7 else None, decls[rng.randrange(len(decls))]))
    order = random.Random(f'{sid} {seed} {turn}')
    tmp = tempfile.mkdtemp(prefix='c28')
    ev = []
    try:
        for _ in range(2):
            runs(ev, decls, tmp, plan(order, len(decls), 2), order)
            if order.random() < .5:
                for f in os.listdir(tmp):
                    os.unlink(os.path.join(tmp, f))
    finally:
        shutil.rmtree(tmp)
    return ev


def some(seed, ids, turn, kinds=None):
    return [scenario(i, seed, turn, kinds) for i in ids]


def replay(seed, behs, prefix):
    """behaviours of the model, twenty to a set of declarations"""
    rng = random.Random(seed)
    out = []
    for j in range(0, len(behs), 20):
        kind = rng.choice(['rand', 'rand', 'vib', 'ccd', 'ccd'])
        a = declare(rng, kind)
        a['seed'] = 1
        b = dict(a, seed=9)
        c = declare(rng, rng.choice([k for k in ['rand', 'vib', 'ccd'] if k != kind]))
        c['seed'] = 1
        ev, tmp = [], tempfile.mkdtemp(prefix='c28')
        try:
            for x in behs[j:j + 20]:
                pl = []
                for h in x['hist']:
                    who = [k - 1 for k in h['who']]
                    rng.shuffle(who)
                    pl.append([h['op'], who])
                runs(ev, [a, b, c], tmp, pl, rng)
        finally:
            shutil.rmtree(tmp)
        if ev:
            out.append(dict(id=f'{prefix}{j}', ev=ev))
    return out


def whole(seed, ids, turn):
    """whole simulations: a changing set of objects in a changing order; the last draw of each"""
    from libobjs import sp
    import flow
    out = []
    for i in ids:
        rng = random.Random(f'w{i} {seed}')
        order = random.Random(f'w{i} {seed} {turn}')
        p = {}
        for k in range(rng.randint(2, 4)):
            what = rng.choice(['rand', 'rand', 'vib', 'atmo'])
            s = rng.randint(1, 5)
            if what == 'rand':
                p[f'o{k}'] = ({'class': 'RandomGenerator', 'seed': s, 'output_size': 6, 'amp': float(rng.randint(1, 2))}, 'output', s)
            elif what == 'vib':
                p[f'o{k}'] = ({'class': 'VibrationGenerator', 'simul_params_ref': 'main', 'nmodes': 2, 'seed': s, 'psd': [[3., 2., 1.], [4., 2., 1.]], 'freq': [1., 2., 3.]}, 'output', s)
            else:
                p[f'o{k}'] = ({'class': 'AtmoEvolution', 'simul_params_ref': 'main', 'seed': s, 'L0': 20.0, 'heights': [0., 5000.], 'Cn2': [.5, .5], 'pixel_phasescreens': 64,
                               'inputs': {'seeing': 'seeing.output', 'wind_speed': 'wind_speed.output', 'wind_direction': 'wind_direction.output'}}, 'layer_list', s)
        base = {'seeing': {'class': 'WaveGenerator', 'constant': .8}, 'wind_speed': {'class': 'WaveGenerator', 'constant': [100., 50.]},
                'wind_direction': {'class': 'WaveGenerator', 'constant': [0., 30.]}}
        ev = []
        for _ in range(2):
            who = order.sample(sorted(p), order.randint(1, len(p)))
            steps = order.choice([2, 3])
            params = {k: p[k][0] for k in who}
            params.update(base)
            names = list(params)
            order.shuffle(names)
            tmp = tempfile.mkdtemp(prefix='c28w')
            cwd = os.getcwd()
            try:
                os.chdir(tmp)
                main = {'class': 'SimulParams', 'root_dir': tmp, 'pixel_pupil': 8, 'pixel_pitch': .05, 'total_time': steps * .001, 'time_step': .001}
                err, simul = flow.run_params(dict(dict(main=main), **{k: params[k] for k in names}))
                if err:
                    ev.append(dict(err=str(err)[:200]))
                    break
                for k in who:
                    x = simul.objs[k].outputs[p[k][1]]
                    v = [np.asarray(y.phaseInNm) for y in x] if isinstance(x, list) else [np.asarray(x.value)]
                    g = f"{sorted((a, str(b)) for a, b in p[k][0].items() if a != 'seed')} {'any' if p[k][0]['class'] != 'VibrationGenerator' else steps}"
                    ev.append(dict(k=f'{g} {p[k][2]}', g=g, n=steps, c=''.join(map(cid, v)), d=True, parts=[cid(y) for y in v]))
            finally:
                os.chdir(cwd)
                shutil.rmtree(tmp)
        out.append(ev)
    return out


def merged(ctx, fn, total, procs, prefix, extra=()):
    """the same scenarios in several processes, one trace for the draws of all of them"""
    parts = 3
    args, where = [], []
    for q in range(parts):
        ids = list(range(q, total, parts))
        for turn in range(procs):
            args.append([ctx.seed, ids, turn, *extra])
            where.append(ids)
    res = core.jobs('c28', fn, args)
    ev = {}
    for ids, r in zip(where, res):
        for i, e in zip(ids, r):
            ev.setdefault(i, []).extend(e)
    return [dict(id=f'{prefix}{i}', ev=e) for i, e in sorted(ev.items()) if e]


def check(ctx):
    beh = ctx.model_check('MCStreams')
    told = [b for b in beh if b['told']]
    rest = [b for b in beh if not b['told']]
    ctx.rng.shuffle(told)
    ctx.rng.shuffle(rest)
    use = told[:ctx.n(1200, 6000)] + rest[:ctx.n(400, 4000)]
    ctx.rng.shuffle(use)
    tr = [t for r in core.jobs('c28', 'replay', [[ctx.seed + k, use[k::6], f'm{k}.'] for k in range(6)]) for t in r]
    tr += merged(ctx, 'some', ctx.n(240, 2500), 2, 'r')
    tr += merged(ctx, 'some', ctx.n(3, 24), 2, 'i', [['inf']])
    tr += merged(ctx, 'whole', ctx.n(45, 400), 2, 'w')
    ctx.need(sum(len(t['ev']) for t in tr) > 5000, 'draws')
    ctx.validate('StreamsTrace', tr)
    ctx.assumptions += ['RandomGenerator without a seed is random by declaration and not judged',
                        'layers and modes of one object use consecutive seeds by declaration, so streams of whole objects are compared']
