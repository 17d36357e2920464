"""C34: detector frames from integrated light.  The generators of the detector are stand-ins which record the parameters of
every draw and return values of their own, exactly representable, so that each frame is an exact function of the light."""
import json
import random
import numpy as np
import core
from core import enc, vec

K = 4096
LOOP = 0.125        # with a bandwidth of 8 the light of a step is the input itself


class Gen:
    """stand-in of numpy's Generator"""

    def __init__(self, seed, log, rng, script=None):
        self.seed, self.log, self.rng, self.script = seed, log, rng, script or {}

    def _draw(self, dist, par, size, lo, hi, unit):
        n = int(np.prod(size))
        s = self.script.get(dist)
        val = list(s) if s and len(s) == n else [self.rng.randint(lo, hi) for _ in range(n)]
        self.log.append(dict(s=self.seed, dist=dist, par=par, val=val))
        return np.array(val, dtype=float).reshape(size) * unit

    def poisson(self, lam=1.0, size=None):
        a = np.asarray(lam)
        size = a.shape if size is None else size
        return self._draw('poisson', vec(np.broadcast_to(a, size), K), size, 0, 30, 1).astype(np.int64)

    def binomial(self, n, p, size=None):
        return self._draw('binomial', [enc(n), enc(p, 16)], np.shape(p) if size is None else size, 0, 1, 1).astype(np.int64)

    def standard_gamma(self, shape, size=None):
        return self.gamma(shape, 1.0, size)

    def gamma(self, shape, scale=1.0, size=None):
        a = np.asarray(shape)
        par = [0 if 0 < float(x) <= 1e-9 else enc(x, K) for x in a.ravel()] + [enc(scale)]
        return self._draw('gamma', par, a.shape if size is None else size, 0, 200, .25)

    def standard_normal(self, size=None, dtype=float, out=None):
        return self._draw('normal', [], () if size is None else size, -24, 24, .125)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        return loc + scale * self.standard_normal(size)


def config(rng):
    b = rng.choice([1, 1, 2, 3])
    cte = rng.random() < .25
    mx = rng.randint(1, 3)
    my = mx if cte else rng.randint(1, 3)
    ph = rng.random() < .7
    ex = rng.random() < .35
    on = lambda p: rng.random() < p
    seeds = rng.sample(range(1, 1000), 4)
    q = lambda n: [rng.choice([0, 0, 1, 2, 3, 4]) for _ in range(n)]
    d = dict(nx=b * mx, ny=b * my, bin=b, qe=rng.choice([4, 4, 1, 2, 3]), bg=rng.choice([0, 1, 8, 30]), dk=rng.choice([0, 2, 5, 12]), bgn=on(.4), dkn=on(.4),
             cte=cte, cl=q(mx * mx), cr=q(mx * mx), cic=on(.3), cp=rng.choice([0, 1, 8, 15]), ph=ph, ex=ex, ro=on(.5), delta=rng.choice([1, 1, 2, 4]),
             rl=rng.choice([0, 1, 6, 40]), em=rng.choice([1, 4, 16]), gains=[rng.choice([4, 3, 2, 1, 0, 6]) for _ in range(mx * my)] if on(.3) else [],
             g16=rng.choice([1, 8, 16, 32, 128]), bias=rng.choice([0, 3, 400]), n=rng.choice([1, 1, 2, 3]), start=rng.choice([0, 0, 1, 2]),
             s=dict(zip(('cic', 'ph', 'ex', 'ro'), seeds)), max=rng.choice([2, 9]))
    return d


def build(d, log, rng, script=None):
    from libobjs import sp
    import specula.processing_objects.ccd as m
    n = d['nx'] // d['bin']
    cte = None
    if d['cte']:
        cte = np.stack([np.array(d['cl'], dtype=float).reshape(n, n) / 4, np.array(d['cr'], dtype=float).reshape(n, n) / 4], axis=-1)
    real = np.random.default_rng
    np.random.default_rng = lambda seed=None: Gen(int(seed), log, rng, script)
    try:
        return m.CCD(sp(dt=LOOP), [d['nx'], d['ny']], d['n'] * LOOP, 8.0, binning=d['bin'], photon_noise=d['ph'], readout_noise=d['ro'], excess_noise=d['ex'],
                     darkcurrent_noise=d['dkn'], background_noise=d['bgn'], cic_noise=d['cic'], cte_noise=d['cte'], readout_level=d['rl'] / 4,
                     darkcurrent_level=d['dk'] / 4, background_level=d['bg'] / 4, cic_level=d['cp'] / 16, cte_mat=cte, quantum_eff=d['qe'] / 4,
                     pixelGains=np.array(d['gains'], dtype=float).reshape(d['ny'] // d['bin'], n) / 4 if d['gains'] else None,
                     photon_seed=d['s']['ph'], readout_seed=d['s']['ro'], excess_seed=d['s']['ex'], cic_seed=d['s']['cic'], excess_delta=float(d['delta']),
                     start_time=d['start'] * LOOP, ADU_gain=None if d['g16'] == 128 and not d['ex'] else d['g16'] / 16, **({} if d['bias'] == 400 else dict(ADU_bias=d['bias'])), emccd_gain=d['em'] if d['ex'] else None)
    finally:
        np.random.default_rng = real


def drive(tid, d, frames, rng, script=None):
    from specula.data_objects.intensity import Intensity
    import warnings
    ev, log = [], []
    try:
        with core.quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            o = build(d, log, rng, script)
            src = Intensity(d['nx'], d['ny'])
            o.inputs['in_i'].set(src)
            o.setup()
            for j, x in enumerate(frames):
                del log[:]
                src.i[:] = np.array(x).reshape(d['ny'], d['nx'])
                t = src.generation_time = src.seconds_to_t(j * LOOP)
                if o.check_ready(t):
                    o.trigger()
                    o.post_trigger()
                p = o.outputs['out_pixels']
                g = int(p.generation_time)
                ev.append(dict(t=j, x=list(x), pt=-1 if g < 0 else int(round(g / src.seconds_to_t(LOOP))), pix=vec(p.pixels, K), draws=[dict(e) for e in log]))
    except Exception as x:
        b = core.blame(x)
        if not b and not isinstance(x, (AttributeError, KeyError)):
            raise
        ev.append(dict(t=0, err=(b or repr(x))[-300:]))
    return dict(id=tid, d=d, ev=ev)


def gen(seed, count, prefix):
    rng = random.Random(seed)
    out = []
    for k in range(count):
        d = config(rng)
        frames = [[rng.randint(0, d['max']) * (9 if d['bin'] == 3 else 1) for _ in range(d['nx'] * d['ny'])] for _ in range(rng.randint(1, 8))]
        out.append(drive(f'{prefix}{k}', d, frames, rng))
    return out


def replays(seed, items, prefix):
    rng = random.Random(seed)
    out = []
    for k, b in items:
        b = json.loads(b)
        d, q = b['d'], b['q']
        d.update(cp=0, n=1, start=0, s=dict(cic=4, ph=1, ex=3, ro=2))
        out.append(drive(f'{prefix}b{k}', d, [b['a']], rng, dict(poisson=q['ph'], gamma=q['ex'], normal=q['ro'])))
    return out


def check(ctx):
    behs = ctx.model_check('MCDetector')
    k = ctx.n(1500, 25600)
    items = [(p, json.dumps(behs[p])) for p in ctx.rng.sample(range(len(behs)), min(k, len(behs)))]
    ts = sum(core.jobs('c34', 'replays', [(ctx.seed, items[j::3], '') for j in range(3)], 0), [])
    ts += core.spread(ctx, 'c34', 'gen', ctx.n(2500, 40000), 4)
    ts += core.spread(ctx, 'c34', 'gen', ctx.n(500, 8000), 2, precision=1, prefix='p1.')
    ctx.validate('DetectorTrace', ts)
    ctx.need(sum(any(e.get('pt', -1) >= 0 and e['draws'] for e in t['ev']) for t in ts) > 1000, 'frames with noise')
