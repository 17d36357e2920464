"""C09 (and the recording half of C10): files written by a DataStore in real runs."""
import os, pickle, random, shutil, tempfile
import numpy as np
import core, flow
from probes import rec

KINDS = ['value', 'matrix', 'scalar', 'slopes', 'slopesi', 'pixels', 'pixels8', 'intensity', 'ef', 'layer']


def key(a):
    a = np.asarray(a).astype(np.float64)
    return (a.shape, a.tobytes())


def truth(src, kind, size, k):
    """Token of what source number src publishes in its step k."""
    from probes.typed_src import make, content
    v = make(kind, size).get_value()
    c = np.asarray(content(src, k, np.shape(v)))
    return rec.token_key(key(c.astype(np.asarray(v).dtype)))


def config(rng, maxsteps=14, split=True, thin=True):
    n = rng.randint(1, 4)
    steps = rng.randint(1, maxsteps)
    dt = rng.choice([1000000, 130000, 1234567, 370001, 7654321, 500000])
    srcs = []
    for k in range(n):
        p = rng.choice([1, 1, .5, .3])
        reg = rng.choice([0, 0, 2, 3])
        fire = [int(j % reg == 0) if reg else int(rng.random() < p) for j in range(steps)]
        fin = not fire[-1] and rng.random() < .2
        srcs.append(dict(kind=rng.choice(KINDS), size=rng.randint(1, 4), fire=fire, inplace=rng.random() < .5,
                         late=rng.random() < .3, fin=fin))
    c = dict(n=n, steps=steps, dt=dt, srcs=srcs, fmt=rng.choice(['fits', 'pickle']), start=0, split=0, first=0,
             factor=[1] * n, byinput=False, tn=True)
    if rng.random() < .5:
        c['start'] = rng.choice([0, dt, 2 * dt, dt + dt // 3, rng.randrange(dt * steps)])
    if thin and rng.random() < .6:
        if rng.random() < .5:
            c['factor'] = [rng.randint(1, 4)] * n
        else:
            c['byinput'] = True
            c['factor'] = [rng.choice([1, 2, 3, 5]) for _ in range(n)]
    if split and rng.random() < .5:
        c['split'] = rng.randint(1, 5)
        c['first'] = rng.choice([0, 0, 7])
    if not c['split']:
        c['tn'] = rng.random() < .7
    return c


def record(c, d, rng):
    """Run the recording; returns (events with the published tokens, error)."""
    p = {'main': {'class': 'SimulParams', 'root_dir': '.', 'total_time': c['steps'] * c['dt'] * 1e-9,
                  'time_step': c['dt'] * 1e-9, 'add_modules': ['probes']}}
    blocks = []
    for k, s in enumerate(c['srcs']):
        blocks.append((f'src{k}', dict({'class': 'TypedSrc', 'uid': k + 1}, **{x: s[x] for x in ('kind', 'size', 'fire', 'inplace', 'late', 'fin')})))
    st = {'class': 'DataStore', 'store_dir': d, 'data_format': c['fmt'], 'start_time': c['start'] * 1e-9,
          'split_size': c['split'], 'first_suffix': c['first'], 'create_tn': c['tn'],
          'inputs': {'input_list': [f'q{k + 1}-src{k}.o0' for k in range(c['n'])]}}
    if c['byinput']:
        st['downsample_factor_by_input'] = {f'q{k + 1}': f for k, f in enumerate(c['factor']) if f != 1}
    else:
        st['downsample_factor'] = c['factor'][0]
    blocks.append(('store', st))
    rng.shuffle(blocks)
    for n, b in blocks:
        p[n] = b
    err, s = flow.run_params(p)
    ev = []
    for j in range(c['steps']):
        ev.append(dict(k='step', t=j * c['dt'], f=[truth(k + 1, x['kind'], x['size'], j) if x['fire'][j] else 0 for k, x in enumerate(c['srcs'])]))
    ev.append(dict(k='finish', t=(c['steps'] - 1) * c['dt'],
                   f=[truth(k + 1, x['kind'], x['size'], 900) if x['fin'] else 0 for k, x in enumerate(c['srcs'])]))
    return ev, ('' if err is None else f'{type(err).__name__}: {err}'[:150]), p


def load(path, fmt):
    """Times and values in a file, read without the code under test."""
    if fmt == 'pickle':
        with open(path, 'rb') as f:
            x = pickle.load(f)
        times, data = x['times'], x['data']
    else:
        from astropy.io import fits
        with fits.open(path) as h:
            times, data = h[1].data.copy(), h[0].data.copy()
    if len(times) != len(data):
        return [[core.BADINT, 0]]
    out = []
    for t, v in zip(times.tolist(), data):
        exact = isinstance(t, int) or np.float64(t) == int(t)
        out.append([int(t) if exact else core.BADINT, rec.token_key(key(v))])
    if times.dtype.kind not in 'iu':
        out.append([core.BADINT, 0])
    return out


def dirs(d, c):
    out = []
    if not c['tn'] and not c['split']:
        todo = [('', d)]
    else:
        todo = [(n[15:], os.path.join(d, n)) for n in os.listdir(d)]
    for sx, path in todo:
        files = [dict(k=int(f.split('.')[0][1:]), data=load(os.path.join(path, f), c['fmt']))
                 for f in sorted(os.listdir(path)) if f.endswith('.' + c['fmt'])]
        try:
            x = -1 if sx == '' else int(sx[1:]) if sx[0] == '_' else core.BADINT
        except ValueError:
            x = core.BADINT
        out.append(dict(suffix=x, files=files))
    return out


def spec_config(c):
    return dict(n=c['n'], start=c['start'], factor=c['factor'], split=c['split'], first=c['first'])


def one(tid, rng, maxsteps):
    c = config(rng, maxsteps)
    d = tempfile.mkdtemp(prefix='c09-')
    try:
        ev, err, p = record(c, d, rng)
        ev.append(dict(k='dirs', err=err, dirs=dirs(d, c) if not err else []))
        return dict(id=tid, c=spec_config(c), ev=ev, replay=p)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng, 24 if k % 4 == 0 else 10) for k in range(count)]


def check(ctx):
    ctx.model_check('MCStore')
    traces = core.spread(ctx, 'c09', 'gen', ctx.n(900, 12000), prefix='d')
    traces += core.spread(ctx, 'c09', 'gen', ctx.n(200, 3000), parts=2, precision=1, prefix='s')
    ctx.need(sum(len(t['ev'][-1]['dirs']) for t in traces) > 500, 'directories written')
    ctx.validate('StoreTrace', traces)
    ctx.assumptions.append('run times below 2e9 ns; values that are exactly representable in single precision')
