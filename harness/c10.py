"""C10: replay of what a DataStore wrote."""
import os, random, shutil, tempfile
import numpy as np
import core, flow, c09
from probes import rec

ATTRS = ['pixel_pitch', 'S0', 'height', 'rotInDeg', 'magnification', 'interleave', 'bpp', 'signed', 'size', 'shiftXYinPixel']


def describe(o):
    d = [type(o).__name__, str(np.shape(o.get_value()))]
    if type(o).__name__ == 'BaseValue':
        return d[:1]
    for a in ATTRS:
        if hasattr(o, a):
            v = getattr(o, a)
            d.append(f'{a}={np.asarray(v, dtype=float).tolist()}')
    return d


def one(tid, rng, maxsteps):
    from probes.typed_src import make
    c = c09.config(rng, maxsteps, split=False)
    d = tempfile.mkdtemp(prefix='c10-')
    try:
        ev, err, p = c09.record(c, d, rng)
        if err:
            ev.append(dict(k='fail', err=err))
            return dict(id=tid, c=c09.spec_config(c), ev=ev, replay=p)
        path = d if not c['tn'] else os.path.join(d, os.listdir(d)[0])
        have = [k for k in range(c['n']) if os.path.exists(os.path.join(path, f'q{k + 1}.{c["fmt"]}'))]
        if not have:
            return None
        # only the inputs that were published at all have something to replay
        steps = c['steps'] + rng.choice([0, 0, 3])
        dt2 = c['dt']
        q = {'main': {'class': 'SimulParams', 'root_dir': '.', 'total_time': steps * dt2 * 1e-9, 'time_step': dt2 * 1e-9,
                      'add_modules': ['probes']}}
        order = have[:]
        rng.shuffle(order)
        src = {'class': 'DataSource', 'outputs': [f'q{k + 1}' for k in order], 'store_dir': path, 'data_format': c['fmt']}
        rd = {'class': 'ValReader', 'n': len(have), 'inputs': {f'i{j}': f'data_source.q{k + 1}' for j, k in enumerate(have)}}
        for n, b in rng.sample([('data_source', src), ('reader', rd)], 2):
            q[n] = b
        tok = dict(rec.TOK)
        reset = rec.reset
        rec.reset = lambda: rec.LOG.clear()         # keep the tokens of the recording
        try:
            err, s = flow.run_params(q)
        finally:
            rec.reset = reset
        if err is not None:
            ev.append(dict(k='fail', err=f'{type(err).__name__}: {err}'[:150]))
            return dict(id=tid, c=c09.spec_config(c), ev=ev, replay=[p, q])
        got = [describe(s.objs['data_source'].outputs[f'q{k + 1}']) for k in have]
        want = [describe(make(c['srcs'][k]['kind'], c['srcs'][k]['size'])) for k in have]
        ev.append(dict(k='types', want=want, got=got))
        for e in [e for e in rec.LOG if e['k'] == 'look']:
            vals = [[0, -1]] * c['n']
            for j, k in enumerate(have):
                vals[k] = e['vals'][j]
            ev.append(dict(k='replay', t=e['t'], vals=vals))
        if sum(e['k'] == 'replay' for e in ev) != steps:
            raise core.HarnessError('reader did not see every step')
        return dict(id=tid, c=c09.spec_config(c), ev=ev, replay=[p, q])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [t for t in (one(f'{prefix}{k}', rng, 24 if k % 4 == 0 else 10) for k in range(count)) if t]


def check(ctx):
    ctx.model_check('MCStore')
    traces = core.spread(ctx, 'c10', 'gen', ctx.n(700, 12000), prefix='d')
    traces += core.spread(ctx, 'c10', 'gen', ctx.n(200, 3000), parts=2, precision=1, prefix='s')
    ctx.need(sum(e['k'] == 'replay' for t in traces for e in t['ev']) > 2000, 'replayed steps')
    ctx.validate('SourceTrace', traces)
    ctx.assumptions.append('run times below 2e9 ns; values that are exactly representable in single precision')
