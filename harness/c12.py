"""C12: DataBuffer in whole runs."""
import random
import core, flow, c09
from probes import rec


def one(tid, rng, maxsteps):
    c = c09.config(rng, maxsteps, split=False, thin=False)
    size = rng.randint(1, 6)
    names = [f'q{k + 1}' for k in range(c['n'])]
    p = {'main': {'class': 'SimulParams', 'root_dir': '.', 'total_time': c['steps'] * c['dt'] * 1e-9,
                  'time_step': c['dt'] * 1e-9, 'add_modules': ['probes']}}
    blocks = [(f'src{k}', dict({'class': 'TypedSrc', 'uid': k + 1}, **{x: s[x] for x in ('kind', 'size', 'fire', 'inplace', 'late')}))
              for k, s in enumerate(c['srcs'])]
    blocks.append(('buf', {'class': 'DataBuffer', 'buffer_size': size,
                           'inputs': {'input_list': [f'{q}-src{k}.o0' for k, q in enumerate(names)]}}))
    w = {'class': 'BatchWatch', 'n': c['n'], 'inputs': {f'i{k}': f'buf.{q}_buffered' for k, q in enumerate(names)}}
    blocks.append(('watch', w))
    rng.shuffle(blocks)
    p.update(blocks)
    err, s = flow.run_params(p)
    seen = {e['t']: e['out'] for e in rec.LOG if e['k'] == 'watch'}
    ev = []
    for j in range(c['steps']):
        t = j * c['dt']
        f = [c09.truth(k + 1, x['kind'], x['size'], j) if x['fire'][j] else 0 for k, x in enumerate(c['srcs'])]
        if t in seen:
            ev.append(dict(k='step', t=t, f=f, out=seen[t]))
    from probes.batch_watch import rows
    fin = [] if err else [rows(s.objs['buf'].outputs[f'{q}_buffered']) for q in names]
    ev.append(dict(k='finish', t=(c['steps'] - 1) * c['dt'], out=fin, err='' if err is None else f'{type(err).__name__}: {err}'[:150]))
    return dict(id=tid, n=c['n'], size=size, ev=ev, replay=p)


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [one(f'{prefix}{k}', rng, 24 if k % 4 == 0 else 10) for k in range(count)]


def check(ctx):
    ctx.model_check('MCBuffer')
    traces = core.spread(ctx, 'c12', 'gen', ctx.n(1200, 16000), prefix='b')
    traces += core.spread(ctx, 'c12', 'gen', ctx.n(150, 2000), parts=2, precision=1, prefix='s')
    ctx.need(sum(any(o['t'] >= 0 for o in e['out']) for t in traces for e in t['ev']) > 500, 'batches')
    ctx.validate('BufferTrace', traces)
    ctx.assumptions.append('inputs publish one value at a time (lists are refused by DataBuffer)')
