"""C05: runs split over processes, with a stand-in for MPI, compared with the run in one process."""
import os, random
import core, flow, mpi
from probes import rec


def ranked(params, rank, comm, prepare=None):
    """Body of one rank: run the simulation, return what the probes recorded."""
    core.specula_init(rank=rank if comm is not None else None, comm=comm)
    if prepare:
        prepare()
    err, s = flow.run_params(params)
    if err is None and s is not None:
        stored(s)
    return dict(err=None if err is None else f'{type(err).__name__}: {err}'[:200], log=list(rec.LOG), toks=list(rec.TOK))


def stored(s):
    """What the data stores of this process wrote, as if one more object had read it."""
    import glob, pickle
    from astropy.io import fits
    for name, o in sorted(s.objs.items()):
        if type(o).__name__ != 'DataStore':
            continue
        for f in sorted(glob.glob(os.path.join(o.tn_dir, '*'))):
            base = os.path.basename(f)
            if base.endswith('.fits'):
                with fits.open(f) as h:
                    for k, u in enumerate(h):
                        if u.data is not None:
                            rec.ev('read', f'{name}/{base}/{k}', t=-3, reads=[[[rec.token(u.data.astype(float)), 0]]])
            elif base.endswith('.pickle'):
                with open(f, 'rb') as h:
                    d = pickle.load(h)
                for k in ('data', 'times'):
                    rec.ev('read', f'{name}/{base}/{k}', t=-3, reads=[[[rec.token(d[k]), 0]]])


def both(params, nranks, seed, strip, prepare=None):
    """Run in one process, then split; returns (single, merged, events, status, errors)."""
    one = mpi.run(1, lambda r, c: ranked(strip(params), None, None, prepare), seed)
    ev, res, st = mpi.run(nranks, lambda r, c: ranked(params, r, c, prepare), seed)
    res = {r: (v if isinstance(v, dict) else dict(err=(v or 'no result')[-200:], log=[], toks=[])) for r, v in res.items()}
    o = one[1][0]
    if not isinstance(o, dict):
        raise core.HarnessError(f'single-process run: {o}')
    toks = {r: v['toks'] for r, v in res.items()}
    toks['one'] = o['toks']
    mp = mpi.renumber(None, toks)

    def sub(r, x):
        if isinstance(x, list):
            if len(x) == 2 and all(isinstance(i, int) for i in x):
                return [mp[r][x[0]], x[1]]
            return [sub(r, i) for i in x]
        return x

    def relabel(r, log):
        return [{k: (sub(r, v) if k in ('reads', 'outs') else v) for k, v in e.items()} for e in log]
    single = relabel('one', o['log'])
    split = {r: relabel(r, v['log']) for r, v in res.items()}
    errs = {r: v['err'] for r, v in res.items() if v['err']}
    return o['err'], single, split, ev, st, errs


def without_ranks(params):
    return {k: ({a: b for a, b in v.items() if a != 'target_rank'} if isinstance(v, dict) else v)
            for k, v in params.items()}


def reads_of(log):
    """{(object, time, phase): reads}"""
    out = {}
    for e in log:
        if 't' in e and 'reads' in e and e['k'] in ('checked', 'prepare', 'read'):
            out[(e['o'], e['t'], e['k'])] = e['reads']
        if e['k'] == 'setup':
            out[(e['o'], -2, 'setup')] = e['reads']
        if e['k'] == 'finalize':
            out[(e['o'], -1, 'finalize')] = [[[0, 0]]]
    return out


def mpi_trace(tid, params, nranks, single, split, ev, st, errs, key=None):
    evs = [dict(e, a=[], b=[]) for e in ev]
    one = reads_of(single)
    many = {}
    for r in split:
        many.update(reads_of(split[r]))
    blank = dict(src=0, dst=0, tag=0, kind='', size=0, id=0)
    for k in sorted(set(one) | set(many), key=str):
        evs.append(dict(blank, op='read', kind=f'{k[0]} at {k[1]} ({k[2]})',
                        a=one.get(k, []), b=many.get(k, [])))
    t = dict(id=tid, ranks=nranks, ev=evs, replay=params,
             res=[(errs.get(r) or '') if st[r] == 'end' else st[r] + ' ' + (errs.get(r) or '') for r in range(nranks)])
    if key:
        t['key'] = key
    return t


# ---------------------------------------------------------------- random graphs of probes
def graphs(seed, count, prefix):
    mpi.preload()
    rng = random.Random(seed)
    out = []
    for k in range(count):
        steps = rng.randint(1, 4)
        nranks = rng.choice([2, 2, 3])
        g = flow.rand_graph(rng, nmax=6, steps=steps, p_imm=.5, p_del=.4)
        while True:
            g.rank = {o: rng.randrange(nranks) for o in range(1, g.n + 1)}
            if len(set(g.rank.values())) > 1 or g.n < 2:
                break
        for o in list(g.rank):
            x = rng.random()
            if x < .2:
                g.kw[o]['empty'] = True
            elif x < .35:
                g.kw[o]['scalar'] = True
            elif x < .5 and not g.lists[o]:
                g.kw[o]['size'] = rng.randint(1, 5)
            if g.rank[o] == 0 and rng.random() < .3:
                del g.rank[o]           # rank 0 is the default
        out += graph_traces(f'{prefix}{k}', g, steps, nranks, rng)
    return out


def graph_traces(tid, g, steps, nranks, rng):
    import c02
    p = g.params(total=steps * 0.001)
    e1, single, split, ev, st, errs = both(p, nranks, rng.randrange(2**31), without_ranks)
    if e1:
        raise core.CodeFailure(f'single-process run of a random graph: {e1}')
    merged = [e for r in sorted(split) for e in split[r]]
    e2 = errs or {r: s for r, s in st.items() if s != 'end'}
    return [mpi_trace(tid + 'm', p, nranks, single, split, ev, st, errs),
            dict(c02.flow_trace(tid + 'f', g, merged, p, None if not e2 else RuntimeError(str(e2))), fl=1)]


def as_graph(beh, rng):
    """A configuration of the model as parameters: edges (a, b, delayed), ranks, kinds of objects."""
    n, steps = beh['n'], beh['steps']
    g = flow.Graph(n)
    for o in range(1, n + 1):
        g.rank[o] = beh['rk'][o - 1]
        k = beh['kd'][o - 1]
        g.fire[o] = [[1 if k == 'full' or (k == 'late' and s > 0) else 0] for s in range(steps)]
        g.kw[o]['empty'] = k in ('late', 'never')
        g.style[o] = rng.choice([0, 3])
        x = rng.random()
        if x < .25 and k not in ('late', 'never'):
            g.kw[o]['scalar'] = True
        elif x < .5:
            g.kw[o]['size'] = rng.randint(1, 3)
    for j, (a, b, d) in enumerate(beh['edges']):
        g.inputs[b].append((f'in{j}', rng.choice('vl'), 0, [(a, 'o0', -1 if d else 0)]))
    return g, steps


def replays(behs, seed, prefix):
    import c02
    mpi.preload()
    rng = random.Random(seed)
    out = []
    for k, beh in enumerate(behs):
        g, steps = as_graph(beh, rng)
        out += graph_traces(f'{prefix}{k}', g, steps, 1 + max(beh['rk']), rng)
    return out


def typed(seed, count, prefix):
    """Every class of data object that has a value, sent to another process and back."""
    mpi.preload()
    rng = random.Random(seed)
    kinds = ['value', 'matrix', 'scalar', 'slopes', 'slopesi', 'pixels', 'pixels8', 'intensity', 'ef', 'layer']
    out = []
    for k in range(count):
        steps = rng.randint(2, 4)
        nranks = rng.choice([2, 3])
        p = {'main': {'class': 'SimulParams', 'root_dir': '.', 'total_time': steps * .001, 'time_step': .001,
                      'add_modules': ['probes']}}
        sel = rng.sample(kinds, 4)
        for j, kd in enumerate(sel):
            p[f'src{j}'] = {'class': 'TypedSrc', 'uid': j + 1, 'kind': kd, 'size': rng.randint(2, 5), 'target_rank': j % nranks,
                            'fire': [rng.choice([0, 1, 1]) for _ in range(steps)], 'inplace': rng.random() < .5,
                            'late': rng.random() < .5, 'outputs': ['o0']}
        for r in range(nranks):
            for d in ('', ':-1'):
                p[f'rd{r}{"d" if d else ""}'] = {
                    'class': 'FlowProbe', 'uid': 50 + 2 * r + bool(d), 'anytype': True, 'ins': [['il', 'l', 0]], 'target_rank': r,
                    'inputs': {'il': [f'src{j}.o0{d}' for j in range(4)]}, 'outputs': ['o0']}
        out.append(compare(f'{prefix}t{k}', p, nranks, rng))
    return out


def lib(seed, count, prefix):
    """Library objects around probes."""
    import c02
    mpi.preload()
    rng = random.Random(seed)
    names = sorted(c02.lib_specs())
    out = []
    for k in range(count):
        r = c02.LibRun(rng, rng.sample(names, rng.randint(2, 5)), chain=rng.random() < .6, steps=rng.randint(2, 5))
        nranks = rng.choice([2, 3])
        p = {n: (dict(b, target_rank=rng.randrange(nranks)) if n != 'main' else b) for n, b in r.params.items()}
        out.append(compare(f'{prefix}l{k}', p, nranks, rng))
    return out


def loops(seed, count, prefix):
    """A closed loop, split over processes."""
    import ao, shutil, tempfile
    mpi.preload()
    rng = random.Random(seed)
    root = tempfile.mkdtemp(prefix='c05-')
    try:
        def prep(r, c):
            core.specula_init()
            ao.calibration(root, 1)
        _, res, st = mpi.run(1, prep)
        if st[0] != 'end':
            raise core.CodeFailure(f'calibration files: {res[0]}')
        out = []
        for k in range(count):
            b = ao.blocks(rng, root, combine=rng.random() < .4, dms=rng.choice([1, 2]), infinite=rng.random() < .3)
            data = ('Source', 'Pupilstop')
            stores = rng.sample([f'{n}.{o}' for n, o in ao.outputs(b) if o != 'layer_list'], 4)
            b['store'] = {'class': 'DataStore', 'store_dir': os.path.join(root, f'out{k}'), 'inputs':
                          {'input_list': [f'x{j}-{s}' for j, s in enumerate(stores)]}}
            if rng.random() < .5:
                b['store']['data_format'] = 'pickle'
            if rng.random() < .5:
                b['buffer'] = {'class': 'DataBuffer', 'buffer_size': 2, 'inputs': {'input_list': ['m-rec.out_modes']},
                               'outputs': ['m_buffered']}
            nranks = rng.choice([2, 3])
            p = ao.params(root, b, rng.randint(2, 6), order=rng)
            p = {n: (dict(v, target_rank=rng.randrange(nranks)) if n != 'main' and v['class'] not in data else v)
                 for n, v in p.items()}
            if rng.random() < .3:
                p['pupilstop']['target_rank'] = p['prop']['target_rank']
            out.append(compare(f'{prefix}a{k}', p, nranks, rng))
        return out
    finally:
        shutil.rmtree(root, ignore_errors=True)


def compare(tid, p, nranks, rng):
    e1, single, split, ev, st, errs = both(p, nranks, rng.randrange(2**31), without_ranks)
    if e1:
        raise core.CodeFailure(f'single-process run: {e1}')
    return mpi_trace(tid, p, nranks, single, split, ev, st, errs)


def crowd(seed, count, prefix):
    """Many connections between two processes."""
    import c02
    mpi.preload()
    rng = random.Random(seed)
    out = []
    for k in range(count):
        g = flow.Graph(4)
        for o in range(1, 5):
            g.rank[o] = o % 2
            g.nout[o] = 6
        j = 0
        for a, b in ((1, 2), (3, 2), (2, 1), (2, 3), (4, 1), (4, 3), (1, 4), (3, 4)):
            for x in range(20):
                g.inputs[b].append((f'n{rng.randrange(1000)}i{j}', 'v', 0, [(a, f'o{rng.randrange(6)}', 0 if (a % 2 and a != b) else -1)]))
                j += 1
        out += graph_traces(f'{prefix}c{k}', g, 2, 2, rng)
    return out


def check(ctx):
    behs = ctx.model_check('MCMpi')
    if ctx.thorough:
        behs = ctx.model_check('MCMpi', cfg='MCMpiT', workers=8)
    sel = ctx.rng.sample(behs, min(len(behs), ctx.n(120, 1500)))
    parts = 6
    tr = [t for r in core.jobs('c05', 'replays', [[sel[k::parts], ctx.rng.randrange(2**31), f'r{k}.'] for k in range(parts)], init=False)
          for t in r]
    for fn, q, th in (('graphs', 150, 2500), ('typed', 36, 300), ('lib', 60, 600), ('loops', 36, 300), ('crowd', 6, 12)):
        tr += core.spread(ctx, 'c05', fn, ctx.n(q, th), prefix=f'{fn}.', init=False)
    ctx.notes['runs'] = sum(1 for t in tr if 'ranks' in t)
    ctx.notes['messages'] = sum(1 for t in tr for e in t['ev'] if e.get('op') == 'send')
    ctx.validate('MpiTrace', [t for t in tr if 'ranks' in t])
    ctx.validate('FlowTrace', [t for t in tr if 'fl' in t])
    ctx.assumptions.append('messages travel through a stand-in for mpi4py that follows the point-to-point rules of MPI; '
                           'no MPI library is installed here')
