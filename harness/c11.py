"""C11: replay parameter files, structurally for TLC-enumerated and random networks, and dynamically by running them."""
import copy, json, os, shutil, tempfile
import yaml
import core, flow
from probes import rec


def parse(ref):
    d = 0
    if ':' in ref:
        ref, x = ref.split(':')
        d = int(x)
    alias = ''
    if '-' in ref:
        alias, ref = ref.split('-')
    o, _, out = ref.partition('.')
    return dict(alias=alias, o=o, out=out, d=d)


def text(it):
    return (it['alias'] + '-' if it['alias'] else '') + it['o'] + ('.' + it['out'] if it['out'] else '') + \
        (f":{it['d']}" if it['d'] else '')


def block(name, b):
    conns, refs, rest = [], [], {}
    for k, v in b.items():
        if k == 'inputs':
            for n, x in v.items():
                conns.append(dict(name=n, single=not isinstance(x, list), items=[parse(y) for y in (x if isinstance(x, list) else [x])]))
        elif k.endswith('_ref'):
            refs += [v] if isinstance(v, str) else list(v)
            rest[k] = v
        else:
            rest[k] = v
    return dict(name=name, store=b.get('class') == 'DataStore', conns=conns, refs=sorted(set(refs)),
                rest=json.dumps(rest, sort_keys=True))


def blocks(p):
    return [block(n, b) for n, b in p.items()]


def derive(params, targets, store_dir=None):
    """The 'file' event: the replay file the code derives."""
    from specula.simul import Simul
    p = copy.deepcopy(params)
    stores = [b for b in params.values() if b['class'] == 'DataStore']
    err, r = '', {}
    with core.quiet():
        try:
            s = Simul('x.yml')
            if targets:
                r = s.build_targeted_replay(p, *targets, set_store_dir=store_dir)
            else:
                r = s.build_replay(p)
        except Exception as e:
            err = f'{type(e).__name__}: {e}'[:200]
    src = r.get('data_source', {})
    head = not stores or (src.get('class') == 'DataSource' and src.get('store_dir') == (store_dir or stores[0]['store_dir'])
                          and src.get('data_format', 'fits') == stores[0].get('data_format', 'fits')
                          and set(src) <= {'class', 'outputs', 'store_dir', 'data_format'})
    e = dict(k='file', targets=list(targets), err=err, same=p == params, head=bool(head),
             R=[x for x in blocks(r) if x['name'] != 'data_source'], src=list(src.get('outputs', [])))
    return e, r


def from_model(b, rng):
    """Parameter file of a TLC-enumerated network."""
    p = {}
    for x in b['P']:
        d = {'class': {'main': 'SimulParams', 'store': 'DataStore'}.get(x['name'], 'Some')}
        if x['name'] == 'store':
            d['store_dir'] = '/tmp/nowhere'
            if rng.random() < .5:
                d['data_format'] = rng.choice(['fits', 'pickle'])
        if x['refs']:
            n = list(x['refs'])
            d.update(rng.choice([{'par_ref': n[0]}, {'some_list_ref': n}, {'some_dict_ref': n}]))
        if x['conns']:
            d['inputs'] = {c['name']: (text(c['items'][0]) if c['single'] else [text(i) for i in c['items']]) for c in x['conns']}
        p[x['name']] = d
    ks = list(p)
    rng.shuffle(ks)
    return {k: p[k] for k in ks}


def rnd_params(rng):
    names = rng.sample(['a', 'dm', 'obj_1', 'X', 'rec2', 'on_axis', 'm2', 'zz', 'src'], rng.randint(3, 8))
    p = {'main': {'class': 'SimulParams', 'root_dir': '.', 'total_time': 0.01}}
    sig = [(n, o) for n in names for o in ('o', 'out2')]
    ref = lambda d=True: '%s.%s' % rng.choice(sig) + (rng.choice(['', '', ':-1']) if d else '')
    for n in names:
        b = {'class': rng.choice(['C1', 'C2']), 'gain': rng.random()}
        ins = {}
        for k in range(rng.randint(0, 3)):
            ins[f'i{k}'] = ref() if rng.random() < .5 else [rng.choice([ref, ref, lambda: rng.choice(names)])() for _ in range(rng.randint(0, 3))]
        if rng.random() < .1:
            b['class'] = 'DataBuffer'
            ins = {'input_list': [f'al{k}-{ref(False)}' for k in range(rng.randint(1, 3))]}
        if ins or rng.random() < .2:
            b['inputs'] = ins
        if rng.random() < .4:
            b['simul_params_ref'] = 'main'
        r = rng.random()
        if r < .15:
            b['thing_ref'] = rng.choice(names)
        elif r < .25:
            b['things_list_ref'] = rng.sample(names, 2)
        elif r < .35:
            b['things_dict_ref'] = rng.sample(names, 2)
        if rng.random() < .5:
            b['outputs'] = ['o']
        p[n] = b
    if rng.random() < .9:
        k = rng.randint(1, 4)
        p['store'] = {'class': 'DataStore', 'store_dir': './out', 'inputs': {'input_list': [f'q{j}-{ref(False)}' for j in range(k)]}}
        if rng.random() < .5:
            p['store']['data_format'] = rng.choice(['fits', 'pickle'])
    ks = list(p)
    rng.shuffle(ks)
    return {k: p[k] for k in ks}


def mixed_delay(r):
    """Does an object of the replay file read the data source with a delay and depend on it without?"""
    imm, dl = {}, set()
    for n, b in r.items():
        for v in b.get('inputs', {}).values():
            for x in v if isinstance(v, list) else [v]:
                it = parse(x)
                if it['d']:
                    if it['o'] == 'data_source':
                        dl.add(n)
                else:
                    imm.setdefault(it['o'], set()).add(n)
    seen, todo = set(), ['data_source']
    while todo:
        for y in imm.get(todo.pop(), ()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return bool(seen & dl)


def dynamic(tid, rng):
    """Run a random network with a DataStore, then its replay file, and compare what is read."""
    steps = rng.randint(2, 6)
    g = flow.rand_graph(rng, nmax=6, steps=steps + 1)
    for o in range(1, g.n + 1):      # lists are not recordable
        g.lists[o] = 0
        g.inputs[o] = [x for x in g.inputs[o] if not x[0].startswith('il')]
        if g.fire[o]:
            for f in g.fire[o]:
                f[:] = f[:g.nout[o]] if len(f) >= g.nout[o] else f
    sigs = [(o, k) for o in range(1, g.n + 1) for k in range(g.nout[o])]
    recd = rng.sample(sigs, rng.randint(1, min(4, len(sigs))))
    d = tempfile.mkdtemp(prefix='c11-')
    try:
        dt = 0.001
        p = g.params(total=steps * dt, dt=dt)
        fmt = rng.choice(['fits', 'pickle'])
        p['store'] = {'class': 'DataStore', 'store_dir': d, 'data_format': fmt,
                      'inputs': {'input_list': [f'q{j}-{g.name(o)}.o{k}' for j, (o, k) in enumerate(recd)]}}
        err, s = flow.run_params(p)
        log1 = list(rec.LOG)
        tok1 = dict(rec.TOK)
        if err is not None:
            return None
        tn = [x for x in os.listdir(d)]
        saved = set(os.listdir(os.path.join(d, tn[0]))) if tn else set()
        if any(f'q{j}.{fmt}' not in saved for j in range(len(recd))):
            return None                        # a signal that was never published has no file to replay
        e, r = derive(p, [])
        with open(os.path.join(d, tn[0], 'replay_params.yml')) as f:
            r2 = yaml.safe_load(f)
        err2, s2 = flow.run_params(r2)
        log2 = list(rec.LOG)
        tok2 = dict(rec.TOK)
        ev = [e, dict(k='end', res='ok' if err2 is None else f'{type(err2).__name__}: {err2}'[:150])]
        if err2 is None:
            key1 = {v: repr(k) for k, v in tok1.items()}
            key2 = {v: repr(k) for k, v in tok2.items()}

            def reads(log, key, names):
                out = {}
                for x in log:
                    if x['k'] == 'read' and x['o'] in names:
                        out.setdefault(x['o'], []).append([x['t'] // 1000, [[key[a] if b >= 0 else 'unset', b] for z in x['reads'] for a, b in z]])
                return out
            kept = {o for o in range(1, g.n + 1) if g.name(o) in r2}
            a, b = reads(log1, key1, kept), reads(log2, key2, kept)
            tokens = {}
            num = lambda q: [[x[0], [[tokens.setdefault(v, len(tokens) + 1), t] for v, t in x[1]]] for x in q]
            for o in sorted(kept):
                ev.append(dict(k='reads', o=o, orig=num(a.get(o, [])), replay=num(b.get(o, []))))
        t = dict(id=tid, P=blocks(p), ev=ev, replay=dict(params=p, replay=r2))
        if mixed_delay(r2):
            t['key'] = 'replay:mixed-delay'
        return t
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check(ctx):
    core.specula_init()
    rng = ctx.rng
    nets = ctx.model_check('MCReplay')
    ctx.require(len(nets) > 20000, 'networks')
    ctx.notes['networks_enumerated'] = len(nets)
    if not ctx.thorough:
        nets = rng.sample(nets, 3000)
    traces = []
    for k, b in enumerate(nets):
        p = from_model(b, rng)
        traces.append(dict(id=f'e{k}', P=blocks(p), ev=[derive(p, [])[0], derive(p, b['targets'], rng.choice([None, '/tmp/x']))[0]], replay=p))
    for k in range(ctx.n(2000, 30000)):
        p = rnd_params(rng)
        cand = [n for n in p if n not in ('main', 'store')]
        ev = [derive(p, [])[0]]
        for _ in range(2):
            ev.append(derive(p, rng.sample(cand, rng.randint(1, min(3, len(cand)))), rng.choice([None, '/tmp/x']))[0])
        traces.append(dict(id=f'r{k}', P=blocks(p), ev=ev, replay=p))
    nd = 0
    for k in range(ctx.n(260, 3000)):
        t = dynamic(f'd{k}', rng)
        if t:
            traces.append(t)
            nd += 1
    ctx.notes['replays_run'] = nd
    ctx.need(nd > 60, f'replays run {nd}')
    ctx.validate('ReplayTrace', traces, chunk=3000)
