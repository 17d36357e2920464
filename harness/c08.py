"""C08: connections made by Simul for random parameter files, by identity of the connected data objects."""
import core, flow
from probes import rec

TYPES = ['BaseValue', 'BaseValue', 'BaseValue', 'Slopes', 'Pixels', 'Intensity', 'ElectricField', 'Layer']


def reftext(r, d):
    return r['o'] + ('.' + r['out'] if r['out'] else '') + (':-1' if d else '')


def run(tid, objs, order, delays):
    """objs: list of object descriptions (see Connect.tla) plus 'buf' (aliases of a DataBuffer)."""
    p = {'main': {'class': 'SimulParams', 'root_dir': '.', 'total_time': 0.002, 'time_step': 0.001,
                  'add_modules': ['probes']}}
    byname = {o['name']: o for o in objs}
    for n in order:
        o = byname[n]
        if o['isdata']:
            p[n] = {'class': 'ConnData', 'x': 1}
            continue
        ins = {}
        for c in o['conns']:
            txt = [reftext(r, delays.get((n, r['o']), 0)) for r in c['refs']]
            ins[c['name']] = {'one': txt[0] if txt else None, 'list': txt, 'bad': c.get('raw')}[c['form']]
        if o.get('buf'):
            p[n] = {'class': 'DataBuffer', 'buffer_size': 5,
                    'inputs': {'input_list': [f"{c['name']}-{reftext(c['refs'][0], 0)}" for c in o['conns']]}}
        else:
            p[n] = {'class': 'ConnProbe',
                    'ins': [[i['name'], int(i['single']), int(i['opt']), i['type']] for i in o['ins']],
                    'outs': [[i['name'], i['type'], i['count']] for i in o['outs']]}
            if ins:
                p[n]['inputs'] = ins
            if o['declared']:
                p[n]['outputs'] = o['declared']
    err, s = flow.run_params(p)
    ev = []
    ident = {}
    for n, x in (s.objs if s else {}).items():
        ident[id(x)] = dict(o=n, out='', k=0)
        for on, ov in getattr(x, 'outputs', {}).items():
            if isinstance(ov, list):
                for k, y in enumerate(ov):
                    ident[id(y)] = dict(o=n, out=on, k=k + 1)
            else:
                ident[id(ov)] = dict(o=n, out=on, k=0)
    if err is None:
        for n, x in s.objs.items():
            for src in ([x.at_setup, x.local_inputs] if hasattr(x, 'at_setup') else [getattr(x, 'local_inputs', {})]):
                for name, v in src.items():
                    items = v if isinstance(v, list) else ([] if v is None else [v])
                    ev.append(dict(k='holds', o=n, name=name, items=[ident.get(id(y), dict(o='?', out='?', k=0)) for y in items]))
    ev.append(dict(k='end', res='ok' if err is None else f'{type(err).__name__}: {err}'[:150],
                   stepped=any(e['k'] == 'stepped' for e in rec.LOG)))
    clean = [{k: v for k, v in o.items() if k != 'buf'} for o in objs]
    for o in clean:
        o['conns'] = [{k: v for k, v in c.items() if k != 'raw'} for c in o['conns']]
    return dict(id=tid, objs=clean, ev=ev, replay=p)


def dobj(name):
    return dict(name=name, isdata=True, type='BaseValue', ins=[], outs=[], conns=[], declared=[])


def rnd(rng, tid):
    n = rng.randint(2, 7)
    names = rng.sample(['a', 'dm', 'obj_1', 'X', 'rec2', 'on_axis', 'm2', 'zz', 'src'], n)
    objs = []
    for j, nm in enumerate(names):
        if rng.random() < .15:
            objs.append(dobj(nm))
            continue
        outs = [dict(name=f'o{k}', type=rng.choice(TYPES), count=rng.choice([0, 0, 0, 1, 2, 3])) for k in range(rng.randint(1, 3))]
        objs.append(dict(name=nm, isdata=False, type='', ins=[], outs=outs, conns=[], declared=[]))
    wrong = rng.choice(['unknown', 'output', 'input', 'type', 'many', 'missing', 'declared', 'malformed', 'datakey', 'nokey']) \
        if rng.random() < .35 else ''
    target = rng.randrange(n)
    delays = {}
    for j, o in enumerate(objs):
        if o['isdata']:
            continue
        srcs = [(k, x) for k, x in enumerate(objs) if k != j]
        for k, x in srcs:
            delays[(o['name'], x['name'])] = 0 if (k < j or x['isdata']) else -1
        mine = wrong if j == target else ''

        def refs(t):
            out = []
            for k, x in srcs:
                if x['isdata']:
                    if t in ('BaseValue', 'BaseDataObj'):
                        out.append((dict(o=x['name'], out=''), 1))
                for y in x['outs']:
                    if t == y['type'] or t == 'BaseDataObj' or (t == 'ElectricField' and y['type'] == 'Layer'):
                        out.append((dict(o=x['name'], out=y['name']), max(1, y['count'])))
            return out
        if rng.random() < .12 and not mine:
            cand = [(x, y) for k, x in srcs if k < j for y in x['outs'] if y['count'] == 0]
            rng.shuffle(cand)
            if cand:
                o['buf'] = True
                o['outs'] = []
                for q, (x, y) in enumerate(cand[:3]):
                    o['ins'].append(dict(name=f'al{q}', single=y['count'] == 0, opt=False, type=y['type']))
                    o['conns'].append(dict(name=f'al{q}', form='one', refs=[dict(o=x['name'], out=y['name'])]))
                # nobody reads from it
                for other in objs[j + 1:]:
                    pass
                continue
        for k in range(rng.randint(0, 4)):
            t = rng.choice(TYPES + ['BaseDataObj'])
            single, opt = rng.random() < .5, rng.random() < .4
            rr = refs(t)
            nm = f'in{k}'
            if single:
                one = [r for r, c in rr if c == 1]
                if one and rng.random() < .85:
                    r = rng.choice(one)
                    o['conns'].append(dict(name=nm, form=rng.choice(['one', 'one', 'list']), refs=[r]))
                else:
                    opt = True
                    if rng.random() < .3:
                        o['conns'].append(dict(name=nm, form='list', refs=[]))
            else:
                if rr and rng.random() < .85:
                    m = rng.randint(1, 4)
                    rs = [rng.choice(rr)[0] for _ in range(m)]
                    o['conns'].append(dict(name=nm, form='one' if m == 1 and rng.random() < .5 else 'list', refs=rs))
                else:
                    opt = True
            o['ins'].append(dict(name=nm, single=single, opt=opt, type=t))
        if rng.random() < .5:
            o['declared'] = [y['name'] for y in o['outs']][:rng.randint(1, 3)]
        x = rng.choice([x for k, x in srcs])
        if mine == 'unknown':
            o['ins'].append(dict(name='w', single=rng.random() < .5, opt=rng.random() < .5, type='BaseDataObj'))
            o['conns'].append(dict(name='w', form=rng.choice(['one', 'list']), refs=[dict(o='nothere', out=rng.choice(['o0', '']))]))
        elif mine == 'output' and not x['isdata']:
            o['ins'].append(dict(name='w', single=rng.random() < .5, opt=rng.random() < .5, type='BaseDataObj'))
            o['conns'].append(dict(name='w', form=rng.choice(['one', 'list']), refs=[dict(o=x['name'], out='nope')]))
        elif mine == 'nokey' and not x['isdata']:
            o['ins'].append(dict(name='w', single=rng.random() < .5, opt=rng.random() < .5, type='BaseDataObj'))
            o['conns'].append(dict(name='w', form=rng.choice(['one', 'list']), refs=[dict(o=x['name'], out='')]))
        elif mine == 'datakey' and x['isdata']:
            o['ins'].append(dict(name='w', single=rng.random() < .5, opt=rng.random() < .5, type='BaseDataObj'))
            o['conns'].append(dict(name='w', form=rng.choice(['one', 'list']), refs=[dict(o=x['name'], out='o0')]))
        elif mine == 'input':
            rr = refs('BaseDataObj')
            if rr:
                o['conns'].append(dict(name='notaninput', form=rng.choice(['one', 'list']), refs=[rng.choice(rr)[0]]))
        elif mine == 'type':
            rr = [(x2, y) for k, x2 in srcs for y in x2['outs']]
            if rr:
                x2, y = rng.choice(rr)
                t = rng.choice([t for t in TYPES if t != y['type'] and not (t == 'ElectricField' and y['type'] == 'Layer')])
                o['ins'].append(dict(name='w', single=y['count'] < 2 and rng.random() < .5, opt=rng.random() < .5, type=t))
                o['conns'].append(dict(name='w', form='one', refs=[dict(o=x2['name'], out=y['name'])]))
        elif mine == 'many':
            rr = refs('BaseDataObj')
            if rr:
                rs = [rng.choice(rr)[0] for _ in range(2)]
                big = [r for r, c in rr if c > 1]
                if big and rng.random() < .5:
                    rs = [rng.choice(big)]
                o['ins'].append(dict(name='w', single=True, opt=rng.random() < .5, type='BaseDataObj'))
                o['conns'].append(dict(name='w', form='list' if len(rs) > 1 else 'one', refs=rs))
        elif mine == 'missing':
            o['ins'].append(dict(name='w', single=True, opt=False, type=rng.choice(TYPES)))
            if rng.random() < .3:
                o['conns'].append(dict(name='w', form='list', refs=[]))
        elif mine == 'declared':
            o['declared'] = o['declared'] + ['nope']
            rng.shuffle(o['declared'])
        elif mine == 'malformed' and o['ins']:
            nm = rng.choice(o['ins'])['name']
            o['conns'] = [c for c in o['conns'] if c['name'] != nm]
            o['conns'].append(dict(name=nm, form='bad', refs=[], raw=rng.choice([3, 2.5, True])))
        rng.shuffle(o['conns'])
    # a buffer publishes nothing that others read at this level
    bufs = {o['name'] for o in objs if o.get('buf')}
    for o in objs:
        for c in o['conns']:
            if any(r['o'] in bufs for r in c['refs']):
                return None
    order = names[:]
    rng.shuffle(order)
    # DataStore/DataBuffer aliases are resolved when the buffer is set up; every listing order is legal
    return run(tid, objs, order, delays)


def check(ctx):
    core.specula_init()
    rng = ctx.rng
    cases = ctx.model_check('MCConnect')
    ctx.require(len(cases) == 4 * (1 + 14 + 14 * 14), f'connection cases {len(cases)}')
    traces = []
    src = dict(name='s', isdata=False, type='', ins=[], conns=[], declared=[],
               outs=[dict(name='v', type='BaseValue', count=0), dict(name='one', type='BaseValue', count=1),
                     dict(name='l', type='BaseValue', count=2), dict(name='e', type='Layer', count=0)])
    for k, c in enumerate(cases):
        if not c['refs'] and not c['single'] and not c['opt']:
            continue        # a mandatory list without items is not covered by the property
        rd = dict(name='r', isdata=False, type='', outs=[], declared=[],
                  ins=[dict(name='x', single=c['single'], opt=c['opt'], type='BaseValue')],
                  conns=[dict(name='x', form='one' if len(c['refs']) == 1 and k % 2 else 'list', refs=c['refs'])] if c['refs'] else [])
        names = ['s', 'd', 'r']
        rng.shuffle(names)
        traces.append(run(f'e{k}', [src, dobj('d'), rd], names, {}))
    k = 0
    while k < ctx.n(900, 15000):
        t = rnd(rng, f'r{k}')
        if t:
            traces.append(t)
            k += 1
    nref = sum(t['ev'][-1]['res'] != 'ok' for t in traces if t['id'][0] == 'r')
    ctx.notes.update(random=k, random_refused=nref)
    ctx.need(.1 * k < nref < .7 * k, f'refusals {nref}/{k}')
    ctx.validate('ConnectTrace', traces)
