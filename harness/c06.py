"""C06: layered parameter files, judged on the parameters a run actually uses."""
import copy, json, os, tempfile
import yaml
import core

NAMES = ['atmo', 'dm', 'dm2', 'rec', 'layer_1', 'layer_2', 'a_b', 'X', 'ccd', 'src_on_axis']


class Stop(Exception):
    pass


def used_params(files, overrides, idx):
    """The parameters handed to scheduling, or the refusal."""
    from specula.simul import Simul
    d = tempfile.mkdtemp(prefix='c06-')
    paths = []
    for k, f in enumerate(files):
        p = os.path.join(d, f'p{k}.yml')
        with open(p, 'w') as fh:
            yaml.dump(f, fh, sort_keys=False, Dumper=getattr(yaml, 'CSafeDumper', yaml.SafeDumper))
        paths.append(p)
    got = []

    class S(Simul):
        def build_trigger_order(self, params):
            got.append(copy.deepcopy(params))
            raise Stop()
    try:
        with core.quiet():
            S(*paths, overrides=overrides, simul_idx=idx).run()
    except Stop:
        return got[0]
    except Exception as e:
        return e
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def owner(ref):
    r = ref.split(':')[0]
    if '-' in r:
        r = r.split('-')[1]
    return r.split('.')[0]


def js(v):
    return json.dumps(v, sort_keys=True)


def item(k, v, conn):
    if conn:
        vv = v if isinstance(v, list) else [v]
        return dict(k=k, single=not isinstance(v, list), refs=[dict(o=owner(x), t=x) for x in vv], txt='')
    return dict(k=k, single=False, refs=[], txt=js(v))


def entry(k, v):
    if isinstance(v, dict):
        return dict(k=k, kind='map', val='', map=[item(a, b, k == 'inputs') for a, b in v.items()])
    return dict(k=k, kind='val', val=js(v), map=[])


def block(b):
    return [entry(k, v) for k, v in b.items()]


def pset(p):
    return [dict(k=n, block=block(b)) for n, b in p.items()]


def trace(tid, base, layers, cmd, idx, key=None):
    """layers: list of list of (kind, name or names, block, suffix)"""
    files, ev = [base], []
    for lay in layers:
        f = {}
        for kind, nm, b, sx in lay:
            tail = '' if sx < 0 else f'_{sx}'
            if kind == 'remove':
                f['remove' + tail] = nm
                ev.append(dict(kind='remove', names=nm, idx=sx))
            elif kind == 'override':
                f[nm + '_override' + tail] = b
                ev.append(dict(kind='override', name=nm, block=block(b), idx=sx))
            else:
                f[nm + tail] = b
                ev.append(dict(kind='add', name=nm, block=block(b), idx=sx))
        files.append(f)
    ov = None
    if cmd is not None:
        ov = '{' + ', '.join(f'{k}: {json.dumps(v)}' for k, v in cmd) + '}'
        for k, v in cmd:
            p = k.split('.')
            if len(p) == 2:
                ev.append(dict(kind='cmd2', name=p[0], entry=p[1], value=entry('', v), idx=-1))
            else:
                ev.append(dict(kind='cmd3', name=p[0], entry=p[1], item=p[2], value=item('', v, p[1] == 'inputs'), idx=-1))
    got = used_params(files, ov, idx)
    if isinstance(got, Exception):
        ev.append(dict(kind='result', refused=True, params=[], err=f'{type(got).__name__}: {got}'[:200]))
    else:
        ev.append(dict(kind='result', refused=False, params=pset(got), err=''))
    return dict(id=tid, base=pset(base), ev=ev, idx=idx, replay=dict(files=files, overrides=ov, idx=idx))


def rnd_val(rng):
    return rng.choice([rng.randint(-5, 99), rng.random(), 'txt%d' % rng.randint(0, 9), [1, rng.randint(0, 9)], None, True,
                       {'x': rng.randint(0, 9), 'y': [rng.randint(0, 9)]}, '', [], 'name_2', 'dm.out'])


def rnd_inputs(rng, names):
    d = {}
    for k in range(rng.randint(0, 3)):
        def ref():
            n = rng.choice(names)
            return rng.choice([f'{n}.o', f'{n}.out2', f'{n}', f'{n}.o:-1'])
        if rng.random() < .5:
            d[f'i{k}'] = ref()
        else:
            d[f'i{k}'] = [ref() for _ in range(rng.randint(0, 4))]
    if rng.random() < .15:
        n = rng.choice(names)
        d = {'input_list': [f'al{j}-{rng.choice(names)}.o' for j in range(rng.randint(1, 4))]}
    return d


def rnd_block(rng, names, full=True):
    b = {}
    if full:
        b['class'] = 'C%d' % rng.randint(0, 3)
    for k in rng.sample(['p', 'q', 'r', 'gain', 'on_dict', 'xy_ref'], rng.randint(0, 4)):
        b[k] = rnd_val(rng)
    if rng.random() < (.8 if full else .4):
        b['inputs'] = rnd_inputs(rng, names)
    if rng.random() < .3:
        b['outputs'] = ['o', 'out2'][:rng.randint(1, 2)]
    return b


def check(ctx):
    core.specula_init()
    rng = ctx.rng
    hists = ctx.model_check('MCParams')
    ctx.require(len(hists) > 5000, 'operation sequences')
    ctx.notes['operation_sequences_enumerated'] = len(hists)
    traces = []

    def mc(bl):
        out = {}
        for k, e in bl.items():
            if e['kind'] == 'val':
                out[k] = e['val']
            else:
                out[k] = {n: ([r['t'] for r in it['refs']] if not it['single'] else it['refs'][0]['t']) for n, it in e['map'].items()}
        return out
    one = {'class': 'C', 'p': 'base'}
    base = {'a': {**one, 'inputs': {'i': 'b.o:-1'}}, 'b': {**one, 'inputs': {'i': 'a.o', 'l': ['a.o', 'c.o:-1', 'a.o:-1']}}}
    pick = [h for h in hists if len(h) < 3] + [h for h in hists if len(h) == 3 and (ctx.thorough or rng.random() < .1)]
    for k, h in enumerate(pick):
        layers = [[(op['kind'], op['names'] if op['kind'] == 'remove' else op['name'],
                    mc(op['block']) if 'block' in op else None, op['idx'])] for op in h]
        traces.append(trace(f'e{k}', copy.deepcopy(base), layers, None, 0))
    for k in range(ctx.n(2500, 30000)):
        names = rng.sample(NAMES, rng.randint(2, 6))
        base = {'main': {'class': 'SimulParams', 'total_time': 0.01, 'time_step': 0.001}}
        for n in names:
            base[n] = rnd_block(rng, names + rng.sample(NAMES, 1))
        idx = rng.choice([0, 0, 1, 2, 3, 12])
        layers, cur = [], list(base)
        for _ in range(rng.randint(0, 3)):
            lay, used = [], set()
            for _ in range(rng.randint(1, 4)):
                kind = rng.choice(['remove', 'override', 'override', 'add'])
                sx = rng.choice([-1, -1, -1, idx, idx, 0, 1, 2, 12])
                wrong = rng.random() < .06
                absent = [n for n in NAMES if n not in cur]
                if kind == 'remove':
                    nm = rng.sample(NAMES if wrong else cur, rng.randint(1, min(2, len(cur)))) if cur else []
                    key = ('remove', sx)
                else:
                    pool = NAMES if wrong else (cur if kind == 'override' else absent)
                    if not pool:
                        continue
                    nm = rng.choice(pool)
                    key = (kind, nm, sx)
                if key in used:
                    continue
                used.add(key)
                if kind == 'add':
                    # an added block whose name would read as another instruction is not meant
                    lay.append((kind, nm, rnd_block(rng, NAMES), sx)) if not nm[-1].isdigit() or '_' not in nm or sx >= 0 else None
                elif kind == 'override':
                    lay.append((kind, nm, rnd_block(rng, NAMES, False), sx))
                else:
                    lay.append((kind, nm, None, sx))
                if sx in (-1, idx):
                    if kind == 'remove':
                        cur = [c for c in cur if c not in nm]
                    elif kind == 'add' and lay and lay[-1][1] == nm and nm not in cur:
                        cur.append(nm)
            if lay:
                layers.append(lay)
        cmd = None
        if rng.random() < .4:
            cmd = []
            for _ in range(rng.randint(0, 3)):
                n = rng.choice(NAMES if rng.random() < .1 or not cur else cur)
                if rng.random() < .6:
                    k2 = f'{n}.{rng.choice(["p", "q", "gain", "newpar"])}'
                    v2 = rnd_val(rng)
                else:
                    k2, v2 = f'{n}.inputs.{rng.choice(["i0", "i1", "new"])}', rng.choice(['dm.o', ['rec.o', 'dm.o:-1']])
                if k2 not in dict(cmd):
                    cmd.append((k2, v2))
        traces.append(trace(f'r{k}', base, layers, cmd, idx))
    ref = sum(t['ev'][-1]['refused'] for t in traces if t['id'][0] == 'r')
    ctx.notes['refused_random'] = ref
    ctx.notes['random'] = sum(t['id'][0] == 'r' for t in traces)
    ctx.need(20 < ref < .8 * ctx.notes['random'], f'share of refusals {ref}')
    ctx.validate('ParamsTrace', traces)
