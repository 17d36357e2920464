"""C07: construction of configured objects."""
import json, os, shutil, tempfile
import numpy as np
import core, flow
from probes import rec

ARGS = dict(BuildProc=['uid', 'a', 'b', 'layer_list', 'obj_dict', 'mate', 'raw_data', 'arr', 'recmat', 'mat_list', 'mat_dict'],
            BuildSub=['uid', 'a', 'other'],
            BuildData=['uid', 'a', 'mate', 'friend_list'],
            SimulParams=[], Recmat=[])
SUFFIX = dict(val='', ref='_ref', list='_ref', dict='_ref', data='_data', obj='_object', listobj='_object', dictobj='_object')


def js(v):
    return json.dumps(v, sort_keys=True)


def files(root):
    from specula.data_objects.recmat import Recmat
    from specula.calib_manager import CalibManager
    for d in ('data', 'rec'):
        os.makedirs(os.path.join(root, d))
    cm = CalibManager(root)
    for k in range(1, 4):
        cm.write_data(f'd{k}', np.full((2, k), k, dtype=float))
        r = Recmat(recmat=np.full((2, 3), 10.0 + k))
        r.save(cm.filename('Recmat', f'r{k}'))


def matval(o):
    return f'mat{int(np.asarray(o.recmat).ravel()[0])}'


def observe(name, blocks, err, simul):
    """Constructor calls and final objects."""
    from probes.build_proc import BUILT, _DEF
    objs = dict(simul.objs) if simul is not None else {}

    def who(o):
        for n, x in objs.items():
            if x is o:
                return n
        return '?'

    def arg(k, v):
        e = dict(arg=k, form='val', v='', names=[])
        if v is _DEF:
            e['form'] = 'default'
        elif any(v is x for x in objs.values()) or hasattr(v, 'uid'):
            e.update(form='ref', names=[who(v)])
        elif type(v).__name__ == 'Recmat':
            e.update(form='obj', v=matval(v) + ':' + str(getattr(v, 'tag', None)))
        elif type(v).__name__ == 'SimulParams':
            e.update(form='ref', names=['?'])
        elif isinstance(v, np.ndarray):
            e.update(form='data', v=f'data{int(v.ravel()[0])}:{v.shape}')
        elif k in ('layer_list', 'friend_list', 'mat_list') and isinstance(v, list):
            if all(type(x).__name__ == 'Recmat' and not any(x is y for y in objs.values()) for x in v) and k == 'mat_list':
                e.update(form='listobj', v=';'.join(matval(x) + ':' + str(getattr(x, 'tag', None)) for x in v))
            else:
                e.update(form='list', names=[who(x) for x in v])
        elif k == 'obj_dict' and isinstance(v, dict):
            ok = list(v)
            e.update(form='dict', names=[n if who(v[n]) == n else '?' for n in ok])
        elif k == 'mat_dict' and isinstance(v, dict):
            e.update(form='dictobj', v=';'.join(f'{n}={matval(x)}:{getattr(x, "tag", None)}' for n, x in v.items()))
        else:
            try:
                e['v'] = js(v)
            except TypeError:
                e['v'] = f'<{type(v).__name__}>'
        return e
    ev = []
    for uid, o, cls, args in BUILT:
        ev.append(dict(k='built', uid=uid, cls=cls, args=[arg(k, v) for k, v in args.items()]))
    uids = {b['name']: b['uid'] for b in blocks}
    ol = []
    for n, o in objs.items():
        u = getattr(o, 'uid', uids.get(n, -1))
        ol.append(dict(name=n, uid=u, cls=type(o).__name__, v=matval(o) if type(o).__name__ == 'Recmat' else '',
                       selfname=getattr(o, 'name', '?') if type(o).__name__ != 'SimulParams' else getattr(o, 'name', n)))
    ev.append(dict(k='end', res='ok' if err is None else f'{type(err).__name__}: {err}'[:150], objs=ol,
                   stepped=any(e['k'] == 'stepped' for e in rec.LOG)))
    return ev


def run(tid, main, blocks, root):
    """blocks: list of dict(name, cls, pars=[dict(arg, form, raw, names, v, ok)], ...)"""
    from probes import build_proc
    build_proc.BUILT.clear()
    p = {}
    for b in blocks:
        if b['name'] == 'main':
            p['main'] = dict(main, root_dir=root)
            continue
        d = {}
        if b['known'] != 'nocls':
            d['class'] = b['cls'] if b['known'] is True else 'NoSuchClass'
        if b.get('tag'):
            d['tag'] = b['tag']
        elif b['uid'] is not None and b['cls'] != 'Recmat':
            d['uid'] = b['uid']
        for q in b['pars']:
            if q['arg'] != 'uid':
                d[q['arg'] + SUFFIX[q['form']]] = q['raw']
        p[b['name']] = d
    err, s = flow.run_params(p)
    tb = []
    for b in blocks:
        pars = list(b['pars'])
        tb.append(dict(name=b['name'], cls=b['cls'], known=b['known'] is True, uid=b['uid'], v=b.get('v', ''),
                       probe=b['cls'].startswith('Build'),
                       pars=[dict(arg=q['arg'], form=q['form'], v=q['v'], names=q['names'], ok=q['ok']) for q in pars]))
    ev = observe(tid, blocks, err, s)
    return dict(id=tid, blocks=tb, args=ARGS, ev=ev, replay=dict(params=p))


def par(arg, form, raw, v='', names=(), ok=True):
    return dict(arg=arg, form=form, raw=raw, v=v, names=list(names), ok=ok)


def rnd_par(rng, arg, names, miss):
    """A parameter for argument arg; refers to names; miss allows wrong ones."""
    ref = lambda: rng.choice(names) if not miss or rng.random() > .3 else 'nothere'
    if arg in ('layer_list', 'friend_list'):
        n = [ref() for _ in range(rng.randint(0, 3))]
        if miss and rng.random() < .2:
            return par(arg, 'list', ref(), names=[names[0]], ok=False)
        return par(arg, 'list', n, names=n)
    if arg == 'obj_dict':
        n = list(dict.fromkeys(ref() for _ in range(rng.randint(0, 3))))
        return par(arg, 'dict', n, names=n)
    if arg in ('mate', 'b') and rng.random() < .7:
        n = ref()
        return par(arg, 'ref', n, names=[n])
    k = rng.randint(1, 3 if not miss else 5)
    if arg == 'arr':
        return par(arg, 'data', f'd{k}', v=f'data{k}:{(2, k)}', ok=k <= 3)
    if arg == 'recmat':
        return par(arg, 'obj', f'r{k}', v=f'mat{10 + k}:r{k}', ok=k <= 3)
    if arg == 'mat_list':
        ks = [rng.randint(1, 3) for _ in range(rng.randint(0, 3))]
        return par(arg, 'listobj', [f'r{j}' for j in ks], v=';'.join(f'mat{10 + j}:r{j}' for j in ks))
    if arg == 'mat_dict':
        ks = [rng.randint(1, 3) for _ in range(rng.randint(0, 3))]
        return par(arg, 'dictobj', {f'k{i}': f'r{j}' for i, j in enumerate(ks)},
                   v=';'.join(f'k{i}=mat{10 + j}:r{j}' for i, j in enumerate(ks)))
    v = rng.choice([None, 0, 1, -3, 2.5, 'txt', 'main', [1, 2], {'q': [1]}, True, '', [], 'x_ref'])
    return par(arg, 'val', v, v=js(v))


def check(ctx):
    core.specula_init()
    rng = ctx.rng
    graphs = ctx.model_check('MCBuild')
    ctx.require(len(graphs) == 4096, 'reference graphs')
    root = tempfile.mkdtemp(prefix='c07-')
    traces = []
    try:
        files(root)
        main = {'class': 'SimulParams', 'total_time': 0.002, 'time_step': 0.001, 'add_modules': ['probes']}
        simple = dict(name='main', cls='SimulParams', known=True, uid=0, pars=[])
        for k, g in enumerate(graphs):
            legalish = not any('z' in r for r in g)
            if not ctx.thorough and rng.random() > (.4 if legalish else .08):
                continue
            nm = dict(zip('abcz', rng.sample(['a', 'dm', 'obj_1', 'X', 'rec2', 'nothere'], 4)))
            blocks = []
            for j in range(3):
                n = [nm[x] for x in g[j]]
                rng.shuffle(n)
                cls = rng.choice(['BuildProc', 'BuildProc', 'BuildData'])
                form = rng.choice(['list', 'dict', 'ref'])
                if cls == 'BuildData':
                    form = 'list' if form == 'dict' else form
                if form == 'ref' and len(n) != 1:
                    form = 'list'
                arg = dict(list='layer_list' if cls == 'BuildProc' else 'friend_list', dict='obj_dict', ref='mate')[form]
                pars = [par('uid', 'val', None)]
                pars = [] + ([par(arg, form, n[0] if form == 'ref' else n, names=n)])
                blocks.append(dict(name=nm['abc'[j]], cls=cls, known=True, uid=j + 1, pars=pars))
            blocks.append(simple)
            rng.shuffle(blocks)
            traces.append(run(f'e{k}', main, blocks, root))
        for k in range(ctx.n(700, 12000)):
            n = rng.randint(1, 7)
            names = rng.sample(['a', 'dm', 'obj_1', 'X', 'rec2', 'on_axis_source', 'm2', 'zz', 'layer_list', 'uid'], n)
            hid = list(range(n))
            rng.shuffle(hid)
            wrong = rng.random() < .3
            bad = rng.choice(['ref', 'param', 'nocls', 'badcls', 'cycle', 'file']) if wrong else ''
            target = rng.randrange(n)
            blocks = []
            for j in range(n):
                before = [names[x] for x in range(n) if hid[x] < hid[j]] + ['main']
                if rng.random() < .12 and not (wrong and j == target):
                    r = rng.randint(1, 3)
                    blocks.append(dict(name=names[j], cls='Recmat', known=True, uid=100 + j, pars=[], tag=f'r{r}', v=f'mat{10 + r}'))
                    continue
                cls = rng.choice(['BuildProc', 'BuildProc', 'BuildData', 'BuildSub'])
                args = [a for a in ARGS[cls] if a != 'uid']
                mine = bad if j == target else ''
                pool = names + ['main'] if mine == 'cycle' else before
                pars = [rnd_par(rng, a, pool, mine in ('ref', 'file')) for a in rng.sample(args, rng.randint(0, len(args)))]
                if mine == 'param':
                    extra = rng.choice(['nosuch', 'A', 'b' if cls != 'BuildProc' else 'other', 'layer'])
                    form = rng.choice(['val', 'ref', 'data'])
                    pars.insert(rng.randint(0, len(pars)), par(extra, form, 'main' if form == 'ref' else 'd1', names=['main'] if form == 'ref' else []))
                known = 'nocls' if mine == 'nocls' else (False if mine == 'badcls' else True)
                blocks.append(dict(name=names[j], cls=cls, known=known, uid=j + 1, pars=pars))
            blocks.insert(rng.randint(0, len(blocks)), simple)
            traces.append(run(f'r{k}', main, blocks, root))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    nref = sum(t['ev'][-1]['res'] != 'ok' for t in traces)
    ctx.notes['refused'] = nref
    ctx.need(20 < nref < .8 * len(traces), 'refusals')
    ctx.validate('BuildTrace', traces)
