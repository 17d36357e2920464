"""C01: trigger order.  Every 3-object graph (enumerated by TLC) plus random larger ones."""
import core, flow
from probes import rec


def order_of(params, names):
    from specula.simul import Simul
    s = Simul('none.yml')
    with core.quiet():
        try:
            order, grp = s.build_trigger_order(params)
        except ValueError:
            return dict(res='refused', order=[], grp=[])
        except Exception as e:
            return dict(res='error ' + type(e).__name__, order=[], grp=[])
    return dict(res='ok', order=[names.get(x, 0) for x in order], grp=[int(x) for x in grp])


def syntactic(g, rng):
    """Parameter dict in one of the accepted notations."""
    p = g.params(total=0.001)
    del p['main']
    for o in range(1, g.n + 1):
        b = p[g.name(o)]
        if 'inputs' in b and rng.random() < 0.15:
            # DataStore-like input_list with aliases
            refs = []
            for k, v in enumerate(b['inputs'].values()):
                for r in (v if isinstance(v, list) else [v]):
                    refs.append(f'al{k}-{r}')
            b['inputs'] = {'input_list': refs}
        elif 'inputs' in b:
            for k, v in list(b['inputs'].items()):
                vv = v if isinstance(v, list) else [v]
                vv = [x.replace('.o0', '') if rng.random() < 0.2 else x for x in vv]   # data-object style reference
                b['inputs'][k] = vv if isinstance(v, list) else vv[0]
        elif rng.random() < 0.2:
            b['inputs'] = {}
        if rng.random() < 0.1:
            b.setdefault('inputs', {})['empty'] = []
    return p


def check(ctx):
    core.specula_init()
    rng = ctx.rng
    graphs = [(b['n'], [tuple(e) for e in b['imm']], [tuple(e) for e in b['del']])
              for b in ctx.model_check('MCSched')]
    ctx.require(len(graphs) == 3 ** 9, 'graph enumeration')
    ctx.notes['graphs_enumerated'] = len(graphs)
    traces = []

    def add(tid, n, imm, dl, g):
        names = {g.name(o): o for o in range(1, n + 1)}
        p = syntactic(g, rng)
        e = order_of(p, names)
        traces.append(dict(id=tid, n=n, imm=sorted(imm), ev=[e], replay=p, **{'del': sorted(dl)}))

    for k, (n, imm, dl) in enumerate(graphs):
        add(f'e{k}', n, imm, dl, flow.from_edges(n, imm, dl, rng))
    for k in range(ctx.n(3000, 40000)):
        n = rng.randint(3, 9)
        if k % 3 == 0:
            g = flow.rand_graph(rng, nmax=9, dag=False, p_imm=rng.random(), p_del=rng.random() * .6, multi=False)
            imm, dl = g.edges()
        else:
            imm, dl = set(), set()
            hid = rng.sample(range(1, n + 1), n)
            for i in range(n):
                for j in range(i):
                    r = rng.random()
                    if r < .3:
                        imm.add((hid[j], hid[i]))
                    elif r < .45:
                        dl.add((hid[i], hid[j]))
                    if rng.random() < .08:
                        imm.add((hid[j], hid[i]))
                        if rng.random() < .3:
                            dl.add((hid[j], hid[i]))
            g = flow.from_edges(n, imm, dl, rng)
        add(f'r{k}', g.n, imm, dl, g)
    # the order really executed by the loop
    for k in range(ctx.n(120, 1000)):
        g = flow.rand_graph(rng, nmax=7)
        err, s = flow.run_params(g.params(total=0.002))
        imm, dl = g.edges()
        order, grp, b, last = [], [], 0, 'checked'
        for e in rec.LOG:
            if e.get('t') == 0 and e['k'] in ('check', 'trigger', 'post'):
                if e['k'] == 'check':
                    if last != 'check':
                        b += 1
                    order.append(e['o'])
                    grp.append(b)
                last = e['k']
        res = 'ok' if err is None else 'error ' + type(err).__name__
        # groups are separated by a trigger; groups in which nothing ran merge with the next one,
        # so every probe of these graphs fires its first step
        if not fired_all(rec.LOG):
            continue
        traces.append(dict(id=f'x{k}', n=g.n, imm=sorted(imm), ev=[dict(res=res, order=order, grp=grp)],
                           replay=g.params(total=0.002), **{'del': sorted(dl)}))
    ctx.notes['refused'] = sum(t['ev'][0]['res'] == 'refused' for t in traces)
    ctx.notes['partial'] = sum(t['ev'][0]['res'] == 'ok' and len(t['ev'][0]['order']) < t['n'] for t in traces)
    ctx.validate('SchedTrace', traces, chunk=30000)
    ctx.assumptions.append('graphs of up to 9 objects; all graphs of 3 objects with at most one edge per ordered pair')


def fired_all(log):
    chk = {e['o'] for e in log if e['k'] == 'check' and e['t'] == 0}
    trg = {e['o'] for e in log if e['k'] == 'trigger' and e['t'] == 0}
    return chk == trg
