"""C03: readiness.  TLC-enumerated call sequences on library objects, and whole runs."""
import core, flow
from probes import rec

OVERRIDE = {'ElectricFieldCombinator', 'ElectricFieldReflection', 'DataPrint'}


def us(t):
    return int(t) // 1000 if t is not None and t >= 0 else -1


def view(obj):
    """readiness inputs as the specification sees them"""
    out = []
    for nm, i in obj.inputs.items():
        vals = []
        for item in i.input_values:
            vals.append(us(item.output_ref.generation_time))
        out.append(dict(opt=bool(i.optional), single=hasattr(i, 'set') and type(i).__name__ == 'InputValue', vals=vals))
    return out


def outs(obj):
    from specula.base_data_obj import BaseDataObj
    r = []
    for nm, o in sorted(obj.outputs.items()):
        for x in (o if isinstance(o, list) else [o]):
            if isinstance(x, BaseDataObj):
                r.append(rec.stamp(x))
    return r


def drive(tid, name, obj, src, ops, dt=1000000):
    """Replay a sequence of operations; every operation is one event."""
    from probes import typed_src
    flat = [s for l in src.values() for s in l]
    t = 0
    k = 0
    ev = []
    init = outs(obj)
    for op in ops:
        e = None
        if op == 'adv':
            t += dt
            continue
        if op[:5] == 'fresh':
            j = int(op[5:] or 0)
            if flat:
                s = flat[j % len(flat)]
                k += 1
                v = s.get_value()
                import numpy as np
                new = typed_src.content(j + 1, k, np.shape(v))
                v[...] = new
                s.generation_time = t
            continue
        with core.quiet():
            try:
                if op == 'check':
                    obj.check_ready(t)
                elif op == 'trigger':
                    obj.trigger()
                elif op == 'post':
                    obj.post_trigger()
                res = 'ok'
            except RuntimeError:
                res = 'refused'
            except Exception as ex:
                res = f'{type(ex).__name__}: {ex}'[:80]
        ev.append(dict(k=op, t=us(t), res=res, ready=bool(obj.inputs_changed), inputs=view(obj), outs=outs(obj)))
    return dict(id=tid, init=init, ev=ev, key='class:' + name, replay=dict(object=name, ops=ops))


def run_trace(tid, g, log, o):
    """events of object o in a whole run"""
    ev, cur, times = [], None, {}
    init = [e['outs'] for e in log if e['k'] == 'setup' and e['o'] == o][0]
    rel = [e for e in log if e['o'] == o]
    out = init
    k = 0
    while k < len(rel):
        e = rel[k]
        if e['k'] == 'checked':
            inputs = [dict(opt=bool(opt), single=kind == 'v', vals=[x[1] for x in rd])
                      for (nm, kind, opt, refs), rd in zip(g.inputs[o], e['reads'])]
            ev.append(dict(k='check', t=us(e['t']), res='ok', ready=e['ready'], inputs=inputs, outs=e['outs']))
            nxt = [x['k'] for x in rel[k + 1:k + 12]]
            upto = nxt.index('check') if 'check' in nxt else len(nxt)
            ran = 'trigger' in nxt[:upto] and 'post' in nxt[:upto]
            part = 'trigger' in nxt[:upto] or 'post' in nxt[:upto]
            posts = [x for x in rel[k + 1:k + 1 + upto] if x['k'] == 'post']
            out = posts[-1]['outs'] if posts else e['outs']
            ev.append(dict(k='ran', t=us(e['t']), res='ok', ready=e['ready'], inputs=inputs, outs=out,
                           ran=ran if ran == part else (not e['ready'])))
        k += 1
    return dict(id=tid, init=init, ev=ev)


def check(ctx):
    core.specula_init()
    import libobjs
    from probes import typed_src
    rng = ctx.rng
    seqs = [b['ops'] for b in ctx.model_check('MCGate', cfg='MCGate' if not ctx.thorough else 'MCGateT')]
    ctx.require(len(seqs) > 300, 'operation sequences')
    ctx.notes['operation_sequences'] = len(seqs)
    F = libobjs.factories()
    traces = []
    n = 0
    for name in sorted(F):
        sel = rng.sample(seqs, min(len(seqs), ctx.n(80, 1200)))
        for ops in sel:
            obj, src = F[name]()
            with core.quiet():
                for l in src.values():
                    for s in l:
                        s.generation_time = -1
                obj.setup()
            tr = drive(f'{name}-{n}', name, obj, src, ops)
            n += 1
            if tr['ev']:
                traces.append(tr)
    # probe objects with every combination of optional/single/list/connected inputs
    from probes.flow_probe import FlowProbe
    combos = [[(a, b, c) for a, b, c in combo] for combo in
              [[x] for x in KINDS] + [[x, y] for x in KINDS for y in KINDS]]
    for k in range(ctx.n(600, 6000)):
        combo = combos[k % len(combos)]
        obj = FlowProbe(uid=7, ins=[[f'i{j}', kind, opt] for j, (kind, opt, m) in enumerate(combo)],
                        style=rng.randrange(5))
        src = {}
        for j, (kind, opt, m) in enumerate(combo):
            src[f'i{j}'] = [typed_src.make('value', 2) for _ in range(m)]
            for s in src[f'i{j}']:
                obj.inputs[f'i{j}'].append(s)
        rec.reset()
        with core.quiet():
            obj.setup()
        traces.append(drive(f'probe-{k}', 'FlowProbe', obj, src, rng.choice(seqs)))
    ctx.validate('GateTrace', [t for t in traces if t['ev']], chunk=8000)
    runs = []
    for k in range(ctx.n(150, 2000)):
        steps = rng.randint(3, 6)
        g = flow.rand_graph(rng, nmax=6, steps=steps, optional=True)
        err, s = flow.run_params(g.params(total=steps * 0.001))
        if err is not None:
            continue
        log = list(rec.LOG)
        for o in range(1, g.n + 1):
            t = run_trace(f'run{k}-{o}', g, log, o)
            t['replay'] = g.params(total=steps * 0.001)
            runs.append(t)
    ctx.need(len(runs) > 100, 'whole runs')
    ctx.validate('GateTrace', runs, chunk=8000)


# (kind, optional, number of connected values)
KINDS = [('v', 0, 1), ('v', 1, 1), ('v', 1, 0), ('l', 0, 1), ('l', 0, 2), ('l', 1, 2), ('l', 1, 0), ('l', 0, 3)]
