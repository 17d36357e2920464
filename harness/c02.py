"""C02: what every input carries, in whole runs of random graphs and around library objects."""
import core, flow
from probes import rec


def steps_of(log):
    """Split the log of a run into steps, by simulated time."""
    out = {}
    for e in log:
        if 't' in e:
            out.setdefault(e['t'], []).append(e)
    return [out[t] for t in sorted(out)]


def conns(g):
    r = []
    for o in range(1, g.n + 1):
        names = [f'o{k}' for k in range(g.nout[o])]
        r.append([[dict(s=s, k=k, d=d)
                   for s, out, d in refs
                   for k in ([int(out[1:]) + 1] if out != 'lst'
                             else range(g.nout[s] + 1, g.nout[s] + g.lists[s] + 1))]
                  for _, _, _, refs in g.inputs[o]])
    return r


def flow_trace(tid, g, log, params, err):
    init = {e['o']: e['outs'] for e in log if e['k'] == 'setup'}
    ev = []
    if err is None:
        for st in steps_of(log):
            outs, before, reads = [[] for _ in range(g.n)], [[] for _ in range(g.n)], []
            for e in st:
                if e['k'] == 'post':
                    outs[e['o'] - 1] = e['outs']
                if e['k'] == 'checked':
                    before[e['o'] - 1] = e['outs']
                if e['k'] in ('checked', 'prepare', 'read') and g.inputs[e['o']]:
                    reads.append([e['o'], e['reads']])
                if e['k'] == 'post' and e['o'] in IMMONLY(g):
                    reads.append([e['o'], e['reads']])
            ev.append(dict(outs=outs, before=before, reads=reads))
    return dict(id=tid, n=g.n, init=[init.get(o, []) for o in range(1, g.n + 1)], conns=conns(g),
                res='ok' if err is None else f'{type(err).__name__}: {err}'[:120],
                ev=ev or [dict(outs=[], before=[], reads=[])], replay=params)


def IMMONLY(g):
    return {o for o in range(1, g.n + 1)
            if g.inputs[o] and all(d == 0 for _, _, _, refs in g.inputs[o] for _, _, d in refs)}


# ---------------------------------------------------------------- library producers
def lib_specs():
    """name -> (block, {input: size or 'vec'}, [vector outputs])"""
    S = {}
    for d in (0, 1, 2, 3, 0.5, 1.5):
        S[f'integ{d}'] = (dict({'class': 'Integrator', 'int_gain': [0.5] * 4, 'delay': d, 'simul_params_ref': 'main'}),
                          {'delta_comm': 4}, ['out_comm', 'out_comm_no_delay'])
    S['integ_ff'] = (dict({'class': 'Integrator', 'int_gain': [0.25] * 4, 'ff': [0.5] * 4, 'simul_params_ref': 'main',
                           'delay': 1}), {'delta_comm': 4}, ['out_comm', 'out_comm_no_delay'])
    S['lpf'] = (dict({'class': 'LowPassFilter', 'cutoff_freq': [50.0] * 4, 'n_ord': 1, 'simul_params_ref': 'main', 'delay': 2}),
                {'delta_comm': 4}, ['out_comm', 'out_comm_no_delay'])
    S['dyn'] = (dict({'class': 'DynamicIntegrator', 'int_gain': [0.5], 'n_modes': [4], 'delay': 1,
                      'simul_params_ref': 'main'}), {'delta_comm': 4}, ['out_comm', 'out_comm_no_delay'])
    S['slice'] = (dict({'class': 'BaseSlicer', 'slice_args': [1, 3]}), {'in_value': 4}, ['out_value'])
    S['slice2'] = (dict({'class': 'BaseSlicer', 'slice_args': [0, 4, 2]}), {'in_value': 4}, ['out_value'])
    S['index'] = (dict({'class': 'BaseSlicer', 'indices': [2, 0]}), {'in_value': 4}, ['out_value'])
    S['whole'] = (dict({'class': 'BaseSlicer'}), {'in_value': 4}, ['out_value'])
    S['insert'] = (dict({'class': 'BaseInserter', 'output_size': 6, 'slice_args': [[0, 2], [3, 5]]}), {'in_value': 4},
                   ['out_value'])
    for k, v in dict(constant_mul=2.0, constant_sum=1.0, constant_max=3.0, constant_min=200.0, constant_sub=1.0,
                     constant_div=2.0).items():
        S[k] = (dict({'class': 'BaseOperation', k: v}), {'in_value1': 4}, ['out_value'])
    for k in ('mul', 'sum', 'sub', 'div', 'concat'):
        S['op' + k] = (dict({'class': 'BaseOperation', k: True}), {'in_value1': 4, 'in_value2': 4}, ['out_value'])
    S['short'] = (dict({'class': 'BaseOperation', 'sum': True, 'value2_is_shorter': True}),
                  {'in_value1': 4, 'in_value2': 2}, ['out_value'])
    S['wave'] = (dict({'class': 'WaveGenerator', 'wave_type': 'SIN', 'amp': 3.0, 'freq': 60.0, 'slope': 100.0, 'output_size': 1}),
                 {}, ['output'])
    S['random'] = (dict({'class': 'RandomGenerator', 'seed': 3, 'output_size': 4}), {}, ['output'])
    S['runi'] = (dict({'class': 'RandomGenerator', 'seed': 3, 'output_size': 4, 'distribution': 'UNIFORM'}), {}, ['output'])
    S['sched'] = (dict({'class': 'ScheduleGenerator', 'scheduled_values': [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]],
                        'scheduled_times': [0.002, 0.004], 'modes_per_group': [1, 1]}), {}, ['output'])
    S['pp'] = (dict({'class': 'PushPullGenerator', 'nmodes': 2, 'amp': 1.0, 'push_pull_type': 'PUSHPULL'}) if False else
               dict({'class': 'PushPullGenerator', 'nmodes': 2, 'amp': 1.0, 'ncycles': 8}), {}, ['output'])
    S['thg'] = (dict({'class': 'TimeHistoryGenerator', 'time_hist_data': None}), {}, ['output'])
    S['vib'] = (dict({'class': 'VibrationGenerator', 'nmodes': 2, 'psd': [[1.0] * 5] * 2, 'freq': [1., 2., 3., 4., 5.],
                      'simul_params_ref': 'main'}), {}, ['output'])
    S['win'] = (dict({'class': 'WindowedIntegration', 'n_elem': 4, 'dt': 0.002, 'simul_params_ref': 'main'}), {'input': 4},
                ['output'])
    S['win1'] = (dict({'class': 'WindowedIntegration', 'n_elem': 4, 'dt': 0.002, 'simul_params_ref': 'main',
                       'update_time_on_dt': True}), {'input': 4}, ['output'])
    S['comb'] = (dict({'class': 'MirrorCommandsCombinator', 'dims_LO': [1, 1, 1], 'dims_HO': [1, 1, 1]}), {}, [])
    S['demod'] = (dict({'class': 'Demodulator', 'mode_numbers': [0, 1], 'carrier_frequencies': [250.0, 250.0],
                        'demod_dt': 0.004, 'simul_params_ref': 'main'}), {'in_data': 4}, ['output'])
    for k in ('comb', 'thg'):
        S.pop(k)
    return S


class LibRun:
    """src probes -> library objects (possibly chained) -> immediate reader probe + delayed reader probes."""
    def __init__(self, rng, names, chain, steps):
        S = lib_specs()
        self.blocks = {}
        self.libs = names
        self.nodes = ['src']
        n_src = 2
        uid = 1
        for k in range(n_src):
            fire = [[1] if rng.random() < .75 else [0] for _ in range(steps)]
            self.blocks[f'src{k}'] = {'class': 'FlowProbe', 'uid': uid, 'ins': [], 'size': 4, 'fire': fire,
                                      'style': rng.randrange(5), 'outputs': ['o0']}
            uid += 1
        self.blocks['src2'] = {'class': 'FlowProbe', 'uid': uid, 'ins': [], 'size': 2, 'style': rng.randrange(5),
                               'outputs': ['o0']}
        uid += 1
        vec4 = ['src0.o0', 'src1.o0']
        self.outs = []
        for k, nm in enumerate(names):
            blk, ins, outs = S[nm]
            b = dict(blk)
            nn = f'lib{k}{nm}'.replace('.', 'p').replace('_', '')
            if ins:
                b['inputs'] = {}
                for i, size in ins.items():
                    r = rng.choice(vec4) if size == 4 else 'src2.o0'
                    b['inputs'][i] = r
            b['outputs'] = outs
            self.blocks[nn] = b
            for o in outs:
                self.outs.append((nn, o))
            if chain and ('delta_comm' in ins or nm.startswith(('op', 'const', 'whole', 'win')) and nm != 'opconcat'):
                vec4 += [f'{nn}.{o}' for o in outs]
        self.outs += [('src0', 'o0'), ('src1', 'o0')]
        # immediate reader of everything, in a late group
        ins = [[f'i{k}', 'v', 0] for k in range(len(self.outs))]
        self.blocks['imm'] = {'class': 'FlowProbe', 'uid': 50, 'ins': ins, 'anytype': True, 'outputs': ['o0'],
                              'inputs': {f'i{k}': f'{a}.{o}' for k, (a, o) in enumerate(self.outs)}}
        # delayed readers: one per library object plus one for all; optionally fed immediately by a source too
        self.delayed = {}
        for k in range(rng.randint(2, 4)):
            sel = self.outs if k == 0 else rng.sample(self.outs, min(3, len(self.outs)))
            kind = rng.choice('vl')
            if kind == 'v':
                ins = [[f'i{j}', 'v', 0] for j in range(len(sel))]
                conn = {f'i{j}': f'{a}.{o}:-1' for j, (a, o) in enumerate(sel)}
            else:
                ins = [['il', 'l', 0]]
                conn = {'il': [f'{a}.{o}:-1' for a, o in sel]}
            extra = rng.choice([None, 'pace', 'pace'])
            if extra:
                ins.append(['im', 'v', 0])
                conn['im'] = 'pace.o0'
            u = 60 + k
            self.delayed[u] = (sel, kind, extra)
            self.blocks[f'dly{k}'] = {'class': 'FlowProbe', 'uid': u, 'ins': ins, 'anytype': True, 'inputs': conn,
                                      'outputs': ['o0']}
        self.blocks['pace'] = {'class': 'FlowProbe', 'uid': 49, 'ins': [], 'outputs': ['o0']}
        items = list(self.blocks.items())
        rng.shuffle(items)
        self.params = {'main': {'class': 'SimulParams', 'root_dir': '.', 'total_time': steps * 0.001, 'time_step': 0.001,
                                'add_modules': ['probes']}, **dict(items)}

    def trace(self, tid):
        err, s = flow.run_params(self.params)
        log = list(rec.LOG)
        # object 1 stands for all observed outputs; 2.. are the delayed readers, and the immediate one
        uids = [50] + list(self.delayed)
        idx = {a: k + 1 for k, a in enumerate(self.outs)}
        cn = [[[dict(s=1, k=idx[a], d=0)] for a in self.outs]]
        for u, (sel, kind, extra) in self.delayed.items():
            refs = [dict(s=1, k=idx[a], d=-1) for a in sel]
            cn.append([[r] for r in refs] if kind == 'v' else [refs])
        ev = []
        init = None
        ok = err is None
        if ok:
            setup = [e for e in log if e['k'] == 'setup' and e['o'] == 50]
            init = [r[0] for r in setup[0]['reads']]
            for st in steps_of(log):
                e50 = [e for e in st if e['o'] == 50]
                final = [e for e in e50 if e['k'] == 'post'] or [e for e in e50 if e['k'] == 'checked']
                outs = [r[0] for r in final[-1]['reads']]
                reads = []
                for e in st:
                    if e['k'] in ('checked', 'prepare', 'read') and e['o'] in uids:
                        rd = e['reads']
                        if e['o'] != 50 and self.delayed[e['o']][2]:
                            rd = rd[:-1]
                        reads.append([uids.index(e['o']) + 2, rd])
                ev.append(dict(outs=[outs] + [[]] * len(uids), before=[[]] * (1 + len(uids)), reads=reads))
        return dict(id=tid, n=1 + len(uids), init=[init or []] + [[]] * len(uids), conns=[[]] + cn,
                    res='ok' if ok else f'{type(err).__name__}: {err}'[:120],
                    ev=ev or [dict(outs=[], before=[], reads=[])], replay=self.params)


def check(ctx):
    core.specula_init()
    rng = ctx.rng
    ctx.model_check('MCFlow')
    traces = []
    for k in range(ctx.n(600, 4000)):
        steps = rng.randint(3, 6)
        g = flow.rand_graph(rng, nmax=7, steps=steps)
        p = g.params(total=steps * 0.001)
        err, s = flow.run_params(p)
        traces.append(flow_trace(f'g{k}', g, list(rec.LOG), p, err))
    ctx.notes['random_graphs'] = len(traces)
    names = sorted(lib_specs())
    used = set()
    for k in range(ctx.n(500, 3000)):
        sel = [names[(3 * k) % len(names)]] + rng.sample(names, rng.randint(1, 4))
        used.update(sel)
        r = LibRun(rng, sel, chain=rng.random() < .6, steps=rng.randint(4, 9))
        traces.append(r.trace(f'l{k}'))
    ctx.notes['library_objects'] = sorted(used)
    ctx.validate('FlowTrace', traces)
    ctx.assumptions.append('delayed inputs are judged when they are read up to and including the trigger phase')
