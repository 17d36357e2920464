"""Random connection graphs of probe objects, run through Simul, with a full log."""
import os, random, sys, tempfile, yaml
import core
from probes import rec


def objname(i, style):
    return [f'obj{i}', f'a{i}b', f'x_y{i}z', f'Ob{i}J'][style % 4]


class Graph:
    """Objects 1..n in listing order; inputs[o] = list of (name, kind 'v'|'l', optional, [(src, out, delay)...])."""
    def __init__(self, n):
        self.n = n
        self.inputs = {o: [] for o in range(1, n + 1)}
        self.nout = {o: 1 for o in range(1, n + 1)}
        self.lists = {o: 0 for o in range(1, n + 1)}
        self.fire = {o: None for o in range(1, n + 1)}
        self.style = {o: 0 for o in range(1, n + 1)}
        self.names = 0
        self.kw = {o: {} for o in range(1, n + 1)}
        self.rank = {}

    def edges(self):
        imm, dl = set(), set()
        for o, ins in self.inputs.items():
            for (_, _, _, refs) in ins:
                for (s, _, d) in refs:
                    (dl if d else imm).add((s, o))
        return imm, dl

    def name(self, o):
        return objname(o, self.names)

    def ref(self, s, out, d):
        return f'{self.name(s)}.{out}' + (f':{d}' if d else '')

    def params(self, total=None, dt=0.001, extra_main=None):
        main = {'class': 'SimulParams', 'root_dir': '.', 'total_time': total, 'time_step': dt,
                'add_modules': ['probes']}
        main.update(extra_main or {})
        p = {'main': main}
        for o in range(1, self.n + 1):
            b = {'class': 'FlowProbe', 'uid': o, 'n_out': self.nout[o],
                 'ins': [[nm, kind, int(opt)] for nm, kind, opt, _ in self.inputs[o]],
                 'style': self.style[o]}
            b.update(self.kw[o])
            if self.lists[o]:
                b['lists'] = self.lists[o]
            if self.fire[o] is not None:
                b['fire'] = self.fire[o]
            if o in self.rank:
                b['target_rank'] = self.rank[o]
            ins = {}
            for nm, kind, opt, refs in self.inputs[o]:
                if kind == 'v':
                    if refs:
                        ins[nm] = self.ref(*refs[0])
                else:
                    ins[nm] = [self.ref(*r) for r in refs]
            if ins:
                b['inputs'] = ins
            b['outputs'] = [f'o{k}' for k in range(self.nout[o])] + (['lst'] if self.lists[o] else [])
            p[self.name(o)] = b
        return p


def from_edges(n, imm, dl, rng):
    g = Graph(n)
    g.names = rng.randrange(4)
    for o in range(1, n + 1):
        es = [(p, 0) for (p, c) in imm if c == o] + [(p, -1) for (p, c) in dl if c == o]
        rng.shuffle(es)
        k = 0
        while es:
            if rng.random() < 0.5:
                s, d = es.pop()
                g.inputs[o].append((f'in{k}', 'v', 0, [(s, 'o0', d)]))
            else:
                m = rng.randint(1, len(es))
                g.inputs[o].append((f'in{k}', 'l', 0, [(s, 'o0', d) for s, d in es[:m]]))
                es = es[m:]
            k += 1
    return g


def rand_graph(rng, nmax=7, dag=True, p_imm=0.45, p_del=0.3, steps=6, multi=True, optional=True, order=None):
    """A random graph which (dag) has a schedule: immediate edges follow a hidden order, delayed edges go against it."""
    n = rng.randint(2, nmax)
    hid = list(range(1, n + 1))
    rng.shuffle(hid)
    pos = {o: k for k, o in enumerate(hid)}
    g = Graph(n)
    g.names = rng.randrange(4)
    for o in range(1, n + 1):
        if multi:
            g.nout[o] = rng.choice([1, 1, 2])
            if rng.random() < 0.15:
                g.lists[o] = rng.randint(1, 3)
        g.style[o] = rng.randrange(5)
        ntot = g.nout[o] + g.lists[o]
        if rng.random() < 0.6:
            g.fire[o] = [[rng.choice([0, 1]) for _ in range(ntot)] for _ in range(steps)]
    for c in range(1, n + 1):
        refs = []
        for p in range(1, n + 1):
            def outs(k):
                allo = [f'o{j}' for j in range(g.nout[p])]
                return rng.choice(allo)
            if pos[p] < pos[c] and rng.random() < p_imm:
                refs.append((p, outs(0), 0))
                if rng.random() < 0.2:
                    refs.append((p, outs(0), 0))
            if pos[p] > pos[c] and rng.random() < p_del:
                refs.append((p, outs(0), -1))
            if not dag and rng.random() < 0.1:
                refs.append((p, 'o0', rng.choice([0, -1])))
        rng.shuffle(refs)
        k = 0
        while refs:
            opt = optional and rng.random() < 0.3
            if rng.random() < 0.5:
                g.inputs[c].append((f'in{k}', 'v', opt, [refs.pop()]))
            else:
                m = rng.randint(1, len(refs))
                g.inputs[c].append((f'in{k}', 'l', opt, refs[:m]))
                refs = refs[m:]
            k += 1
        if optional and rng.random() < 0.2:
            g.inputs[c].append((f'opt{k}', 'v', True, []))
        # list-valued outputs feed list inputs
        for p in range(1, n + 1):
            if g.lists[p] and pos[p] < pos[c] and rng.random() < 0.5:
                g.inputs[c].append((f'il{p}', 'l', False, [(p, 'lst', 0)]))
    return g


def run_params(params, files=None, setup=None, overrides=None, simul_idx=0):
    """Run Simul on the given parameter dict(s); returns (error or None, simul)."""
    from specula.simul import Simul
    d = tempfile.mkdtemp(prefix='flow-')
    try:
        paths = []
        for k, p in enumerate([params] + list(files or [])):
            f = os.path.join(d, f'p{k}.yml')
            with open(f, 'w') as fh:
                yaml.safe_dump(p, fh, sort_keys=False)
            paths.append(f)
        rec.reset()
        s = None
        with core.quiet():
            try:
                s = Simul(*paths, speed_report=False, overrides=overrides, simul_idx=simul_idx)
                s.run()
                err = None
            except Exception as e:      # the verdict on it belongs to the specification
                err = e
        return err, s
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
