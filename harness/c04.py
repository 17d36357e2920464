"""C04: phases of the run, over random times, graphs and injected errors."""
import os, tempfile, yaml
import core, flow
from probes import rec
from fractions import Fraction


def trace(tid, g, T, dt, t0, log, err, boom, params, unit):
    n = g.n
    ev = []
    for e in log:
        k = e['k']
        if k in ('prepare', 'read'):
            continue
        x = dict(k=k, o=e['o'], t=0, ready=False)
        if 't' in e:
            x['t'] = e['t'] // unit if e['t'] % unit == 0 else core.BADINT
        if k == 'checked':
            x['ready'] = e['ready']
            if e['ready'] and e['ct'] != e['t']:
                x['t'] = core.BADINT
        if k == 'trigger' and abs(e['ts'] - e['t'] * 1e-9) > 1e-12 * max(1, abs(e['ts'])):
            x['t'] = core.BADINT
        ev.append(x)
    ev.append(dict(k='end', o=0, t=0, ready=False,
                   res='ok' if err is None else ('boom' if str(err).startswith('boom') and type(err) is RuntimeError
                                                 else f'{type(err).__name__}: {err}'[:100])))
    return dict(id=tid, n=n, T=T, dt=dt, t0=t0, boom='boom' if boom else '', ev=ev, replay=dict(params=params, T=T, dt=dt, t0=t0))


def run_t0(params, total, dt, t0):
    """A run through LoopControl with a start time (Simul itself always starts at 0)."""
    from specula.loop_control import LoopControl
    orig = LoopControl.run

    def patched(self, run_time, dt, t0=0, speed_report=False, _t0=t0):
        return orig(self, run_time, dt, _t0, speed_report)
    LoopControl.run = patched
    try:
        return flow.run_params(params)
    finally:
        LoopControl.run = orig


def check(ctx):
    core.specula_init()
    rng = ctx.rng
    ctx.model_check('MCPhase')
    traces = []
    dts = [0.001, 0.0005, 0.002, 0.00013, 0.0003, 0.00007, 0.01, 0.1, 0.0001, 0.00011, 0.0007, 0.0009, 0.00037]
    for k in range(ctx.n(700, 12000)):
        steps = rng.randint(0, 7)
        g = flow.rand_graph(rng, nmax=5, steps=steps + 1)
        unit = 10                                          # times in units of 10 ns
        if rng.random() < .6:
            dt = rng.choice(dts)
        else:
            dt = rng.randint(1, 3000) * 1e-6 * rng.choice([1, 1, 10])
        dtu = round(dt * 1e8)
        if abs(dt * 1e8 - dtu) > 1e-3:
            unit, dtu = 1, round(dt * 1e9)
        kind = rng.choice(['mult', 'mult', 'mult', 'part'])
        Tu = dtu * steps
        if kind == 'part' and steps:
            Tu -= rng.randrange(dtu)
        scale = 1e-8 if unit == 10 else 1e-9
        # floating point expressions a user would write
        total = rng.choice([dt * steps if kind == 'mult' else Tu * scale, Tu * scale,
                            sum([dt] * steps) if kind == 'mult' else Tu * scale])
        if steps and kind == 'mult' and rng.random() < .1:
            total, Tu = dt * steps, dtu * steps
        t0u = 0
        if rng.random() < .3:
            t0u = rng.choice([dtu, 3 * dtu, rng.randrange(1, 10 * dtu)])
        if Tu + t0u + dtu > 2_000_000_000:
            continue
        if rng.random() < .25 and steps:
            ph = rng.choice(['setup', 'check', 'trigger', 'post', 'finalize'])
            o = rng.randint(1, g.n)
            at = None if ph in ('setup', 'finalize') else rng.randrange(steps)
            g.kw[o]['boom'] = ph if at is None else f'{ph}@{at}'
            boom = (ph, o, at)
        p = g.params(total=float(total), dt=float(dt))
        if t0u:
            err, s = run_t0(p, total, dt, t0u * scale)
        else:
            err, s = flow.run_params(p)
        log = list(rec.LOG)
        boom = any(e['k'] == 'boom' for e in log)      # an object that does not run does not fail
        traces.append(trace(f'p{k}', g, Tu, dtu, t0u, log, err, boom, p, unit))
    ctx.notes['with_error_injection'] = sum(bool(t['boom']) for t in traces)
    ctx.need(ctx.notes['with_error_injection'] > 30, 'error injections')
    ctx.validate('PhaseTrace', traces, chunk=6000)
    ctx.assumptions.append('run and step times of at most 2e9 units of 10 ns (1 ns for steps that are not multiples of 10 ns)')
