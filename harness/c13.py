"""C13: delay lines of all filter types."""
import random
import numpy as np
import core, c14
from core import vec

DT = c14.DT


def exact(tid, rng, single):
    _, (b, d4, s, n, rep) = c14.pair(tid, rng, single)
    return dict(id=tid, d4=d4, n=n, ev=b, replay=rep)


def tokens(tid, rng):
    """Filters with arbitrary real coefficients and data: whole delays, exact comparison."""
    from libobjs import sp
    from specula.base_value import BaseValue
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.processing_objects.low_pass_filter import LowPassFilter
    from specula.processing_objects.multirate_complementary_filter import MultirateComplementaryFilter
    from specula.processing_objects.iir_filter import IirFilter
    seed = rng.randrange(2**31)
    r = random.Random(seed)
    nr = np.random.default_rng(seed)
    n = r.randint(1, 4)
    d = r.randint(0, 6)
    delay = r.choice([d, float(d)]) if d else r.choice([0, None, 0.0])
    kind = r.choice(['lpf1', 'lpf2', 'lpfa', 'lpf', 'multi', 'iir'])
    par = sp(dt=DT * 1e-9)
    tok = {}

    def token(x):
        a = np.asarray(x)
        if not a.any():
            return [0]
        k = (a.shape, a.tobytes(), a.dtype.str)
        return [tok.setdefault(k, len(tok) + 1)]
    ins = {'delta_comm': [BaseValue(value=np.zeros(n))]}
    try:
      with core.quiet():
        if kind == 'lpf1':
            o = LowPassFilter(par, [r.uniform(1, 400) for _ in range(n)], n_ord=1, delay=delay)
        elif kind == 'lpf2':
            o = LowPassFilter(par, [r.uniform(1, 400) for _ in range(n)], n_ord=2, delay=delay)
        elif kind == 'lpf':
            o = LowPassFilter(par, [r.uniform(1, 400) for _ in range(n)], delay=delay)
        elif kind == 'lpfa':
            o = LowPassFilter(par, [r.uniform(1, 400) for _ in range(n)], amplif_fact=r.uniform(.5, 2), delay=delay)
        elif kind == 'iir':
            o = IirFilter(par, IirFilterData([2] * n, [2] * n, nr.normal(size=(n, 2)), np.array([[-.9, 1.0]] * n)), delay=delay)
        else:
            N = [r.randint(1, 3) for _ in range(r.randint(1, 2))]
            o = MultirateComplementaryFilter(par, IirFilterData.from_gain_and_ff([.3] * n), 0.2, [.5] + [.5] * len(N), N, delay=delay)
            ins = {'in_yf': [BaseValue(value=np.zeros(n))], 'in_ys': [BaseValue(value=np.zeros(n)) for _ in N]}
    except Exception as x:
        return dict(id=tid, d4=4 * d, n=1, ev=[dict(k='err', msg=f'{type(x).__name__}: {x}'[:150])], replay=dict(kind=kind, seed=seed))
    for k, v in ins.items():
        o.inputs[k].set(v if k == 'in_ys' else v[0])
    ev, frame = [], 0
    look = lambda: ev.append(dict(k='look', nd=token(o.out_comm_no_delay.value), out=token(o.out_comm.value)))
    steps = r.randint(3, 14)
    t = 0
    try:
        with core.quiet():
            o.setup()
            for j in range(steps):
                t = j * DT
                reset = kind != 'multi' and r.random() < .12
                if reset:
                    o.reset_states()
                    look()
                run = j == 0 or r.random() < .8
                if run:
                    frame += 1
                    for k, vs in ins.items():
                        for q, v in enumerate(vs):
                            if k != 'in_ys' or frame % N[q] == 0:
                                v.value = nr.normal(size=n)
                                v.generation_time = t
                ready = o.check_ready(t)
                look()
                if ready:
                    o.trigger()
                    o.post_trigger()
                if run:
                    ev.append(dict(k='run', nd=token(o.out_comm_no_delay.value), out=token(o.out_comm.value), reset=reset, now=t,
                                   t=int(o.out_comm.generation_time), tn=int(o.out_comm_no_delay.generation_time)))
                else:
                    look()
                    if reset:      # acts on the next frame
                        ev.append(dict(k='clear'))
    except Exception as x:
        ev.append(dict(k='err', msg=f'{type(x).__name__}: {x}'[:150]))
    return dict(id=tid, d4=4 * d, n=1, ev=ev, replay=dict(kind=kind, seed=seed))


def gen(seed, count, prefix, single=False):
    rng = random.Random(seed)
    return [tokens(f'{prefix}t{k}', rng) if k % 3 == 0 else exact(f'{prefix}{k}', rng, single) for k in range(count)]


def gens(seed, count, prefix):
    return gen(seed, count, prefix, True)


def check(ctx):
    ctx.model_check('MCFilter')
    traces = core.spread(ctx, 'c13', 'gen', ctx.n(2500, 40000), prefix='d')
    traces += core.spread(ctx, 'c13', 'gens', ctx.n(400, 6000), parts=2, precision=1, prefix='s')
    ctx.need(sum(t['d4'] % 4 > 0 for t in traces) > 100, 'fractional delays')
    ctx.validate('DelayTrace', traces)
    ctx.assumptions.append('fractional delays are multiples of a quarter frame (exact arithmetic)')
