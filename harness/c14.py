"""C14 (and most of C13): filters driven frame by frame through random histories."""
import random
from fractions import Fraction as F
import numpy as np
import core
from core import vec

DT = 1000000
STRINGS = {1: '0.25', 2: '0.5', 4: '1.0', 8: '2', 0: '0'}


def pick_channel(rng, lead=None):
    nn, nd = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2, 3])
    num = [rng.choice([-8, -4, -2, 0, 2, 4, 6, 8]) for _ in range(nn)]
    num[-1] = lead if lead is not None else rng.choice([1, 2, 4, 8, -4, 0])
    if num[-1] in (1, 2) or num[-1] == 0:
        pass
    den = [rng.choice([-4, -4, -2, 0, 2, 3, 4, -1]) for _ in range(nd)]
    den[-1] = rng.choice([4, 4, 4, 4, 2, 8])
    return num, den


def rows(rng, chans, which):
    """Coefficient rows of equal width, padded before or after; and orders."""
    rs = [list(c[which]) for c in chans]
    w = max(len(r) for r in rs) + rng.choice([0, 0, 1])
    out, ords = [], []
    for r in rs:
        pad = [0] * (w - len(r))
        ords.append(len(r))
        out.append(pad + r if rng.random() < .5 or r[-1] == 0 else r + pad)
    return out, ords


class Setting:
    pass


def build(rng, kind, d4):
    """(filter object, description for the specification)."""
    from libobjs import sp
    from specula.data_objects.iir_filter_data import IirFilterData
    from specula.data_objects.ssr_filter_data import SsrFilterData
    from specula.processing_objects.iir_filter import IirFilter
    from specula.processing_objects.dynamic_iir_filter import DynamicIirFilter
    from specula.processing_objects.integrator import Integrator
    from specula.processing_objects.dynamic_integrator import DynamicIntegrator
    from specula.processing_objects.ssr_filter import SsrFilter
    par = sp(dt=DT * 1e-9)
    delay = d4 / 4 if d4 % 4 else d4 // 4
    d = dict(kind='iir', integ=True, new=True, num=[], den=[], ordnum=[], ordden=[], blocks=[], modes=[])
    q = lambda r: [x / 4 for x in r]
    if kind in ('iir', 'dyniir'):
        k = rng.randint(1, 3)
        ch = [pick_channel(rng, None if kind == 'iir' else rng.choice([4, 4, 2, 8, -4, 0])) for _ in range(k)]
        if kind == 'dyniir':     # the shape of the numerator must be a multiple of 1/4 of its leading term
            ch = [([rng.choice([-2, -1, 0, 1, 2]) * (n[-1] or 4) for _ in n[:-1]] + n[-1:], x) for n, x in ch]
        d['num'], d['ordnum'] = rows(rng, ch, 0)
        d['den'], d['ordden'] = rows(rng, ch, 1)
        nm = rng.choice([None, 'list', 'int'])
        modes = [1] * k if nm is None else [rng.randint(1, 3) for _ in range(k)]
        if nm == 'int' and k > 1:
            nm = 'list'
        d['modes'] = modes
        data = IirFilterData(d['ordnum'], d['ordden'], np.array([q(r) for r in d['num']]), np.array([q(r) for r in d['den']]),
                             n_modes=None if nm is None else modes[0] if nm == 'int' else modes)
        d['integ'] = rng.random() < .8
        obj = (IirFilter if kind == 'iir' else DynamicIirFilter)(par, data, delay=delay, integration=d['integ'])
    elif kind in ('int', 'dynint'):
        k = rng.randint(1, 3)
        g = [rng.choice([1, 2, 3, 4, 6, 8]) if kind == 'int' else rng.choice([1, 2, 4, 8, 0]) for _ in range(k)]
        ff = [rng.choice([4, 2, 3, 1]) for _ in range(k)] if rng.random() < .6 else None
        nm = rng.choice([None, 'list', 'int'])
        modes = [1] * k if nm is None else [rng.randint(1, 3) for _ in range(k)]
        one = nm is None and ff is not None and rng.random() < .3
        if one:
            ff = [ff[0]] * k
        d['modes'] = modes
        d['num'] = [[0, x] for x in g]
        d['den'] = [[-(x if ff else 4), 4] for x in (ff or g)]
        d['ordnum'] = d['ordden'] = [2] * k
        d['integ'] = rng.random() < .8
        nma = None if nm is None else modes[0] if nm == 'int' and k == 1 else modes
        obj = (Integrator if kind == 'int' else DynamicIntegrator)(
            par, q(g), ff=None if ff is None else q(ff[:1] if one else ff), n_modes=nma, delay=delay, integration=d['integ'])
    else:
        d['kind'] = 'ssr'
        k = rng.randint(1, 3)
        bl = []
        form = rng.choice(['list', 'list', 'scalars', 'gain', 'integ', 'modes', 'single'])
        if form == 'single':
            k = 1
        for _ in range(k):
            n = 1 if form in ('scalars', 'gain', 'integ') else rng.randint(1, 3)
            c = lambda: rng.choice([-4, -2, 0, 2, 4, 4])
            bl.append(dict(A=[[c() for _ in range(n)] for _ in range(n)], B=[c() for _ in range(n)], C=[c() for _ in range(n)], D=c()))
        if form == 'gain':
            bl = [dict(A=[[0]], B=[0], C=[0], D=b['D']) for b in bl]
        if form == 'integ':
            one = rng.random() < .3
            for b in bl:
                b.update(C=[4], D=0)
                if one:
                    b['A'] = bl[0]['A']
        modes = [rng.randint(1, 3) for _ in bl] if form == 'modes' else [1] * k
        A = [np.array([q(r) for r in b['A']]) for b in bl]
        B = [np.array(q(b['B'])).reshape(-1, 1) for b in bl]
        C = [np.array(q(b['C'])).reshape(1, -1) for b in bl]
        D = [np.array([[b['D'] / 4]]) for b in bl]
        if form == 'gain':
            data = SsrFilterData.from_gain([b['D'] / 4 for b in bl])
        elif form == 'integ':
            data = SsrFilterData.from_integrator([b['B'][0] / 4 for b in bl], ff=[b['A'][0][0] / 4 for b in (bl[:1] if one else bl)])
        elif form == 'scalars':
            data = SsrFilterData(*[[float(x.ravel()[0]) for x in m] for m in (A, B, C, D)])
        elif form == 'single':
            data = SsrFilterData(A[0], B[0], C[0], D[0])
        else:
            data = SsrFilterData(A, B, C, D, n_modes=modes if form == 'modes' else None)
        d['blocks'], d['modes'] = bl, modes
        d['new'] = rng.random() < .6
        obj = SsrFilter(par, data, delay=delay, output_uses_new_state=d['new'])
    return obj, d


def fits(d, ev, s, limit):
    """Are all exact outputs of this history integers in units 1/s below the limit?  (Only selects histories
    the integer specification can represent; it judges nothing.)"""
    n = sum(d['modes'])
    full = lambda v: v * n if len(v) == 1 else v
    spread = lambda v: [x for x, k in zip(v, d['modes']) for _ in range(k)]
    if d['kind'] == 'iir':
        al = lambda r, o: [0] * (len(r) - o) + r[:o] if o < len(r) and not any(r[o:]) else r
        num = spread([al(r, o) for r, o in zip(d['num'], d['ordnum'])])
        den = spread([al(r, o) for r, o in zip(d['den'], d['ordden'])])
        shape = [[F(x, r[-1]) for x in r] if r[-1] else [F(x, 4) for x in r] if any(r) else [F(0)] * (len(r) - 1) + [F(1)] for r in num]
        num = [[F(x, 4) for x in r] for r in num]
        ist, ost = [[F(0)] * len(num[0]) for _ in range(n)], [[F(0)] * len(den[0]) for _ in range(n)]
    else:
        bl = spread(d['blocks'])
        x = [[F(0)] * len(b['B']) for b in bl]
    for e in ev:
        if e['k'] != 'run':
            continue
        u, g = full([F(v, s) for v in e['u']]), full([F(v, 4) for v in e['g']]) if e['g'] else [F(1)] * n
        if e['reset']:
            if d['kind'] == 'iir':
                ist, ost = [[F(0)] * len(num[0]) for _ in range(n)], [[F(0)] * len(den[0]) for _ in range(n)]
            else:
                x = [[F(0)] * len(b['B']) for b in bl]
        if e['gain']:
            for c in range(n):
                v = e['gain'][0] if e['all'] else e['gain'][c] if c < len(e['gain']) else 999
                if v != 999:
                    num[c] = [y * F(v, 4) for y in shape[c]]
        for c in range(n):
            vals = []
            if d['kind'] == 'iir':
                ist[c] = ist[c][1:] + [u[c]]
                old = ost[c][1:] + [F(0)]
                y = sum(a * b for a, b in zip(num[c], ist[c])) * g[c]
                if d['integ']:
                    y -= sum(F(a, 4) * b for a, b in zip(den[c], old))
                y /= F(den[c][-1], 4)
                ost[c] = old[:-1] + [y]
                vals = [y]
                if any((16 * q).denominator != 1 for q in num[c]):
                    return False
            else:
                b = bl[c]
                w = u[c] * g[c]
                xn = [sum(F(a, 4) * q for a, q in zip(r, x[c])) + F(bb, 4) * w for r, bb in zip(b['A'], b['B'])]
                xo = xn if d['new'] else x[c]
                y = sum(F(a, 4) * q for a, q in zip(b['C'], xo)) + F(b['D'], 4) * w
                x[c] = xn
                vals = [y, w] + xn
            if any(abs(v) * s > limit or (v * s).denominator != 1 for v in vals):
                return False
    return True


def gain_value(rng, obj_kind, n):
    """(value put on the int_gain input, list for the specification, all)"""
    k = rng.choice(['float', '0d', 'one', 'vec', 'short', 'str', 'bad', 'nan'])
    g = rng.choice([0, 1, 2, 4, 8])
    if k == 'float':
        return g / 4, [g], True
    if k == '0d':
        return np.array(g / 4), [g], True
    if k == 'one':
        return np.array([g / 4]), [g], obj_kind == 'dynint' or n == 1
    if k == 'str':
        return STRINGS[g], [g], True
    if k == 'bad':
        return 'abc', [], True
    gs = [rng.choice([0, 1, 2, 4, 8]) for _ in range(n)]
    if k == 'short' and n > 2:
        gs = gs[:n - 1]
    v = np.array(gs) / 4.0
    if k == 'nan' and n > 1:
        j = rng.randrange(n)
        v[j] = np.nan if rng.random() < .5 else np.inf
        gs[j] = 999
    return v, gs, len(gs) == 1 and (obj_kind == 'dynint' or n == 1)


def history(rng, obj, d, kind, s, steps):
    """Frame-by-frame inputs: list of dicts (u, g, gain, all, reset, run) in integer units."""
    n = sum(d['modes'])
    ev = []
    usegm = rng.random() < .5
    dyn = kind.startswith('dyn')
    u, g = [0] * n, []
    if usegm:
        g = [4]
    for j in range(steps):
        e = dict(k='run', u=u, g=g, gain=[], all=False, reset=False, raw=None, fresh=[])
        if rng.random() < .85:
            u = [rng.randint(-8, 8) * s for _ in range(1 if rng.random() < .15 else n)]
            e['fresh'].append('delta_comm')
        if usegm and rng.random() < .7:
            g = [rng.choice([0, 2, 4, 4, 6, 8]) for _ in range(1 if rng.random() < .3 else n)]
            e['fresh'].append('gain_mod')
        e['u'], e['g'] = u, g
        if dyn and rng.random() < .25:
            e['fresh'].append('reset')
            e['reset'] = True
        if dyn and rng.random() < .35:
            e['raw'], e['gain'], e['all'] = gain_value(rng, kind, n)
            e['fresh'].append('int_gain')
        if not dyn and rng.random() < .12:
            e['reset'] = 'call'
        if not e['fresh']:
            e['k'] = 'stale'
        ev.append(e)
    if ev[0]['k'] == 'stale':
        ev[0].update(k='run', fresh=['delta_comm'])
    # a reset requested between frames acts on the next frame that runs
    for j, e in enumerate(ev):
        if e['reset'] == 'call':
            e['call'] = True
            e['reset'] = False
            for x in ev[j:]:
                if x['k'] == 'run':
                    x['reset'] = True
                    break
    return ev, usegm


def drive(obj, d, ev, usegm, dyn, s, rng):
    """Run the history on the real filter; returns events of both trace specifications (units 1/s)."""
    from specula.base_value import BaseValue
    n = sum(d['modes'])
    ins = {'delta_comm': BaseValue(value=np.zeros(n))}
    if usegm:
        ins['gain_mod'] = BaseValue(value=np.ones(n))
    if dyn:
        ins['reset'] = BaseValue(value=1.0)
        ins['int_gain'] = BaseValue(value=1.0)
    for k, v in ins.items():
        obj.inputs[k].set(v)
    shape2 = rng.random() < .2
    out14, out13 = [], []
    s4 = 4 * s
    look = lambda: out13.append(dict(k='look', nd=vec(obj.out_comm_no_delay.value, s4), out=vec(obj.out_comm.value, s4)))
    step = -1
    late = len(ev) % 2 == 1
    try:
        obj.setup()
        for step, e in enumerate(ev):
            t = step * DT
            if e.get('call'):
                obj.reset_states()
                look()
            for name in e['fresh']:
                v = ins[name]
                if name == 'delta_comm':
                    a = np.array(e['u'], dtype=float) / s
                    v.value = a.reshape(1, -1) if shape2 else a
                elif name == 'gain_mod':
                    v.value = np.array(e['g'], dtype=float) / 4
                elif name == 'int_gain':
                    v.value = e['raw']
                # the gain modulation may come from a ':-1' input, with the time of the previous step
                v.generation_time = t - DT if late and name == 'gain_mod' and 'delta_comm' in e['fresh'] else t
            ready = obj.check_ready(t)
            look()
            if ready:
                obj.trigger()
                obj.post_trigger()
            nd = vec(obj.out_comm_no_delay.value, s)
            if e['k'] == 'run':
                out14.append(dict(k='run', u=e['u'], g=e['g'], gain=e['gain'], all=e['all'], reset=e['reset'], nd=nd))
                out13.append(dict(k='run', nd=vec(obj.out_comm_no_delay.value, s4), out=vec(obj.out_comm.value, s4), reset=e['reset'], now=t,
                                  t=int(obj.out_comm.generation_time), tn=int(obj.out_comm_no_delay.generation_time)))
            else:
                out14.append(dict(k='stale', nd=nd))
                look()
    except Exception as x:
        m = f'frame {step}: {type(x).__name__}: {x}'[:150]
        out14.append(dict(k='err', msg=m))
        out13.append(dict(k='err', msg=m))
    return out14, out13


KINDS = ['iir', 'iir', 'dyniir', 'int', 'dynint', 'ssr']


def pair(tid, rng, single=False, frac=False):
    while True:
        kind = rng.choice(KINDS)
        d4 = rng.choice([0, 4, 8, 12, 16, 20, 2, 6, 1, 3, 5, 7, 10, 14]) if not single else rng.choice([0, 4, 8, 2, 6])
        seed = rng.randrange(2**31)
        r = random.Random(seed)
        with core.quiet():
            obj, d = build(r, kind, d4)
        for s in (16, 256, 4096, 65536):
            r2 = random.Random(seed + 1)
            ev, usegm = history(r2, obj, d, kind, s, r2.randint(2, 14))
            ev = [dict(e) for e in ev]
            if fits(d, ev, s, 2**13 if single else 2**20):
                break
        else:
            continue
        break
    with core.quiet():
        a, b = drive(obj, d, ev, usegm, kind.startswith('dyn'), s, rng)
    rep = dict(kind=kind, d=d, d4=d4, s=s, ev=[{k: str(v) if k == 'raw' else v for k, v in e.items()} for e in ev])
    t14 = dict(id=tid, s=s, ev=a, replay=rep, **d)
    return t14, (b, d4, s, sum(d['modes']), rep)


def gen(seed, count, prefix, single=False):
    rng = random.Random(seed)
    return [pair(f'{prefix}{k}', rng, single)[0] for k in range(count)]


def gens(seed, count, prefix):
    return gen(seed, count, prefix, True)


def check(ctx):
    ctx.model_check('MCFilter')
    traces = core.spread(ctx, 'c14', 'gen', ctx.n(2500, 40000), prefix='f')
    traces += core.spread(ctx, 'c14', 'gens', ctx.n(400, 6000), parts=2, precision=1, prefix='s')
    ctx.need(sum(any(e['k'] == 'run' and e['reset'] for e in t['ev']) for t in traces) > 100, 'resets')
    ctx.need(sum(any(e['k'] == 'run' and e['gain'] for e in t['ev']) for t in traces) > 100, 'gain updates')
    ctx.validate('FilterTrace', traces)
    ctx.assumptions.append('coefficients are multiples of 1/4 and histories short enough for exact arithmetic')
