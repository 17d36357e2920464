"""C32: propagation through layers, deformable mirrors and operations on fields."""
import json
import math
import random
import numpy as np
import core

DT = 1000000
HU = 1000.0       # metres per unit of height


def ints(v, sc):
    v = np.nan_to_num(np.asarray(v, dtype=float).ravel() * sc, nan=2e9, posinf=2e9, neginf=-2e9)
    return [int(x) for x in np.clip(np.rint(v), -2e9, 2e9)]


def exact(w, s, l):
    """Whether every position is a multiple of the unit."""
    ok = s['H'] == 0 or all(((2 * x + 1 - w['N']) * w['Q'] * (s['H'] - l['h'])) % (2 * l['mag'] * s['H']) == 0 for x in range(w['N']))
    ok = ok and (s['H'] or all(((2 * x + 1 - w['N']) * w['Q']) % (2 * l['mag']) == 0 for x in range(w['N'])))
    ok = ok and (s['H'] == 0 or all(p * (s['H'] - l['h']) % s['H'] == 0 for p in w['pp']))
    for k, u in enumerate((s['ux'], s['uy'])):
        d = u * l['h'] * w['am']
        if w['pp'] and l['n'] > w['N']:
            d += w['pp'][k] * (s['H'] - l['h']) // s['H'] if s['H'] else w['pp'][k]
        # displacements on the edge of what is accepted depend on rounding
        ok = ok and (d == 0 or 2 * abs(d) != (l['n'] - w['N']) * w['Q'])
        on = d == 0 and l['n'] == w['N'] and (s['ux'] or s['uy'] or w['pp']) and l['h']
        ok = ok and not on
    return ok


def geometry(rng):
    while True:
        Q = rng.choice([4, 4, 8])
        N = rng.randint(2, 5)
        w = dict(N=N, Q=Q, am=rng.choice([1, 1, 1, 2]), pp=[])
        if rng.random() < .2:
            w['pp'] = [Q * rng.randint(-2, 2) // rng.choice([1, 2]), rng.randint(-2, 2) * Q // 2]
        ls = []
        for _ in range(rng.randint(1, 4 if Q == 4 else 3)):
            plain = rng.random() < .4
            l = dict(n=N + rng.choice([0, 1, 2, 4, 6, 9]), h=rng.choice([0, 0, 1, 2, 3, 4]), sx=0, sy=0, rot=0, mag=1)
            if not plain:
                if rng.random() < .5:
                    l.update(sx=rng.randint(-2 * Q, 2 * Q), sy=rng.randint(-2 * Q, 2 * Q))
                if rng.random() < .5:
                    l['rot'] = rng.randint(0, 3)
                if rng.random() < .3:
                    l['mag'] = rng.choice([2, 2, 4])
            ls.append(l)
        src = []
        for _ in range(rng.randint(1, 3)):
            s = dict(ux=0, uy=0, H=rng.choice([0, 0, 0, 2, 4, 6, 8]))
            if rng.random() < .7:
                s.update(ux=rng.randint(-Q, Q), uy=rng.randint(-Q, Q))
            src.append(s)
        if not all(exact(w, s, l) for s in src for l in ls):
            continue
        off = lambda s, l, k: (s['ux'], s['uy'])[k] * l['h'] * w['am']
        bad = any((s['H'] and s['H'] <= l['h'] and l['h']) or max(abs(off(s, l, 0)), abs(off(s, l, 1))) * 2 > (l['n'] - N) * Q
                  for s in src for l in ls)
        if bad and rng.random() < .93:
            continue
        return w, src, ls


def content(rng, n, simple):
    u = rng.random()
    A = [1] * (n * n) if simple or u < .4 else [rng.choice([0, 1, 1, 1]) for _ in range(n * n)] if u < .8 else \
        [rng.choice([0, 1, 2]) for _ in range(n * n)]
    P = [rng.randint(-60, 60) for _ in range(n * n)]
    return A, P


def fields(rng, dim, lo=0):
    ny, nx = dim
    return dict(A=[rng.choice([0, 1, 1, 2]) for _ in range(ny * nx)], P=[rng.randint(-99, 99) for _ in range(ny * nx)], S=rng.randint(lo, 50))


def prop_case(rng, tid, beh=None, tol=1):
    from specula.processing_objects.atmo_propagation import AtmoPropagation
    from specula.data_objects.simul_params import SimulParams
    from specula.data_objects.source import Source
    from specula.data_objects.layer import Layer
    if beh is None:
        w, src, ls = geometry(rng)
    else:
        # a finer unit, so that all positions are exact
        w, s, l = dict(beh['w'], Q=16), beh['s'], beh['l']
        w['pp'] = [4 * p for p in w['pp']]
        src, ls = [dict(s, ux=4 * s['ux'], uy=4 * s['uy'])], [dict(l, sx=4 * l['sx'], sy=4 * l['sy'])]
        if not exact(w, src[0], ls[0]):
            return None
    Q, N, U = w['Q'], w['N'], 16 if any(l['mag'] > 1 for l in ls) else 1
    pitch = 1.0 if w['pp'] else rng.choice([.25, .5, 1.0])
    nc = rng.randint(1, len(ls))
    SA, SP = (Q * Q) ** len(ls), Q * Q * U
    d = dict(kind='prop', w=w, src=src, ls=ls, U=U, tolA=1 + (SA // 500 if tol > 1 else 0), tolP=tol * (1 + (2 * Q * Q if U > 1 else 0)))
    ev = []
    try:
        with core.quiet():
            par = SimulParams(pixel_pupil=N, pixel_pitch=pitch, zenithAngleInDeg=60.0 if w['am'] == 2 else 0.0)
            sd = {}
            for k, s in enumerate(src):
                r = math.hypot(s['ux'], s['uy']) * pitch / (Q * HU) / np.pi * 180 * 3600
                sd[f's{k}'] = Source([r, math.degrees(math.atan2(s['uy'], s['ux']))], magnitude=5, wavelengthInNm=500,
                                     height=s['H'] * HU if s['H'] else float('inf'))
            o = AtmoPropagation(par, sd, pupil_position=[p * pitch / Q for p in w['pp']] if w['pp'] else None,
                                upwards=rng.random() < .3)
            objs = [Layer(l['n'], l['n'], pitch, l['h'] * HU, shiftXYinPixel=(l['sx'] / Q, l['sy'] / Q),
                          rotInDeg=90.0 * l['rot'], magnification=float(l['mag'])) for l in ls]
            o.inputs['common_layer_list'].set(objs[:nc])
            if objs[nc:] or rng.random() < .7:
                o.inputs['atmo_layer_list'].set(objs[nc:])
            cur = [content(rng, l['n'], False) for l in ls]
            for j, q in enumerate(objs):
                q.set_value([np.array(v, dtype=float).reshape(ls[j]['n'], -1) for v in cur[j]])
            try:
                o.setup()
                ev.append(dict(refused=False))
            except ValueError:
                ev.append(dict(refused=True))
            for k in range(0 if ev[-1]['refused'] else 1 if beh else rng.randint(1, 4)):
                now, hit = k * DT, False
                for j, q in enumerate(objs):
                    if rng.random() < (.8 if k == 0 or beh else .4):
                        A, P = content(rng, ls[j]['n'], rng.random() < .3)
                        cur[j] = (A, P)
                        q.set_value([np.array(v, dtype=float).reshape(ls[j]['n'], -1) for v in cur[j]])
                        q.generation_time, hit = now, True
                ran = bool(o.check_ready(now))
                if ran != hit:
                    ev.append(dict(err='ready'))
                    break
                if ran:
                    o.trigger()
                    o.post_trigger()
                outs = [o.outputs[f'out_s{a}_ef'] for a in range(len(src))]
                got = [dict(A=ints(e.A, SA), P=ints(e.phaseInNm, SP)) for e in outs]
                kept = all(q.A.ravel().tolist() == c[0] and all(p == v for p, v, a in zip(q.phaseInNm.ravel().tolist(), c[1], c[0])
                                                                if a or l['mag'] == 1) for q, c, l in zip(objs, cur, ls))
                ev.append(dict(t=k, fresh=hit, A=[c[0] for c in cur], P=[c[1] for c in cur], got=got, kept=kept,
                               gt=[int(round(e.generation_time / DT)) for e in outs]))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:200]))
    return dict(d, id=tid, ev=ev, replay=dict(kind='prop', w=w, src=src, ls=ls, pitch=pitch, common=nc))


def dm_case(rng, tid, tol=1):
    from specula.processing_objects.dm import DM
    from specula.data_objects.simul_params import SimulParams
    from specula.data_objects.ifunc import IFunc
    from specula.data_objects.m2c import M2C
    from specula.base_value import BaseValue
    n = rng.randint(2, 5)
    mask = [rng.choice([0, 1, 1]) for _ in range(n * n)]
    if not any(mask):
        mask[rng.randrange(n * n)] = 1
    idx = [k + 1 for k in range(n * n) if mask[k]]
    nact = rng.randint(1, 5)
    ifn = [[rng.randint(-4, 4) for _ in idx] for _ in range(nact)]
    m2c, cols = [], nact
    if rng.random() < .5:
        cols = rng.randint(1, nact)
        m2c = [[rng.randint(-3, 3) for _ in range(cols)] for _ in range(nact)]
    kw = {}
    u = rng.random()
    if u < .3:
        kw['idx_modes'] = rng.sample(range(cols), rng.randint(1, cols))
        modes = kw['idx_modes']
    else:
        a, b = 0, nact
        if rng.random() < .5:
            a = kw['start_mode'] = rng.randint(0, cols - 1)
        if rng.random() < .5:
            b = kw['nmodes'] = rng.randint(a + 1, cols)
        modes = list(range(a, min(b, cols)))
    sign = rng.choice([-1, -1, 1, 2])
    if sign != -1 or rng.random() < .3:
        kw['sign'] = sign
    ev = []
    try:
        with core.quiet():
            f = IFunc(ifunc=np.array(ifn, dtype=float), mask=np.array(mask, dtype=float).reshape(n, n))
            o = DM(SimulParams(pixel_pupil=n, pixel_pitch=.5), height=0, ifunc=f, m2c=M2C(np.array(m2c, dtype=float)) if m2c else None, **kw)
            c = [0]
            src = BaseValue(value=np.array(c, dtype=float))
            o.inputs['in_command'].set(src)
            o.setup()
            for k in range(rng.randint(1, 6)):
                hit = rng.random() < .75 or k == 0
                if hit:
                    m = len(modes) if rng.random() < .5 else rng.randint(0, cols + 2)
                    c = [rng.randint(-9, 9) for _ in range(m)]
                    src.value = np.array(c, dtype=float)
                    src.generation_time = k * DT
                ran = bool(o.check_ready(k * DT))
                if ran != hit:
                    ev.append(dict(err='ready'))
                    break
                if ran:
                    o.trigger()
                    o.post_trigger()
                L = o.outputs['out_layer']
                ev.append(dict(t=k, fresh=hit, c=list(c), got=[dict(A=ints(L.A, 1), P=ints(L.phaseInNm, 1))],
                               kept=src.value.tolist() == c and np.asarray(f.influence_function).tolist() == ifn, gt=[int(round(L.generation_time / DT))]))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:200]))
    return dict(id=tid, kind='dm', ev=ev, sign=sign, m2c=m2c, modes=[m + 1 for m in modes], ifn=ifn, idx=idx, npix=n * n, mask=mask,
                tolA=0, tolP=0, replay=dict(kind='dm', kw=kw, n=n, nact=nact, cols=cols, m2c=bool(m2c)))


def field_case(rng, tid, tol=1):
    from specula.processing_objects.electric_field_combinator import ElectricFieldCombinator
    from specula.processing_objects.electric_field_reflection import ElectricFieldReflection
    from specula.processing_objects.phase_flattening import PhaseFlattening
    from specula.data_objects.electric_field import ElectricField
    kind = rng.choice(['combine', 'reflect', 'flatten'])
    dim = (rng.randint(1, 4), rng.randint(1, 4))
    aslist = rng.random() < .6
    m = (rng.randint(1, 4) if aslist else 2) if kind == 'combine' else 1
    ev = []
    try:
        with core.quiet():
            o = dict(combine=ElectricFieldCombinator, reflect=ElectricFieldReflection, flatten=PhaseFlattening)[kind]()
            src = [ElectricField(dim[1], dim[0], .5, S0=1) for _ in range(m)]
            if kind != 'combine':
                o.inputs['in_ef'].set(src[0])
            elif aslist:
                o.inputs['in_ef_list'].set(src)
            else:
                o.inputs['in_ef1'].set(src[0])
                o.inputs['in_ef2'].set(src[1])
            cur = [fields(rng, dim) for _ in src]

            def put(q, c):
                q.A[:] = np.array(c['A'], dtype=float).reshape(dim)
                q.phaseInNm[:] = np.array(c['P'], dtype=float).reshape(dim)
                q.S0 = c['S']
            for q, c in zip(src, cur):
                put(q, c)
            o.setup()
            for k in range(rng.randint(1, 5)):
                hit = False
                for j, q in enumerate(src):
                    if rng.random() < .6:
                        cur[j] = fields(rng, dim)
                        if rng.random() < .1:
                            cur[j]['A'] = [0] * len(cur[j]['A'])
                        put(q, cur[j])
                        q.generation_time, hit = k * DT, True
                ran = bool(o.check_ready(k * DT))
                if ran != hit:
                    ev.append(dict(err='ready'))
                    break
                if ran:
                    o.trigger()
                    o.post_trigger()
                e = o.outputs['out_ef']
                lit = max(1, sum(a > 0 for a in cur[0]['A'])) if kind == 'flatten' else 1
                if not hit and ev:
                    lit = ev[-1]['lit']
                ev.append({'t': k, 'fresh': hit, 'in': [dict(c) for c in cur], 'lit': lit, 'kept': all(
                    q.A.ravel().tolist() == c['A'] and q.phaseInNm.ravel().tolist() == c['P'] and q.S0 == c['S'] for q, c in zip(src, cur)),
                    'got': [dict(A=ints(e.A, 1), P=ints(e.phaseInNm, lit), S=int(round(float(e.S0))))], 'gt': [int(round(e.generation_time / DT))]})
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:200]))
    return dict(id=tid, kind=kind, ev=ev, tolA=0, tolP=0, replay=dict(kind=kind, dim=dim, inputs=m, aslist=aslist))


def run(seed, count, prefix=''):
    out = []
    tol = 2 if prefix.startswith('p1') else 1
    for k in range(count):
        c = random.Random(f'{seed}.{k}')
        u = c.random()
        out.append((prop_case if u < .6 else dm_case if u < .82 else field_case)(c, f'{prefix}{seed}.{k}', tol=tol))
    return out


def replays(seed, behs, prefix=''):
    return [t for t in (prop_case(random.Random(f'{seed}.{k}'), f'{prefix}beh.{k}', json.loads(b)) for k, b in behs) if t]


def check(ctx):
    behs = ctx.model_check('MCProp')
    pick = ctx.rng.sample(range(len(behs)), min(ctx.n(500, 20000), len(behs)))
    items = [(p, json.dumps(behs[p])) for p in pick]
    ts = sum(core.jobs('c32', 'replays', [(ctx.seed, items[j::3], '') for j in range(3)], 0), [])
    ts += core.spread(ctx, 'c32', 'run', ctx.n(1500, 20000), 6)
    ts += core.spread(ctx, 'c32', 'run', ctx.n(500, 6000), 3, precision=1, prefix='p1.')
    ctx.validate('PropTrace', ts)
