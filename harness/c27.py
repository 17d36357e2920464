"""C27: modal reconstruction."""
import os
import random
import numpy as np
import core
from core import vec

DT = 1000000


def ints(rng, n, k=6):
    return [rng.randint(-k, k) for _ in range(n)]


def mat(rng, r, c, k=4):
    return [ints(rng, c, k) for _ in range(r)]


def arr(m):
    return np.array(m, dtype=float)


def run(tid, rng, hist=None, kind=None):
    from specula.base_value import BaseValue
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.slopes import Slopes
    from specula.processing_objects.modalrec import Modalrec
    from specula.processing_objects.modalrec_implicit_polc import ModalrecImplicitPolc
    from specula.processing_objects.mvm import MVM
    kind = kind or rng.choice(['plain', 'plain', 'polc', 'implicit', 'mvm'])
    single = not hist and (kind == 'mvm' or rng.random() < .5)
    sizes = [rng.choice([2, 4, 6]) for _ in range(1 if single else 2 if hist else rng.randint(1, 3))]
    if kind == 'mvm':
        sizes = [rng.randint(1, 6)]
    ns, nm, nc = sum(sizes), rng.randint(1, 4), rng.randint(1, 4)
    csizes = [nc] if rng.random() < .5 else [rng.randint(0, nc)]
    if len(csizes) == 1 and csizes[0] < nc:
        csizes = [csizes[0], nc - csizes[0]]
    csizes = [x for x in csizes if x]
    comlist = len(csizes) > 1 or rng.random() < .3
    R, P, D = mat(rng, nm, ns), mat(rng, nc, nm), mat(rng, ns, nc)
    ops, kw = [], {}
    ev = []
    d = dict(id=tid, kind=kind, P=P, D=D, ncomm=nc)
    src = []
    try:
        with core.quiet():
            if kind == 'mvm':
                o = MVM(recmat=Recmat(arr(R)))
                src = [BaseValue(value=np.zeros(ns))]
                o.inputs['in_vector'].set(src[0])
                nout = nm
            else:
                src = [Slopes(n) for n in sizes]
                if kind == 'plain':
                    opt = rng.choice(['', '', 'cut', 'filt', 'both', 'identity', 'shared'])
                    if opt == 'identity':
                        R = [[int(a == b) for b in range(ns)] for a in range(ns)]
                        o = Modalrec(nmodes=ns, identity=True)
                    else:
                        rec = Recmat(arr(R))
                        if opt == 'shared':
                            Modalrec(recmat=rec, ncutmodes=1 if nm > 1 else None, filtmat=arr(mat(rng, ns, rng.randint(1, 4))))
                        if opt in ('cut', 'both') and nm > 1:
                            k = rng.randint(1, nm - 1)
                            ops.append(dict(k='rec_reduce', n=k))
                            kw['ncutmodes'] = k
                        if opt in ('filt', 'both'):
                            k = rng.randint(1, 5)
                            f = mat(rng, k, ns)      # slopes of the sensor -> slopes of the matrix
                            R = mat(rng, nm, k)
                            rec = Recmat(arr(R))
                            ops.append(dict(k='rec_filter', n=0, m=f))
                            kw['filtmat'] = arr(f)
                        o = Modalrec(recmat=rec, **kw)
                    nout = len(R) - sum(x['n'] for x in ops)
                else:
                    cls = Modalrec if kind == 'polc' else ModalrecImplicitPolc
                    if kind == 'polc':
                        kw['polc'] = True
                    if rng.random() < .3:
                        kw['in_commands_size'] = nc
                    o = cls(recmat=Recmat(arr(R)), projmat=Recmat(arr(P)), intmat=Intmat(arr(D)), **kw)
                    nout = nc
                if len(src) == 1 and (single or rng.random() < .5):
                    o.inputs['in_slopes'].set(src[0])
                else:
                    o.inputs['in_slopes_list'].set(src)
            com = []
            late = rng.choice([0, 0, DT])    # commands of a ':-1' input carry the time of the previous step
            if kind in ('polc', 'implicit'):
                com = [BaseValue(value=None if rng.random() < .5 else np.zeros(n)) for n in csizes]
                if comlist:
                    o.inputs['in_commands_list'].set(com)
                else:
                    o.inputs['in_commands'].set(com[0])
            d.update(R0=R, ops=ops, nout=nout, npol=nc if kind in ('polc', 'implicit') else nout)
            o.setup()
            cs, cc = [[0] * n for n in sizes], [None if c.value is None else [0] * n for c, n in zip(com, csizes)]
            for j in range(len(hist) if hist else rng.randint(1, 8)):
                now = j * DT
                fresh = list(hist[j][:len(sizes)]) if hist else [rng.random() < .6 for _ in sizes]
                cf = (hist[j][2] if hist else rng.random() < .5) and bool(com)
                for k, s in enumerate(src):
                    if fresh[k]:
                        cs[k] = ints(rng, sizes[k])
                        if kind == 'mvm':
                            s.value = arr(cs[k])
                        elif rng.random() < .5:
                            s.slopes[:] = cs[k]
                        else:
                            s.slopes = arr(cs[k]).astype(s.slopes.dtype)
                        s.generation_time = now
                if cf:
                    for k, c in enumerate(com):
                        if rng.random() < .8:
                            cc[k] = ints(rng, csizes[k])
                            c.value = arr(cc[k])
                            c.generation_time = now - late
                if o.check_ready(now):
                    o.trigger()
                    o.post_trigger()
                out = o.outputs['out_vector' if kind == 'mvm' else 'out_modes']
                pol = out if kind == 'mvm' else o.outputs['out_pseudo_ol_modes']
                allc = [] if any(x is None for x in cc) else [x for c in cc for x in c]
                ev.append(dict(fresh=any(fresh), s=[x for c in cs for x in c], c=allc,
                               modes=vec(out.value), t=int(out.generation_time), pol=vec(pol.value), pt=int(pol.generation_time), now=now))
    except Exception as x:
        d.update(R0=R, ops=ops, nout=1, npol=1)
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
    for x in ops:
        x.setdefault('m', [])
    d['ev'] = ev
    d['replay'] = dict(sizes=sizes, kw=str(kw), comlist=comlist)
    return d


def edit(tid, rng):
    from specula.data_objects.recmat import Recmat
    from specula.data_objects.intmat import Intmat
    m0 = mat(rng, rng.randint(1, 5), rng.randint(1, 5))
    rec = rng.random() < .3
    given = arr(m0)
    o = Recmat(given) if rec else Intmat(given)
    get = lambda: (o.recmat if rec else o.intmat)
    ev = []
    for _ in range(rng.randint(1, 6)):
        r, c = get().shape
        k = 'rec_reduce' if rec else rng.choice(['im_reduce', 'im_slopes', 'im_start', 'im_nmodes', 'im_nslopes', 'im_mode', 'im_slope'])
        n, v = rng.randint(0, 5), []
        refused = False
        try:
            with core.quiet():
                if k in ('rec_reduce', 'im_reduce'):
                    o.reduce_size(n)
                elif k == 'im_slopes':
                    o.reduce_slopes(n)
                elif k == 'im_start':
                    o.set_start_mode(n)
                elif k == 'im_nmodes':
                    n = max(1, n)
                    o.set_nmodes(n)
                elif k == 'im_nslopes':
                    n = max(1, n)
                    o.set_nslopes(n)
                elif k == 'im_mode':
                    n, v = rng.randint(1, c), ints(rng, r)
                    o.modes[n - 1] = arr(v)
                elif k == 'im_slope':
                    n, v = rng.randint(1, r), ints(rng, c)
                    o.slopes[n - 1] = arr(v)
        except ValueError:
            refused = True
        except Exception as x:
            ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
            break
        a = get()
        e = dict(op=dict(k=k, n=n, v=v), refused=refused, m=[vec(row) for row in a])
        ev.append(e)
        if (o.nmodes, getattr(o, 'nslopes', a.shape[1])) != ((a.shape[0], a.shape[1]) if rec else (a.shape[1], a.shape[0])):
            ev.append(dict(err='sizes reported wrongly'))
            break
    return dict(id=tid, kind='edit', m0=m0, ev=ev)


def from_intmat(tid, rng):
    """Modalrec given an interaction matrix [slopes, modes] instead of a reconstruction matrix."""
    from specula.data_objects.intmat import Intmat
    from specula.data_objects.slopes import Slopes
    from specula.processing_objects.modalrec import Modalrec
    D = mat(rng, 4, 3)
    n = rng.choice([None, 2])
    ev = []
    try:
        with core.quiet():
            o = Modalrec(nmodes=n, intmat=Intmat(arr(D)))
            src = Slopes(4)
            o.inputs['in_slopes'].set(src)
            o.setup()
            s = ints(rng, 4)
            src.slopes[:] = s
            src.generation_time = 0
            o.check_ready(0)
            o.trigger()
            o.post_trigger()
            ev.append(dict(fresh=True, s=s, c=[], modes=vec(o.modes.value), t=int(o.modes.generation_time), pol=[], pt=-1, now=0))
    except Exception as x:
        ev.append(dict(err=f'{type(x).__name__}: {x}'[:150]))
    return dict(id=tid, kind='plain', R0=[list(r) for r in zip(*D)][:n], ops=[], P=[], D=[], ncomm=1, nout=n or 3, npol=1, ev=ev, key='modalrec-from-intmat')


def gen(seed, count, prefix):
    rng = random.Random(seed)
    return [from_intmat(f'{prefix}{k}', rng) if k % 200 == 7 else edit(f'{prefix}{k}', rng) if k % 6 == 0 else run(f'{prefix}{k}', rng) for k in range(count)]


def replay(seed, items, prefix):
    rng = random.Random(seed)
    return [run(f'{prefix}{k}', rng, b, ['polc', 'implicit', 'plain'][k % 3]) for k, b in enumerate(items)]


def check(ctx):
    beh = ctx.model_check('MCRecon', ctx.n('MCRecon', 'MCReconT'))
    ctx.require(len(beh) > 100, 'firing patterns')
    parts = [beh[k::6] for k in range(6)] * ctx.n(1, 3)
    traces = [t for r in core.jobs('c27', 'replay', [[ctx.rng.randrange(2**31), p, f'm{k}.'] for k, p in enumerate(parts)]) for t in r]
    traces += core.spread(ctx, 'c27', 'gen', ctx.n(2600, 40000), prefix='r')
    traces += core.spread(ctx, 'c27', 'gen', ctx.n(300, 4000), parts=2, precision=1, prefix='s')
    ctx.validate('ReconTrace', traces)
    ctx.assumptions.append('integer matrices and data (exact arithmetic)')
