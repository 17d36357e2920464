"""C23: the display server, from the simulation's objects to the clients' messages."""
import base64
import json
import os
import pickle
import random
import sys
import threading
import time
import types
import numpy as np
import core


class Channel:
    """Stand-in for multiprocessing.Queue between two threads: everything is transferred by
    pickle, and a random consumer among those waiting gets the next item."""
    rng = random.Random(0)

    def __init__(self):
        self.items, self.cond, self.waiting, self.users, self.turn, self.closed = [], threading.Condition(), set(), {}, None, False

    def put(self, x, *a, **k):
        try:
            b = pickle.dumps(x)
        except Exception:       # multiprocessing drops what its feeder thread cannot pickle
            return
        with self.cond:
            self.items.append(b)
            self.cond.notify_all()

    put_nowait = put

    def get(self, block=True, timeout=None):
        import queue
        me, end = threading.get_ident(), None if timeout is None else time.monotonic() + timeout
        with self.cond:
            if not block:
                if not self.items:
                    raise queue.Empty
                return pickle.loads(self.items.pop(0))
            self.users[me] = threading.current_thread()
            self.waiting.add(me)
            try:
                while True:
                    if self.closed:
                        raise SystemExit
                    if self.items:
                        if self.turn not in self.waiting:
                            self.turn = self.rng.choice(sorted(self.waiting))
                            self.cond.notify_all()
                        if self.turn == me:
                            self.turn = None
                            return pickle.loads(self.items.pop(0))
                    left = None if end is None else end - time.monotonic()
                    if left is not None and left <= 0:
                        raise queue.Empty
                    self.cond.wait(left)
            finally:
                self.waiting.discard(me)
                if self.turn == me:
                    self.turn = None
                self.cond.notify_all()

    def get_nowait(self):
        return self.get(block=False)

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items

    def idle(self):
        with self.cond:
            live = {k for k, t in self.users.items() if t.is_alive()}
            return not self.items and live <= self.waiting

    def close(self):
        with self.cond:
            self.closed = True
            self.cond.notify_all()


class Clock:
    now = 0

    def time(self):
        return self.now

    def __getattr__(self, n):
        return getattr(time, n)


class Under:
    """A module with some attributes replaced."""

    def __init__(self, mod, **kw):
        self.__dict__.update(kw)
        self.__dict__['_mod'] = mod

    def __getattr__(self, n):
        return getattr(self._mod, n)


class Process:
    def __init__(self, target=None, args=(), kwargs=None, **k):
        self.go = lambda: target(*args, **(kwargs or {}))

    def start(self):
        self.go()

    def is_alive(self):
        return True

    def terminate(self):
        pass

    def join(self, *a):
        pass


class FrontEnd:
    up, got = True, []

    def connect(self, *a, **k):
        if not self.up:
            import socketio.exceptions
            raise socketio.exceptions.ConnectionError('down')

    def emit(self, ev, data=None, **k):
        if not self.up:
            import socketio.exceptions
            raise socketio.exceptions.BadNamespaceError('down')
        if ev == 'simul_update':
            self.got.append(data)


def install():
    """The web process's module, with its network and its figures replaced."""
    sys.modules['eventlet'] = sys.modules['gevent'] = None
    import socketio
    import specula.processing_objects.display_server as ds
    import specula.lib.display_server_api as api
    if getattr(api, 'verif', False):
        return ds, api
    api.verif = True
    ds.mp = types.SimpleNamespace(Queue=Channel, Process=Process)
    ds.time = Clock()

    def stop(*a):
        raise SystemExit
    api.os = Under(os, _exit=stop)
    api.socketio = Under(socketio, Client=FrontEnd)
    api.time = Under(time, sleep=lambda x: time.sleep(min(x, .0005)))
    api.sio.run = lambda *a, **k: None

    class Figure:
        def __init__(self, name, objs):
            self.v = [name, [] if any(o.array_for_display() is None for o in objs) else
                      [dict(s=list(np.shape(o.array_for_display())), d=ints(o.array_for_display())) for o in objs]]

        def savefig(self, buf, **k):
            buf.write(json.dumps(self.v).encode())

    class Plotter:
        @staticmethod
        def plot_best_effort(name, o):
            objs = o if isinstance(o, list) else [o]
            for x in objs:
                x.xp = np
            return Figure(name, objs)
    api.DataPlotter = Plotter
    return ds, api


def ints(v):
    v = np.nan_to_num(np.asarray(v, dtype=float).ravel(), nan=2e9, posinf=2e9, neginf=-2e9)
    return [int(x) for x in np.clip(np.rint(v), -2e9, 2e9)]


def shapes(t, d):
    """Messages of the data mode carry nested lists; give the shapes and elements they have."""
    if t in ('unknown', 'error'):
        return []
    if t == 'multi_data':
        return [dict(s=list(np.shape(x)), d=ints(x)) for x in d]
    return [dict(s=list(np.shape(d)), d=ints(d))]


def message(m):
    n, a = m['name'], m['args']
    if n == 'plot':
        v = json.loads(base64.b64decode(a[0]['imgdata']))
        return dict(n=a[0]['name'], t='plot', a=v[1]) if v[0] == a[0]['name'] else dict(n='?', t='mixed', a=[])
    if n == 'data_update':
        d = a[0]['data']
        if d.get('name') != a[0]['name']:
            return dict(n='?', t='mixed', a=[])
        r = shapes(d['type'], d['data'])
        declared = [list(x) for x in (d['shapes'] if 'shapes' in d else [d['shape']] if 'shape' in d else [])]
        return dict(n=a[0]['name'], t=d['type'] if declared == [x['s'] for x in r] else 'shape', a=r)
    if n == 'done':
        return dict(n='', t='end', a=[])
    if n == 'params':
        return dict(n='', t='params', a=sorted(a[0]))
    return None if n == 'speed_report' else dict(n=n, t='?', a=[])


def make_objects(rng, mode):
    """name -> (live object or list or None, function giving its specification)"""
    from specula.base_value import BaseValue
    from specula.data_objects.intensity import Intensity
    from specula.data_objects.pixels import Pixels
    from specula.data_objects.electric_field import ElectricField

    class Fails(BaseValue):
        def copyTo(self, *a):
            raise RuntimeError('cannot be copied')
    arr = lambda v: dict(s=list(np.shape(v)), d=ints(v))

    def fv(b, shape):
        def f():
            b.value = np.array([rng.randint(-9, 9) for _ in range(int(np.prod(shape)) if shape else 1)],
                               dtype=rng.choice([float, int])).reshape(shape)
        return f
    objs, fill = {}, []
    for name, shape in (('a.vec', (3,)), ('b.in_map', (2, 3)), ('c.cube', (2, 2, 2)), ('d.num', ())):
        b = BaseValue()
        fill.append(fv(b, shape))
        objs[name] = ('one', b, lambda b=b: [arr(b.value)])
    it, px = Intensity(3, 2), Pixels(2, 3)
    fill.append(lambda: it.i.__setitem__(slice(None), np.array([rng.randint(0, 9) for _ in range(6)]).reshape(it.i.shape)))
    fill.append(lambda: px.pixels.__setitem__(slice(None), np.array([rng.randint(0, 9) for _ in range(6)]).reshape(px.pixels.shape)))
    objs['e.int'] = ('one', it, lambda: [arr(it.i)])
    objs['e.pix'] = ('one', px, lambda: [arr(px.pixels)])
    ef = ElectricField(2, 3, 0.1)
    lit = rng.randint(1, 6)

    def fe():
        k = rng.sample(range(6), lit)
        ef.A[:] = np.array([float(j in k) for j in range(6)]).reshape(ef.A.shape)
        ef.phaseInNm[:] = np.array([lit * rng.randint(-9, 9) for _ in range(6)], dtype=float).reshape(ef.A.shape)
    fill.append(fe)
    objs['f.ef'] = ('dark', ef, lambda: [arr(ef.A), arr(ef.phaseInNm)])
    for j in range(rng.randint(1, 3)):
        n = rng.randint(0, 3)
        same = rng.random() < .6
        sh = rng.choice([(2,), (3,), (2, 2), ()])
        ls = []
        for _ in range(n):
            b = BaseValue()
            fill.append(fv(b, sh if same else rng.choice([(2,), (3,), (2, 2), ()])))
            ls.append(b)
        objs[f'g.list{j}'] = ('list', ls, lambda ls=ls: [arr(b.value) for b in ls])
    objs['h.none'] = ('none', BaseValue(), lambda: [])
    objs['i.fails'] = ('fails', Fails(value=np.zeros(2)), lambda: [])
    if mode == 'image':
        stuck = BaseValue()
        stuck.value = lambda: 0
        objs['j.stuck'] = ('stuck', stuck, lambda: [])
        objs['j.half'] = ('stuck', [BaseValue(value=np.zeros(2)), stuck], lambda: [])
    return objs, fill


PARAMS = {'main': {'class': 'SimulParams', 'total_time': 1.0}, 'wfs': {'class': 'SH', 'inputs': {'in_ef': 'p.out'}},
          'src': {'class': 'Source', 'bad': object()}, 'store': {'class': 'DataStore', 'inputs': {'x': 'y'}},
          'gen': {'class': 'Wave', 'outputs': ['o']}, 'loose': {'root_dir': 'x'}}
SHOWN = sorted(['wfs', 'gen', 'loose'])


def case(rng, tid, beh=None):
    ds, api = install()
    mode = 'image' if beh else rng.choice(['image', 'data'])
    Channel.rng = random.Random(rng.random())
    FrontEnd.up, FrontEnd.got = True if beh else rng.random() < .85, []
    ds.time.now = clock0 = rng.randint(0, 5)
    ev, disp, clients = [], None, []
    state = dict(info=0)
    chans = []
    ds.mp.Queue = lambda: chans.append(Channel()) or chans[-1]
    try:
        from flask_socketio.test_client import SocketIOTestClient
        from specula.base_value import BaseValue
        if beh:
            b = BaseValue(value=np.zeros(1))
            objs, fill, count = {'v': ('one', b, lambda: [dict(s=[1], d=ints(b.value))])}, [], [0]

            def up():
                count[0] += 1
                b.value = np.array([float(count[0])])
            fill.append(up)
        else:
            objs, fill = make_objects(rng, mode)

        def ref(kind):
            def f(name):
                if name not in objs:
                    raise ValueError(name)
                if kind == ('output' if '.in_' in name else 'input'):
                    raise ValueError(name)
                return objs[name][1]
            return f
        with core.quiet():
            disp = ds.DisplayServer(dict(PARAMS), ref('input'), ref('output'), lambda: ('sim', str(state['info'])), port=5999, mode=mode)
        qout = disp.qout

        def settle(due=None, st=None):
            """Until nothing moves: everything expected has arrived, and the channel is at rest."""
            end, calm = time.monotonic() + 5, 0
            while time.monotonic() < end:
                done = qout.idle() and (due is None or all(len(clients[c]['tc'].queue) >= n for c, n in due.items())) \
                    and (st is None or not FrontEnd.up or len(FrontEnd.got) >= st)
                calm = calm + 1 if done else 0
                if calm > 3:
                    return
                time.sleep(.0005)
        waiting = []            # requests for the next step
        due, nst = {}, [0, 0, clock0]

        def seen(final=False):
            settle({c: n for c, n in due.items() if clients[c]['on']}, nst[0])
            if final:
                time.sleep(.02)
            got = [[c['c'], [x for x in map(message, list(c['tc'].queue)) if x]] for c in clients]
            st = []
            for d in list(FrontEnd.got):
                i, s = d['status'].split(' - ')
                st.append([int(i), int(round(float(s.split()[0]) * 100))] if d['name'] == 'sim' and d['port'] == 5999 else [-1, 0])
            ev.append(dict(k='seen', got=got, st=st))

        def connect():
            c = len(clients)
            tc = api.sio.test_client(api.app)
            clients.append(dict(c=c + 1, tc=tc, on=True))
            due[c] = 1
            ev.append(dict(k='on', c=c + 1))

        def ask(c, names):
            clients[c]['tc'].emit('newdata', names)
            waiting.append((c, names))
            ev.append(dict(k='ask', c=c + 1, names=names))

        def answers(name):
            if name not in objs:
                return 0 if mode == 'image' else 1
            return 0 if mode == 'image' and objs[name][0] in ('fails', 'stuck') else 1

        def step(dt):
            ds.time.now += dt
            state['info'] += 1
            for f in fill:
                f()
            before = {n: spec() for n, (k, o, spec) in objs.items()}
            nst[1] += 1
            if ds.time.now - nst[2] >= 1:
                nst[0], nst[2] = nst[0] + 1, ds.time.now
            failed = False
            with core.quiet():
                try:
                    disp.check_ready(0)
                    disp.trigger()
                    disp.post_trigger()
                except Exception:
                    failed = True
            for c, names in waiting:
                if clients[c]['on']:
                    due[c] += sum(map(answers, names)) + 2
            waiting.clear()
            whole = all(hasattr(x, 'xp') for _, o, _ in objs.values() for x in (o if isinstance(o, list) else [o]))
            ev.append(dict(k='step', clock=ds.time.now, info=state['info'], failed=failed, kept=whole and before == {n: s() for n, (_, _, s) in objs.items()},
                           objs=[[n, dict(k=k, a=before[n])] for n, (k, _, _) in objs.items()]))
        if beh:
            connect()
            connect()
            for e in beh:
                if e['k'] == 'ask':
                    ask(e['c'] - 1, list(e['names']))
                elif e['k'] == 'step':
                    step(e['dt'])
                else:
                    settle(due, None)
                    clients[1]['tc'].disconnect()
                    clients[1]['on'] = False
                    ev.append(dict(k='off', c=2))
        else:
            connect()
            for _ in range(rng.randint(3, 14)):
                u = rng.random()
                on = [c for c in range(len(clients)) if clients[c]['on']]
                if (u < .12 and len(clients) < 4) or not on:
                    connect()
                elif u < .17:
                    settle(due, None)
                    c = rng.choice(on)
                    clients[c]['tc'].disconnect()
                    clients[c]['on'] = False
                    ev.append(dict(k='off', c=c + 1))
                elif u < .5:
                    ask(rng.choice(on), [rng.choice(list(objs) + ['x.unknown', 'y.in_none']) for _ in range(rng.randint(0, 5))])
                elif u < .55 and mode == 'data':
                    settle(due, None)
                    c = rng.choice(on)
                    clients[c]['tc'].emit('get_params')
                    due[c] += 1
                    ev.append(dict(k='params', c=c + 1))
                elif u < .62:
                    seen()
                else:
                    step(rng.choice([0, 0, 0, 1, 2]))
            step(1)
        seen(True)
    except Exception as x:
        ev.append(dict(k='err', err=f'{type(x).__name__}: {x}'[:200]))
    finally:
        if disp is not None:
            disp.qout.put(('sim', None))
            time.sleep(.001)
        if getattr(api, 'server', None) is not None:
            q = getattr(api.server, 'status_queue', None)
            if q is not None and not isinstance(q, Channel):
                q.put(('sim', None))
        for c in chans:
            c.close()
        try:
            SocketIOTestClient.clients.clear()
        except Exception:
            pass
    return dict(id=tid, mode=mode, clock0=clock0, params=SHOWN, front=FrontEnd.up, ev=ev, replay=dict(mode=mode, behaviour=bool(beh)))


def run(seed, count, prefix=''):
    return [case(random.Random(f'{seed}.{k}'), f'{prefix}{seed}.{k}') for k in range(count)]


def replays(seed, behs, prefix=''):
    return [case(random.Random(f'{seed}.{k}'), f'{prefix}beh.{k}', json.loads(b)['h']) for k, b in behs]


def check(ctx):
    behs = sorted({json.dumps(b) for b in ctx.model_check('MCDisplay')})
    items = [(p, behs[p]) for p in ctx.rng.sample(range(len(behs)), min(ctx.n(400, 8000), len(behs)))]
    ts = sum(core.jobs('c23', 'replays', [(ctx.seed, items[j::4], '') for j in range(4)], 0), [])
    ts += core.spread(ctx, 'c23', 'run', ctx.n(900, 12000), 6)
    ctx.need(sum(len(t['ev']) > 4 for t in ts) > 500, 'runs')
    ctx.validate('DisplayTrace', ts)
    ctx.assumptions.append('stand-ins for the process, its queues, the web server loop, the front end and the figures; the Socket.IO server and its clients are real, in one process')
