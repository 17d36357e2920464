"""A stand-in for mpi4py: one forked process per rank, and a broker that routes their messages.

The broker implements the rules of MPI point-to-point communication (messages of one (source, destination, tag)
are received in the order they were sent; buffered sends do not block; receives and barriers do), records every
operation, and knows exactly when all ranks wait for something that cannot happen any more.

The process that calls run() must not have imported specula: each rank imports it by itself, with its own
rank and communicator.
"""
import os, pickle, random, select, signal, socket, struct, sys, time

ANY = -1


def preload():
    """Third-party modules, imported once before forking."""
    import numpy, scipy.signal, scipy.ndimage, scipy.special, scipy.interpolate, astropy.io.fits, yaml     # noqa
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot        # noqa
    os.environ['SPECULA_DISABLE_GPU'] = 'FALSE'
    try:
        import symao                # noqa
    except Exception:
        pass
    os.environ['SPECULA_DISABLE_GPU'] = 'TRUE'


def _put(sock, obj):
    b = pickle.dumps(obj)
    sock.sendall(struct.pack('!I', len(b)) + b)


def _read(sock, n):
    b = b''
    while len(b) < n:
        c = sock.recv(min(1 << 20, n - len(b)))
        if not c:
            raise EOFError
        b += c
    return b


def _get(sock):
    return pickle.loads(_read(sock, struct.unpack('!I', _read(sock, 4))[0]))


class Truncated(Exception):
    pass


class Request:
    def __init__(self, val=None):
        self.val = val

    def wait(self, status=None):
        return self.val

    Wait = wait

    def test(self, status=None):
        return True, self.val

    Test = test


class Comm:
    """What the code under test sees as its communicator."""

    def __init__(self, sock, rank, size):
        self.sock, self.rank, self.size = sock, rank, size

    def Get_rank(self):
        return self.rank

    def Get_size(self):
        return self.size

    # -- objects
    def _send(self, obj, dest, tag, sync):
        b = pickle.dumps(obj)
        _put(self.sock, ('send', int(dest), int(tag), 'obj', b, sync))
        if sync:
            _get(self.sock)

    def ibsend(self, obj, dest, tag=0):
        self._send(obj, dest, tag, False)
        return Request()

    isend = issend = ibsend

    def bsend(self, obj, dest, tag=0):
        self._send(obj, dest, tag, False)

    def send(self, obj, dest, tag=0):       # may wait for the receiver
        self._send(obj, dest, tag, True)

    ssend = send

    def recv(self, buf=None, source=ANY, tag=ANY, status=None):
        _put(self.sock, ('recv', int(source), int(tag), 'obj', 0))
        kind, data = _get(self.sock)
        if kind != 'obj':
            raise pickle.UnpicklingError('a buffer message was received as an object')
        return pickle.loads(data)

    def irecv(self, buf=None, source=ANY, tag=ANY):
        class R(Request):
            def wait(s, status=None):
                return self.recv(None, source, tag)
        return R()

    # -- buffers
    def _view(self, buf, write):
        if isinstance(buf, (list, tuple)):
            buf = buf[0]
        m = memoryview(buf)                 # TypeError without a buffer, as in mpi4py
        if not m.contiguous:
            raise ValueError('ndarray is not contiguous')
        if write and m.readonly:
            raise BufferError('buffer is read-only')
        return m, buf

    def _Send(self, buf, dest, tag, sync):
        m, buf = self._view(buf, False)
        b = m.tobytes('A')
        _put(self.sock, ('send', int(dest), int(tag), 'buf:' + m.format, b, sync))
        if sync:
            _get(self.sock)

    def Ibsend(self, buf, dest, tag=0):
        self._Send(buf, dest, tag, False)
        return Request()

    Isend = Issend = Ibsend

    def Bsend(self, buf, dest, tag=0):
        self._Send(buf, dest, tag, False)

    def Send(self, buf, dest, tag=0):
        self._Send(buf, dest, tag, True)

    Ssend = Send

    def Recv(self, buf, source=ANY, tag=ANY, status=None):
        import numpy as np
        m, buf = self._view(buf, True)
        _put(self.sock, ('recv', int(source), int(tag), 'buf:' + m.format, m.nbytes))
        kind, data = _get(self.sock)
        if len(data) > m.nbytes:
            raise Truncated('MPI_ERR_TRUNCATE: message truncated')
        a = np.asarray(buf)
        flat = a.reshape(-1, order='A') if a.ndim else a.reshape(1)
        raw = np.frombuffer(data, dtype=np.uint8)
        flat.view(np.uint8)[:len(raw)] = raw

    def barrier(self):
        _put(self.sock, ('barrier',))
        _get(self.sock)

    Barrier = barrier

    def Abort(self, code=1):
        os._exit(code)


def run(nranks, fn, seed=0, timeout=120):
    """Run fn(rank, comm) in one process per rank.  Returns (events, results, status): the communication log in the
    order in which the broker saw it, {rank: result or None}, {rank: 'end' | 'wait' | 'died'}."""
    rng = random.Random(seed)
    socks, pids = {}, {}
    for r in range(nranks):
        a, b = socket.socketpair()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                for s in socks.values():
                    s.close()
                a.close()
                out = fn(r, Comm(b, r, nranks))
                _put(b, ('end', out))
                code = 0
            except BaseException:
                import traceback
                try:
                    _put(b, ('died', traceback.format_exc()[-1500:]))
                except BaseException:
                    pass
            finally:
                os._exit(code)
        b.close()
        socks[r], pids[r] = a, pid
    chan = {}           # (src, dst, tag) -> [(id, kind, data, sync)]
    ev, results, status = [], {r: None for r in range(nranks)}, {r: 'run' for r in range(nranks)}
    waits = {}          # rank -> pending blocking operation
    nid = 0
    deadline = time.time() + timeout
    try:
        while any(s == 'run' for s in status.values()):
            live = [r for r in range(nranks) if status[r] == 'run']
            ready = select.select([socks[r] for r in live], [], [], max(0, min(5, deadline - time.time())))[0]
            if time.time() > deadline:
                for r in live:
                    status[r] = 'slow'
                break
            rng.shuffle(ready)
            for s in ready:
                r = next(q for q in live if socks[q] is s)
                try:
                    m = _get(s)
                except EOFError:
                    status[r] = 'died'
                    results[r] = 'process ended without a result'
                    continue
                if m[0] in ('end', 'died'):
                    status[r], results[r] = m[0], m[1]
                    continue
                if m[0] == 'send':
                    _, dst, tag, kind, data, sync = m
                    nid += 1
                    chan.setdefault((r, dst, tag), []).append((nid, kind, data, sync))
                    ev.append(dict(op='send', src=r, dst=dst, tag=tag, kind=kind, size=len(data), id=nid))
                    if sync:
                        status[r] = 'wait'
                        waits[r] = ('sync', nid)
                elif m[0] == 'recv':
                    status[r] = 'wait'
                    waits[r] = m
                else:
                    status[r] = 'wait'
                    waits[r] = m
            # what can go on now
            again = True
            while again:
                again = False
                for r in list(waits):
                    w = waits[r]
                    if w[0] != 'recv':
                        continue
                    _, src, tag, kind, size = w
                    ks = [k for k, q in chan.items() if k[1] == r and q and src in (ANY, k[0]) and tag in (ANY, k[2])]
                    if ks:
                        k = min(ks, key=lambda k: chan[k][0][0])
                        i, skind, data, sync = chan[k].pop(0)
                        ev.append(dict(op='recv', src=k[0], dst=r, tag=k[2], kind=kind, size=size, id=i))
                        del waits[r]
                        status[r] = 'run'
                        _put(socks[r], (skind, data) if kind == 'obj' else (skind, data))
                        if sync:
                            q = next((q for q, v in waits.items() if v == ('sync', i)), None)
                            if q is not None:
                                del waits[q]
                                status[q] = 'run'
                                _put(socks[q], 1)
                        again = True
                bar = [r for r in waits if waits[r][0] == 'barrier']
                if len(bar) == nranks:
                    ev.append(dict(op='barrier', src=0, dst=0, tag=0, kind='', size=0, id=0))
                    for r in bar:
                        del waits[r]
                        status[r] = 'run'
                        _put(socks[r], 1)
        for r, w in waits.items():
            if w[0] == 'recv':
                ev.append(dict(op='stuck', src=w[1], dst=r, tag=w[2], kind=w[3], size=w[4], id=0))
            else:
                ev.append(dict(op='stuck', src=r, dst=r, tag=0, kind=w[0], size=0, id=0))
        return ev, results, status
    finally:
        for r, p in pids.items():
            try:
                os.kill(p, signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(p, 0)
            except OSError:
                pass
            socks[r].close()


def renumber(logs, toks):
    """Logs of several processes, with the tokens of each replaced by tokens common to all.
    toks: {rank: [key, ...]} in order of numbering (token k is key k-1)."""
    common, out = {}, []

    def num(rank, key):
        if isinstance(key, tuple) and key and all(isinstance(k, int) for k in key):
            key = ('list',) + tuple(mapping[rank][k] for k in key)
        if key not in common:
            common[key] = len(common) + 1
        return common[key]
    mapping = {}
    for r, keys in toks.items():
        mapping[r] = {}
        for k, key in enumerate(keys):
            mapping[r][k + 1] = num(r, key)
    return mapping
