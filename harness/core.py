"""Common machinery of the checks: contexts, TLC runs, verdicts, evidence, known findings.

A check is a Python module harness/cXX.py with a function check(ctx).  It
  * optionally model-checks closed specifications          ctx.model_check(...)
  * records traces from the real code and lets TLC judge   ctx.validate(...)
  * TLC alone decides: a trace is accepted only if the trace specification prints an empty verdict for it.
"""
import contextlib, io, json, linecache, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('SPECULA_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
PY = sys.executable
BADINT = 2000000001          # stands for "not an exactly representable integer"


class HarnessError(Exception):
    pass


class CodeFailure(Exception):
    """The code under test raised an error in a situation in which the specification admits none."""


def blame(exc):
    """Traceback text if the error arose in the code under test (called from a harness that expects success), else None."""
    tb = exc.__traceback__
    where = ''
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(os.path.abspath(REPO) + os.sep):
            where = 'code'
        elif f.startswith(VERIF + os.sep) and os.sep + 'fakegpu' + os.sep not in f:
            where = 'harness'
            # a declared input or output the object does not have
            if isinstance(exc, KeyError) and tb.tb_next is None:
                line = linecache.getline(f, tb.tb_lineno)
                if '.inputs[' in line or '.outputs[' in line:
                    where = 'code'
        tb = tb.tb_next
    return ''.join(traceback.format_exception(exc))[-3000:] if where == 'code' else None


# ------------------------------------------------------------------ encoding of values
def enc(v, scale=1):
    """number -> TLC integer (v*scale must be integral and small), otherwise the sentinel."""
    try:
        if v is None:
            return BADINT + 1
        c = complex(v)
        if c.imag != 0:
            return BADINT + 2
        x = c.real * scale
        if x != x or abs(x) >= 2**31 - 1 - 64:
            return BADINT
        r = round(x)
        return int(r) if r == x else BADINT
    except Exception:
        return BADINT + 3


def vec(a, scale=1):
    """array-like -> flat list of TLC integers; None -> ["none" marker list]."""
    import numpy as np
    if a is None:
        return [BADINT + 1]
    return [enc(x, scale) for x in np.asarray(a).ravel().tolist()]


# ------------------------------------------------------------------ output control
@contextlib.contextmanager
def quiet():
    """Swallow the prints of the code under test."""
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield buf


_ready = False


def specula_init(precision=0, **kw):
    """Import specula from the working tree under test and initialise it on the CPU."""
    global _ready
    os.environ.setdefault('SPECULA_DISABLE_GPU', 'TRUE')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import specula
    if not os.path.abspath(specula.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise HarnessError(f'specula imported from {specula.__file__}, not from {REPO}')
    with quiet():
        specula.init(-1, precision=precision, **kw)
    _ready = True
    return specula


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.rng = random.Random(f'{prop}-{self.seed}')
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f'verif-{prop}-')
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.mc_runs = []
        self.clauses = {}
        self.samples = []
        self.violations = []
        self.known_seen = {}
        self.assumptions = []
        self.notes = {}
        self.known = load_known(prop)
        self.level = 'model_checking'
        self.batch = 0

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=4, extra=(), timeout=840, heap='4g'):
        self.batch += 1
        meta = os.path.join(self.tmp, f'meta{self.batch}')
        cmd = ['java', f'-Xmx{heap}', '-Xss64m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=4',
               '-cp', JARS, 'tlc2.TLC', '-metadir', meta, '-workers', str(workers),
               '-config', (cfg or module) + '.cfg', *extra, module + '.tla']
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise HarnessError(f'TLC timed out on {module}')
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r'^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out, re.M)
        gen, dist = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        return r.returncode, out, gen, dist, r.stderr

    def model_check(self, module, cfg=None, env=None, workers=4, timeout=840, want=None, minstates=2, heap='4g'):
        """Exhaustively check a closed model.  A failure here is an error of the specification,
        not of the code, so it ends the check without a verdict."""
        rc, out, gen, dist, err = self.tlc(module, cfg, env, workers, ('-deadlock',), timeout, heap)
        if rc != 0 or 'No error has been found' not in out:
            raise HarnessError(f'model {module}/{cfg} failed:\n{out[-3000:]}\n{err[-500:]}')
        if dist < minstates:
            raise HarnessError(f'model {module}/{cfg} is vacuous: {dist} states')
        self.states += dist
        self.transitions += gen
        self.mc_runs.append(dict(model=cfg or module, distinct_states=dist, states_generated=gen))
        beh = []
        for l in out.splitlines():
            if l.startswith('"BEH ') or l.startswith('BEH '):
                s = json.loads(l) if l.startswith('"') else l
                beh.append(json.loads(s[4:]))
        return beh

    def validate(self, module, traces, workers=4, cover=(), heap='6g', chunk=4000, cfg=None):
        """Let TLC judge a batch of recorded traces against <module>.tla.
        traces: list of dicts with key 'id' (unique string), 'ev' (non-empty list), plus anything the
        specification reads.  Optional 'key' (stable identity for known findings), 'replay' (anything).
        """
        if not traces:
            raise HarnessError(f'no traces for {module}')
        ids = [t['id'] for t in traces]
        if len(set(ids)) != len(ids):
            raise HarnessError('duplicate trace ids')
        if len(self.samples) < 4:
            self.samples.append(dict(spec=module, trace=strip(traces[len(traces) // 2])))
        res = {}
        for c in range(0, len(traces), chunk):
            part = traces[c:c + chunk]
            res.update(self._validate(module, part, workers, heap, cfg))
        bad = []
        for t in traces:
            step, clause = res[t['id']]
            if clause:
                bad.append((t, step, clause))
                self.violation(t, step, clause, module)
        self.traces += len(traces)
        return bad

    def _validate(self, module, traces, workers, heap, cfg=None, depth=0):
        self.batch += 1
        path = os.path.join(self.tmp, f'traces{self.batch}.json')
        with open(path, 'w') as f:
            json.dump([strip(t) for t in traces], f)
        rc, out, gen, dist, err = self.tlc(module, cfg, {'TRACES': path}, workers, ('-deadlock',), heap=heap)
        res = {}
        for m in re.finditer(r'<<\s*"VERDICT",\s*"([^"]*)",\s*(\d+),\s*"([^"]*)"\s*>>', out):
            res[m.group(1)] = (int(m.group(2)), m.group(3))
            c = m.group(3) or 'accepted'
            self.clauses[c] = self.clauses.get(c, 0) + 1
        self.states += dist
        self.transitions += gen
        missing = [t for t in traces if t['id'] not in res]
        if missing:
            if 'Parsing or semantic analysis failed' in out:
                raise HarnessError(out[-3000:])
            if len(traces) == 1:
                msg = ' '.join(out[-1500:].split())
                if 'evaluating' in out or 'Attempted' in out or 'attempt' in out.lower() or 'In evaluation' in out:
                    res[missing[0]['id']] = (0, 'the specification cannot interpret what the code did')
                    self.notes['uninterpretable'] = msg[-700:]
                    return res
                raise HarnessError(f'TLC gave no verdict on {module}:\n{out[-3000:]}\n{err[-1000:]}')
            # isolate the trace(s) TLC cannot evaluate
            if depth > 40:
                raise HarnessError(f'TLC cannot judge traces of {module}:\n{out[-3000:]}')
            if len(missing) > 1:
                h = len(missing) // 2
                for part in (missing[:h], missing[h:]):
                    res.update(self._validate(module, part, workers, heap, cfg, depth + 1))
            else:
                res.update(self._validate(module, missing, workers, heap, cfg, depth + 1))
        return res

    # -------------------------------------------------------------- verdicts
    def violation(self, trace, step, clause, module):
        key = trace.get('key', '')
        for k in self.known:
            if k['key'] == key and (not k.get('clause') or k['clause'] == clause):
                self.known_seen[k['key']] = k
                return
        self.violations.append(dict(trace=trace, step=step, clause=clause, spec=module))

    def require(self, cond, what):
        """Vacuity guard of the harness itself."""
        if not cond:
            raise HarnessError('vacuous: ' + what)

    def need(self, cond, what):
        """Something the code does in every exploration of the unchanged tree, so that the judgements are about something."""
        if not cond:
            self.violation(dict(id='missing-' + re.sub(r'\W+', '-', what)[:40], what=what), 0, 'the code does not do what is explored: ' + what, 'harness')

    def finish(self):
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                samples=self.samples[:4] or ['none'],
                                models=self.mc_runs, verdicts=self.clauses, **self.notes),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        rc = 0
        if self.violations:
            rc = 1
            d = os.path.join(VERIF, 'evidence', 'replay')
            os.makedirs(d, exist_ok=True)
            seen = {}
            for v in self.violations:
                c = v['clause']
                seen[c] = seen.get(c, 0) + 1
                if seen[c] > 3:
                    continue
                p = os.path.join(d, f"{self.prop}-{re.sub('[^A-Za-z0-9]+', '_', v['trace']['id'])[:60]}.json")
                with open(p, 'w') as f:
                    json.dump(v, f, indent=1, default=str)
                print(f"  trace {v['trace']['id']}: step {v['step']}: {c}")
                print(f"VIOLATION property={self.prop} replay={p}", flush=True)
            for c, k in seen.items():
                print(f'  {k} trace(s) rejected: {c}')
        print(f"{self.prop} {self.tier}: states={self.states} traces={self.traces} "
              f"violations={len(self.violations)} wall={time.time() - self.t0:.1f}s", flush=True)
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc


def strip(t):
    return {k: v for k, v in t.items() if k not in ('replay', 'key')}


def load_known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+)(?: clause="([^"]*)")? (.*)', l.strip())
            if m and m.group(1) == prop:
                out.append(dict(key=m.group(2), clause=m.group(3), what=m.group(4)))
    return out


def main(prop, fn):
    ctx = Ctx(prop)
    try:
        try:
            fn(ctx)
        except HarnessError:
            raise
        except Exception as e:
            b = str(e) if isinstance(e, CodeFailure) else blame(e)
            if not b:
                raise
            ctx.violation(dict(id='failure', traceback=b), 0, 'the code failed where it must not: ' + b.strip().splitlines()[-1][:120], 'harness')
        rc = ctx.finish()
    except HarnessError as e:
        print('HARNESS ERROR:', e)
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        sys.stdout.flush()
        os._exit(2)
    except Exception:
        traceback.print_exc()
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        sys.stdout.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(rc)


# ------------------------------------------------------------------ worker processes
def jobs(module, fn, argslist, precision=0, width=6, timeout=800, gpu=False, init=True):
    """Run module.fn(*args) for every args in fresh processes; results in order.
    fn must return something JSON can carry."""
    env = dict(os.environ)
    if gpu:         # with the stand-in for cupy
        env['SPECULA_DISABLE_GPU'] = 'FALSE'
        env['PYTHONPATH'] = os.path.join(VERIF, 'harness', 'fakegpu')
    code = ("import sys, json; sys.dont_write_bytecode = True; sys.path.insert(0, %r); import core; "
            "%s import importlib; m = importlib.import_module(%r); "
            "a = json.load(open(sys.argv[1]))\n"
            "try:\n"
            "    r = getattr(m, %r)(*a)\n"
            "except Exception as x:\n"
            "    b = str(x) if isinstance(x, core.CodeFailure) else core.blame(x)\n"
            "    if not b: raise\n"
            "    r = dict(code_failure=b)\n"
            "json.dump(r, open(sys.argv[2], 'w'))"
            % (os.path.join(VERIF, 'harness'), f'core.specula_init(precision={precision});' if init else '', module, fn))
    d = tempfile.mkdtemp(prefix='verif-jobs-')
    out, running, todo = [None] * len(argslist), {}, list(range(len(argslist)))
    end = time.time() + timeout
    try:
        while todo or running:
            while todo and len(running) < width:
                k = todo.pop(0)
                a, o = os.path.join(d, f'a{k}'), os.path.join(d, f'o{k}')
                with open(a, 'w') as f:
                    json.dump(argslist[k], f)
                log = open(os.path.join(d, f'l{k}'), 'w')
                running[k] = (subprocess.Popen([PY, '-c', code, a, o], stdout=log, stderr=log, env=env), log)
            for k, (p, log) in list(running.items()):
                if p.poll() is not None:
                    log.close()
                    del running[k]
                    o = os.path.join(d, f'o{k}')
                    if p.returncode != 0 or not os.path.exists(o):
                        raise HarnessError(f'worker {module}.{fn} failed:\n' + open(os.path.join(d, f'l{k}')).read()[-3000:])
                    out[k] = json.load(open(o))
                    if isinstance(out[k], dict) and 'code_failure' in out[k]:
                        raise CodeFailure(out[k]['code_failure'])
            if time.time() > end:
                raise CodeFailure(f'the code does not come to an end within {timeout} s: {module}.{fn}')
            time.sleep(0.02)
    finally:
        for p, log in running.values():
            p.kill()
        shutil.rmtree(d, ignore_errors=True)
    return out


def spread(ctx, module, fn, total, parts=6, precision=0, prefix='', gpu=False, init=True):
    """Generate about `total` traces with module.fn(seed, count, prefix) in parallel processes."""
    parts = max(1, min(parts, total))
    per = -(-total // parts)
    a = [[ctx.rng.randrange(2**31), per, f'{prefix}{k}.'] for k in range(parts)]
    return [t for r in jobs(module, fn, a, precision, gpu=gpu, init=init) for t in r]
