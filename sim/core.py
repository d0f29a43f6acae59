"""Deterministic simulator core.

One simulated machine room lives inside one OS process.  Every simulated
process ("proc") is a real Python thread that is parked at each intercepted
operation (file open/read/write/close, rename, directory listing, sub-process
call, sleep) and released one at a time by the scheduler below, so which proc
runs next, what a directory enumeration returns, when a fault fires and what
time it is are all decided by the plan (a JSON value derived from one seed).

The plan fully determines an execution; `Sim.trace` is the event log.
"""
import builtins
import copy
import errno
import functools
import glob as _glob
import hashlib
import io
import logging
import os
import random
import shutil
import subprocess
import sys
import threading
import time
import struct
import traceback
import types
import uuid
import warnings
import weakref

os.environ.setdefault('OMP_NUM_THREADS', '1')

import numpy as np
import torch

torch.set_num_threads(1)
warnings.filterwarnings('ignore')

REPO = os.environ.get('BEER_REPO', '/repo')

# ---------------------------------------------------------------------------
# Originals, kept before any patching.
_orig = {
    'open': builtins.open, 'scandir': os.scandir, 'listdir': os.listdir,
    'replace': os.replace, 'rename': os.rename, 'remove': os.remove,
    'unlink': os.unlink, 'mkdir': os.mkdir, 'sleep': time.sleep,
    'time': time.time, 'monotonic': time.monotonic,
    'perf_counter': time.perf_counter,
    'run': subprocess.run, 'check_output': subprocess.check_output,
    'Popen': subprocess.Popen, 'uuid4': uuid.uuid4, 'torch_save': torch.save,
    'system': os.system,
}

SIM = None            # the active simulator (None: everything passes through)


class SimKilled(BaseException):
    'The simulated process has been killed (SIGKILL: no handler may run).'


class HarnessError(Exception):
    'Something is wrong with the machinery itself (never a VIOLATION).'


class StepLimit(HarnessError):
    pass


# ---------------------------------------------------------------------------
# PRNG helper: independent streams derived from (seed, *labels).

def rng_for(seed, *labels):
    h = hashlib.sha256(('|'.join([str(seed)] + [str(x) for x in labels]))
                       .encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


# ---------------------------------------------------------------------------
# Process-wide mutable state that real processes do not share.

_SLOTS = None


class PerProcCache:
    'functools.lru_cache of which every simulated process has its own.'

    def __init__(self, cached):
        functools.update_wrapper(self, cached.__wrapped__)
        try:
            self.params = cached.cache_parameters()
        except AttributeError:
            self.params = {'maxsize': None, 'typed': False}
        self.caches = weakref.WeakKeyDictionary()
        self.own = self.fresh()

    def fresh(self):
        return functools.lru_cache(**self.params)(self.__wrapped__)

    def current(self):
        p = SIM.current if SIM is not None else None
        if p is None:
            return self.own
        if p not in self.caches:
            self.caches[p] = self.fresh()
        return self.caches[p]

    def __call__(self, *args, **kwargs):
        return self.current()(*args, **kwargs)

    def __get__(self, obj, typ=None):
        return self if obj is None else types.MethodType(self, obj)

    def cache_clear(self):
        self.current().cache_clear()

    def cache_info(self):
        return self.current().cache_info()

    def cache_parameters(self):
        return self.params

    def __reduce__(self):
        return self.__qualname__

    def __deepcopy__(self, memo):
        return self


def _dunder(name):
    return name.startswith('__') and name.endswith('__')


class Slots:
    """Everything module or class level of the code under test that a process
    can change: global names, class attributes, the containers they hold and
    those in default arguments, closures and function attributes."""

    def __init__(self):
        self.bindings = []         # (namespace owner, name)
        self.owners = []           # (owner, names at start)
        self.containers = []
        self.caches = []
        seen = set()

        def container(val):
            if isinstance(val, (dict, list, set)) and id(val) not in seen:
                seen.add(id(val))
                self.containers.append(val)

        def function(f):
            if not str(getattr(f, '__module__', '')).startswith('beer'):
                return
            for v in (f.__defaults__ or ()) + tuple((f.__kwdefaults__ or {}).values()):
                container(v)
            for cell in f.__closure__ or ():
                try:
                    v = cell.cell_contents
                except ValueError:
                    continue
                container(v)
                if isinstance(v, types.FunctionType) and id(v) not in seen:
                    seen.add(id(v))
                    function(v)
            container(f.__dict__)

        cached = {}

        def namespace(owner):
            ns = vars(owner)
            self.owners.append((owner, frozenset(ns)))
            for name, val in sorted(ns.items()):
                if _dunder(name):
                    continue
                raw = val.__func__ if isinstance(val, (staticmethod, classmethod)) \
                    else val.fget if isinstance(val, property) else val
                if hasattr(raw, 'cache_clear') and hasattr(raw, '__wrapped__') \
                        and not isinstance(raw, PerProcCache):
                    if id(raw) not in cached:
                        cached[id(raw)] = PerProcCache(raw)
                        self.caches.append(cached[id(raw)])
                    if raw is val:
                        setattr(owner, name, cached[id(raw)])
                        val = cached[id(raw)]
                    elif isinstance(val, (staticmethod, classmethod)):
                        setattr(owner, name, type(val)(cached[id(raw)]))
                    continue
                if isinstance(raw, types.FunctionType):
                    function(raw)
                elif isinstance(val, type):
                    if val.__module__.startswith('beer') and id(val) not in seen:
                        seen.add(id(val))
                        namespace(val)
                elif isinstance(val, (dict, list, set)):
                    container(val)
                elif not isinstance(val, (types.ModuleType, property,
                                          PerProcCache)):
                    self.bindings.append((owner, name))

        for name, mod in sorted(sys.modules.items()):
            if name == 'beer' or name.startswith('beer.'):
                namespace(mod)
        self.start = self.save()

    def fresh(self):
        'State of a process that just started.'
        boxes, values, _ = self.start
        plain = []
        for v in values:
            mod = type(v).__module__
            if mod.startswith(('beer', 'collections', 'weakref')):
                v = _deep(v)
            plain.append(v)
        return [_deep(b) for b in boxes], plain, []

    def save(self):
        boxes = [copy.copy(c) if c else None for c in self.containers]
        values = [vars(o).get(n, _GONE) for o, n in self.bindings]
        extra = []
        for o, names in self.owners:
            ns = vars(o)
            if len(ns) != len(names):
                extra += [(o, n, ns[n]) for n in ns if n not in names and
                          not _dunder(n) and
                          not isinstance(ns[n], types.ModuleType)]
        return boxes, values, extra

    def load(self, state):
        boxes, values, extra = state
        for c, content in zip(self.containers, boxes):
            _put(c, content)
        for (o, n), v in zip(self.bindings, values):
            if vars(o).get(n, _GONE) is not v:
                if v is _GONE:
                    delattr(o, n)
                else:
                    setattr(o, n, v)
        for o, names in self.owners:
            ns = vars(o)
            if len(ns) != len(names):
                for n in [n for n in ns if n not in names and
                          not _dunder(n) and
                          not isinstance(ns[n], types.ModuleType)]:
                    delattr(o, n)
        for o, n, v in extra:
            setattr(o, n, v)


_GONE = object()


def _deep(v):
    try:
        return copy.deepcopy(v)
    except Exception:
        return copy.copy(v)


def slots():
    global _SLOTS
    if _SLOTS is None:
        _SLOTS = Slots()
    return _SLOTS


def _put(container, content):
    if not content:
        if container:
            container.clear()
        return
    if isinstance(container, list):
        if len(container) != len(content) or \
                any(a is not b for a, b in zip(container, content)):
            container[:] = content
        return
    if isinstance(container, dict):
        if len(container) == len(content) and \
                all(a is b and container[a] is content[b]
                    for a, b in zip(container, content)):
            return
        container.clear()
        container.update(content)
        return
    if container != content:
        container.clear()
        container.update(content)


class ProcState:
    'Per simulated process copy of interpreter-wide state.'

    def __init__(self, seed, env=None):
        # A fresh process starts with arbitrary (but seeded) RNG state.
        r = rng_for(seed, 'rng')
        gen = torch.Generator()
        gen.manual_seed(r.getrandbits(62))
        self.torch = gen.get_state()
        self.np = np.random.RandomState(r.getrandbits(31)).get_state()
        self.py = random.Random(r.getrandbits(62)).getstate()
        self.argv = ['beer']
        self.stdin = io.StringIO('')
        self.stdout = io.StringIO()
        self.level = logging.INFO
        self.env = dict(env) if env is not None else None
        self.slots = slots().fresh()

    def load(self):
        torch.set_rng_state(self.torch)
        np.random.set_state(self.np)
        random.setstate(self.py)
        sys.argv, sys.stdin, sys.stdout = self.argv, self.stdin, self.stdout
        logging.getLogger().setLevel(self.level)
        if self.env is not None and dict(os.environ) != self.env:
            os.environ.clear()
            os.environ.update(self.env)
        slots().load(self.slots)

    def save(self):
        self.torch = torch.get_rng_state()
        self.np = np.random.get_state()
        self.py = random.getstate()
        self.level = logging.getLogger().level
        if self.env is not None:
            self.env = dict(os.environ)
        self.slots = slots().save()


class Host(ProcState):
    'State of the harness itself, restored whenever no proc is running.'

    def __init__(self):
        self.env = dict(os.environ)
        self.argv, self.stdin, self.stdout = sys.argv, sys.stdin, sys.stdout
        self.save()


class Proc:
    def __init__(self, sim, name, fn, seed, stdin='', env=None, key=None,
                 rngstate=None):
        self.sim, self.name, self.fn = sim, name, fn
        self.key = key or name
        self.state = ProcState(seed, env if env is not None else sim.base_env)
        if rngstate is not None:
            self.state.torch, self.state.np, self.state.py = rngstate
        self.state.stdin = stdin if hasattr(stdin, 'read') else io.StringIO(stdin)
        self.thread = None
        self.go = threading.Semaphore(0)
        self.dead = False
        self.done = False
        self.started = False
        self.code = None
        self.error = None
        self.tb = None
        self.exc = None
        self.value = None
        self.logs = []
        self.nops = 0
        self.opcls = {}
        self.wake = None           # virtual time at which it becomes runnable
        self.full = None           # persistent I/O error of that process
        self.faults = []           # faults still to fire
        self.fired = []
        self.open_for_write = set()
        self.on_exit = None
        self.started_at = self.ended_at = None

    @property
    def stdout(self):
        return self.state.stdout.getvalue()

    @property
    def ok(self):
        return self.code == 0

    @property
    def tainted(self):
        'A hard fault (kill or error return) was injected in this proc.'
        return any(f['kind'] not in SOFT for f in self.fired)

    def rngstate(self):
        return (self.state.torch, self.state.np, self.state.py)

    def __repr__(self):
        return f'<{self.name} code={self.code} err={self.error!r}>'


SOFT = ('short_read', 'short_write', 'stall')


class SimHandler(logging.Handler):
    def emit(self, record):
        if SIM is not None and SIM.current is not None:
            SIM.current.logs.append((record.levelname, record.getMessage()))


class Sim:
    def __init__(self, seed, root, sched=None, faults=(), maxsteps=200000,
                 opcounts=None):
        self.seed = seed
        self.root = os.path.abspath(root)
        self.sched = dict(sched or {'mode': 'fifo'})
        self.faults = [dict(f) for f in faults]
        self.procs = []
        self.current = None
        self.back = threading.Semaphore(0)
        self.now = 0.0
        self.steps = 0
        self.maxsteps = maxsteps
        self.trace = []
        self.picks = []
        self.opcounts = opcounts if opcounts is not None else {}
        self.fault_fired = {}
        self.fault_log = []
        self.ioops = 0
        self.rng_sched = rng_for(seed, 'sched')
        self.rng_dir = rng_for(seed, 'dir')
        self.rng_uuid = rng_for(seed, 'uuid')
        self.rng_cb = rng_for(seed, 'callbacks')
        self.shuffle_dirs = True
        self.commands = {}
        self.shell = None                    # simulated sub-processes
        self.base_env = dict(os.environ)
        self.cuda = None                     # simulated GPU hook
        self.prio = {}
        self.host = Host()
        self.switches = 0
        self.probes = {}
        self.listpos = 0
        self.loaded = None

    # -- context ----------------------------------------------------------
    def __enter__(self):
        global SIM
        if SIM is not None:
            raise HarnessError('nested simulators')
        install()
        SIM = self
        os.makedirs(self.root, exist_ok=True)
        return self

    def __exit__(self, *exc):
        global SIM
        try:
            for p in self.procs:        # abandon whatever is still parked
                if p.started and not p.done:
                    p.dead = True
                    self._resume(p)
        finally:
            SIM = None
            self.host.load()
        return False

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    # -- processes --------------------------------------------------------
    def spawn(self, name, fn, stdin='', key=None, on_exit=None, env=None,
              rngstate=None, delay=None):
        if any(p.name == name for p in self.procs):
            raise HarnessError(f'duplicate proc name {name}')
        p = Proc(self, name, fn, f'{self.seed}/{name}', stdin, env, key,
                 rngstate)
        p.on_exit = on_exit
        p.faults = [f for f in self.faults if f['proc'] == name]
        if delay:
            p.wake = self.now + delay
        self.procs.append(p)
        return p

    def _thread_main(self, p):
        p.go.acquire()
        try:
            if p.dead:
                raise SimKilled()
            p.value = p.fn()
            p.code = 0
        except SimKilled:
            p.code = -9
            p.error = 'killed'
        except SystemExit as e:
            p.code = 0 if e.code is None else (e.code if isinstance(e.code, int) else 1)
            if p.code:
                p.error = f'SystemExit({e.code})'
        except BaseException as e:          # noqa: any other way to die
            p.code = 1
            p.error = f'{type(e).__name__}: {e}'
            p.tb = traceback.format_exc(limit=-6)
            p.exc = e.with_traceback(None)
        finally:
            if p.dead:
                p.code = -9
            p.done = True
            p.ended_at = self.now
            self.opcounts.setdefault(p.key, p.nops) if p.code == 0 else None
            self.back.release()

    def _resume(self, p):
        prev = self.current
        self.current = p
        if self.loaded is not p:
            if self.loaded is not None:
                self.loaded.state.save()
            p.state.load()
            self.loaded = p
        else:
            st = p.state
            sys.argv, sys.stdin, sys.stdout = st.argv, st.stdin, st.stdout
        if not p.started:
            p.started = True
            p.started_at = self.now
            p.thread = threading.Thread(target=self._thread_main, args=(p,),
                                        daemon=True)
            p.thread.start()
        p.go.release()
        self.back.acquire()
        self.current = prev
        st = p.state
        st.argv, st.stdin, st.stdout = sys.argv, sys.stdin, sys.stdout
        self.host_load()
        if p.done:
            p.thread.join()
            st.save()
            self.loaded = None

    def host_load(self):
        h = self.host
        sys.argv, sys.stdin, sys.stdout = h.argv, h.stdin, h.stdout

    def _runnable(self):
        return [p for p in self.procs
                if not p.done and (p.wake is None or p.wake <= self.now)]

    def _pick(self, ready):
        mode = self.sched.get('mode', 'fifo')
        if len(ready) == 1:
            return ready[0]
        if mode == 'list':
            picks = self.sched['picks']
            while self.listpos < len(picks):
                want = picks[self.listpos]
                self.listpos += 1
                for p in ready:
                    if p.name == want:
                        return p
            return ready[0]
        if mode == 'uniform':
            p = self.rng_sched.choice(ready)
        elif mode == 'pct':
            for q in ready:
                if q.name not in self.prio:
                    self.prio[q.name] = self.rng_sched.random()
            p = max(ready, key=lambda q: self.prio[q.name])
            if self.rng_sched.random() < self.sched.get('change', 0.05):
                self.prio[p.name] = self.rng_sched.random() * \
                    min(self.prio[q.name] for q in ready)
        elif mode == 'lifo':
            p = ready[-1]
        else:
            p = ready[0]
        self.picks.append(p.name)
        return p

    def run(self, until=None):
        'Run the spawned processes until all of them ended.'
        last = None
        while True:
            live = [p for p in self.procs if not p.done]
            if not live:
                break
            ready = self._runnable()
            if not ready:
                self.now = min(p.wake for p in live)
                continue
            p = self._pick(ready)
            p.wake = None
            if last is not None and last is not p:
                self.switches += 1
            last = p
            self.steps += 1
            if self.steps > self.maxsteps:
                raise StepLimit(f'{self.maxsteps} steps')
            self._resume(p)
            if p.done and p.on_exit is not None:
                cb, p.on_exit = p.on_exit, None
                cb(p)

    # -- operations -------------------------------------------------------
    def rel(self, path):
        try:
            path = os.path.abspath(os.fsdecode(path))
        except TypeError:
            return None
        if path == self.root or path.startswith(self.root + os.sep):
            return os.path.relpath(path, self.root)
        return None

    def yield_(self, p):
        self.back.release()
        p.go.acquire()
        if p.dead:
            raise SimKilled()

    def op(self, cls, path, size=0):
        '''One intercepted operation of the running proc: a scheduling point,
        then possibly a fault.  Returns the fault to apply (or None).'''
        p = self.current
        if p.dead:
            raise SimKilled()
        n = p.nops
        p.nops += 1
        p.opcls[cls] = p.opcls.get(cls, 0) + 1
        self.ioops += 1
        self.yield_(p)
        self.now += 0.001
        fault = None
        for f in p.faults:
            if self._matches(f, p, cls, n):
                fault = f
                break
        self.trace.append((p.name, cls, path, size,
                           fault['kind'] if fault else ''))
        if fault is not None:
            p.faults.remove(fault)
            p.fired.append(fault)
            k = fault['kind']
            self.fault_fired[k] = self.fault_fired.get(k, 0) + 1
            self.fault_log.append({'proc': p.name, 'op': n, 'cls': cls,
                                   'path': path, 'kind': k})
            if k == 'stall':
                p.wake = self.now + fault.get('delay', 3600.)
                self.yield_(p)
                fault = None
            elif k == 'kill' and cls not in ('write',):
                self.kill(p)
            elif k == 'nomem':
                raise MemoryError('simulated allocation failure')
        return fault

    def kill(self, p):
        p.dead = True
        raise SimKilled()

    _APPLIES = {
        'kill': None, 'stall': None, 'nomem': None,
        'enospc': ('write',), 'eio_write': ('write',), 'close_err': ('wclose',),
        'eio_read': ('read',), 'eio_open': ('open', 'wopen'),
        'short_read': ('read',), 'short_write': ('write',),
        'enoent': ('open',),
    }

    def _matches(self, f, p, cls, n):
        applies = self._APPLIES[f['kind']]
        if applies is not None and cls not in applies:
            return False
        if 'n' in f:                      # n-th op of that class
            c = p.opcls.get(cls, 0) - 1 if applies is not None else n
            return c >= f['n']
        # position relative to the op count of the fault free command
        total = self.opcounts.get(p.key)
        if total is None:
            total = 12
        return n >= int(f['pos'] * total)

    # -- outcome ----------------------------------------------------------
    def fingerprint(self):
        h = hashlib.sha256()
        for e in self.trace:
            h.update(repr(e).encode())
        return h.hexdigest()[:16]

    def interleaving(self):
        h = hashlib.sha256()
        for e in self.trace:
            h.update(f'{e[0]}:{e[1]};'.encode())
        return h.hexdigest()[:16]


# ---------------------------------------------------------------------------
# Files: a raw (system call level) file with Python's own buffering on top.

class SimRaw(io.RawIOBase):
    def __init__(self, sim, proc, path, rel, flags, mode):
        self.sim, self.proc, self.rel_ = sim, proc, rel
        self.name = path
        self.mode = mode
        self._f = io.FileIO(path, flags)

    # The numpy fast paths write to the descriptor behind our back: make them
    # use the generic file protocol instead.
    def fileno(self):
        fr = sys._getframe(1)
        if fr.f_globals.get('__name__', '').startswith(('numpy', 'scipy', 'torch')):
            raise io.UnsupportedOperation('fileno')
        return self._f.fileno()

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return True

    def _live(self):
        return SIM is self.sim and self.sim.current is self.proc \
            and not self.proc.dead

    def readinto(self, b):
        if not self._live():
            if self.proc.dead:
                raise SimKilled()
            return self._f.readinto(b)
        f = self.sim.op('read', self.rel_, len(b))
        if f:
            if f['kind'] == 'eio_read':
                raise OSError(errno.EIO, 'Input/output error (simulated)', self.name)
            if f['kind'] == 'short_read' and len(b) > 1:
                n = max(1, int(len(b) * f.get('frac', .3)))
                return self._f.readinto(memoryview(b)[:n])
        return self._f.readinto(b)

    def write(self, b):
        b = memoryview(b).cast('B')
        n = len(b)
        if self.proc.dead:
            return n                    # user space buffers of a dead process
        if not self._live():
            return self._f.write(b)
        if n == 0:
            return 0
        p = self.proc
        f = self.sim.op('write', self.rel_, n)
        if f is None and p.full is not None:
            raise OSError(p.full, os.strerror(p.full) + ' (simulated)', self.name)
        if f:
            k = f['kind']
            part = int(n * f.get('frac', .5))
            if k == 'kill':
                self._f.write(b[:part])
                self.sim.kill(p)
            elif k in ('enospc', 'eio_write'):
                self._f.write(b[:part])
                p.full = errno.ENOSPC if k == 'enospc' else errno.EIO
                raise OSError(p.full, os.strerror(p.full) + ' (simulated)', self.name)
            elif k == 'short_write':
                return self._f.write(b[:max(1, part)])
        return self._f.write(b)

    def seek(self, off, whence=0):
        return self._f.seek(off, whence)

    def tell(self):
        return self._f.tell()

    def truncate(self, size=None):
        return self._f.truncate(size)

    def close(self):
        if self.closed:
            return
        err = None
        try:
            if self._f.writable() and self._live() and not _unwinding(self.proc):
                f = self.sim.op('wclose', self.rel_)
                if f and f['kind'] == 'close_err':
                    size = self._f.seek(0, 2)
                    self._f.truncate(int(size * f.get('frac', .5)))
                    err = OSError(errno.EIO, 'Input/output error (simulated)', self.name)
        finally:
            self._f.close()
            super().close()
        if err:
            raise err


def _unwinding(proc):
    return proc.dead


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
             newline=None, closefd=True, opener=None):
    sim = SIM
    if sim is None or sim.current is None or opener is not None \
            or isinstance(file, int):
        return _orig['open'](file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    rel = sim.rel(file)
    if rel is None:
        return _orig['open'](file, mode, buffering, encoding, errors, newline,
                             closefd, opener)
    p = sim.current
    if p.dead:
        raise SimKilled()
    binary = 'b' in mode
    flags = mode.replace('b', '').replace('t', '')
    wr = any(c in flags for c in 'wax+')
    f = sim.op('wopen' if wr else 'open', rel)
    path = os.fsdecode(file)
    if f and f['kind'] in ('eio_open', 'enoent'):
        code = errno.EIO if f['kind'] == 'eio_open' else errno.ESTALE
        raise OSError(code, os.strerror(code) + ' (simulated)', path)
    raw = SimRaw(sim, p, path, rel, flags, mode)
    if wr and '+' in flags:
        buf = io.BufferedRandom(raw)
    elif wr:
        buf = raw if (binary and buffering == 0) else io.BufferedWriter(raw)
    else:
        buf = raw if (binary and buffering == 0) else io.BufferedReader(raw)
    if binary:
        return buf
    return io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)


class _Scandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def close(self):
        pass


def _shuffled(sim, items, name):
    items = sorted(items, key=name)
    if sim.shuffle_dirs:
        sim.rng_dir.shuffle(items)
    return items


def sim_scandir(path='.'):
    sim = SIM
    if sim is None or sim.current is None or isinstance(path, int) or \
            sim.rel(path) is None:
        return _orig['scandir'](path)
    sim.op('listdir', sim.rel(path))
    with _orig['scandir'](path) as it:
        entries = list(it)
    return _Scandir(_shuffled(sim, entries, lambda e: os.fsdecode(e.name)))


def sim_listdir(path='.'):
    sim = SIM
    if sim is None or sim.current is None or isinstance(path, int) or \
            sim.rel(path) is None:
        return _orig['listdir'](path)
    sim.op('listdir', sim.rel(path))
    return _shuffled(sim, _orig['listdir'](path), os.fsdecode)


def _meta(name):
    orig = _orig[name]

    def wrapper(path, *args, **kwargs):
        sim = SIM
        if sim is not None and sim.current is not None:
            rel = sim.rel(path) if not isinstance(path, int) else None
            if rel is not None:
                if sim.current.dead:
                    raise SimKilled()
                sim.op(name, rel)
        return orig(path, *args, **kwargs)
    wrapper.__name__ = name
    return wrapper


def sim_sleep(secs):
    sim = SIM
    if sim is None or sim.current is None:
        return _orig['sleep'](secs)
    p = sim.current
    if p.dead:
        raise SimKilled()
    sim.trace.append((p.name, 'sleep', '', secs, ''))
    p.wake = sim.now + max(0., secs)
    sim.yield_(p)


def _clock(name):
    orig = _orig[name]

    def wrapper():
        sim = SIM
        if sim is None or sim.current is None:
            return orig()
        return 1.6e9 + sim.now if name == 'time' else sim.now
    return wrapper


_uuid_rng = random.Random(0)


def sim_uuid4():
    rng = _uuid_rng if SIM is None else SIM.rng_uuid
    return uuid.UUID(int=rng.getrandbits(128), version=4)


class SimSet(set):
    '''A set whose iteration order is the simulator's choice (a real set
    orders bound methods by memory address).'''

    def __init__(self, items=()):
        items = list(items)
        set.__init__(self, items)
        self._order = items           # insertion order, the canonical one

    def add(self, item):
        if not set.__contains__(self, item):
            self._order.append(item)
        set.add(self, item)

    def _items(self):
        known = [x for x in self._order if set.__contains__(self, x)]
        if len(known) != len(self):
            known += sorted((x for x in set.__iter__(self) if x not in known),
                            key=repr)
        return known

    def __iter__(self):
        items = self._items()
        if len(items) > 1 and SIM is not None:
            SIM.rng_cb.shuffle(items)
            SIM.probe('callback order drawn')
        return iter(items)

    def __reduce__(self):
        return type(self), (self._items(),)


def _patch_parameters():
    from beer.models import parameters
    cls = parameters.BayesianParameter
    init = cls.__init__

    def __init__(self, *args, **kwargs):
        init(self, *args, **kwargs)
        for name, val in list(self.__dict__.items()):
            if type(val) is set and not val:
                self.__dict__[name] = SimSet()
    if init.__name__ == '__init__' and not getattr(init, 'simulated', False):
        __init__.simulated = True
        cls.__init__ = __init__


def fresh_interpreter(seed=0):
    'Put the interpreter-wide state of the harness itself at a fixed point.'
    global _uuid_rng
    _uuid_rng = random.Random(seed)
    torch.manual_seed(seed)
    np.random.seed(seed)
    random.seed(seed)
    slots().load(slots().fresh())
    for c in slots().caches:
        c.own = c.fresh()


def clean_scratch(pid):
    'Remove what a killed worker left behind.'
    base = scratch_base()
    for name in _orig['listdir'](base):
        if name.startswith('beersim-%08d-' % pid):
            shutil.rmtree(os.path.join(base, name), ignore_errors=True)


def sim_torch_save(obj, f, *args, **kwargs):
    sim = SIM
    if sim is None or sim.current is None or not isinstance(f, (str, os.PathLike)) \
            or sim.rel(f) is None:
        return _orig['torch_save'](obj, f, *args, **kwargs)
    buf = io.BytesIO()
    # The C++ writer creates the file first, then streams the archive.
    with builtins.open(f, 'wb') as out:
        _orig['torch_save'](obj, buf, *args, **kwargs)
        out.write(buf.getvalue())


def _patch_storage_key():
    '''torch names a pickled storage after its address.  The name means
    nothing outside of that pickle; make it constant so that the length of a
    file does not depend on the memory layout.'''
    cls = torch.storage.TypedStorage
    reduce = cls.__reduce__

    def __reduce__(self):
        fn, args = reduce(self)
        key = str(self._untyped_storage._cdata).encode()
        if len(args) == 1 and isinstance(args[0], bytes):
            args = (args[0].replace(struct.pack('<I', len(key)) + key,
                                    struct.pack('<I', 16) + b'0' * 16),)
        return fn, args
    cls.__reduce__ = __reduce__


def _shell(cmd):
    'Returns (code, stdout bytes, stderr bytes) of a simulated command.'
    sim = SIM
    p = sim.current
    if p.dead:
        raise SimKilled()
    if isinstance(cmd, (list, tuple)):
        cmd = ' '.join(str(c) for c in cmd)
    shown = cmd.replace(sim.root, '.')
    sim.op('exec', shown if len(shown) < 80 else shown[:80])
    if sim.shell is None:
        return 127, b'', b'command not found (simulated)'
    return sim.shell(p, cmd)


def sim_run(*popenargs, input=None, capture_output=False, timeout=None,
            check=False, **kw):
    sim = SIM
    if sim is None or sim.current is None:
        return _orig['run'](*popenargs, input=input, timeout=timeout,
                            capture_output=capture_output, check=check, **kw)
    cmd = popenargs[0] if popenargs else kw.get('args')
    code, out, err = _shell(cmd)
    text = kw.get('text') or kw.get('universal_newlines') or kw.get('encoding')
    if text:
        out, err = out.decode(), err.decode()
    want_out = capture_output or kw.get('stdout') == subprocess.PIPE
    want_err = capture_output or kw.get('stderr') == subprocess.PIPE
    res = subprocess.CompletedProcess(cmd, code, out if want_out else None,
                                      err if want_err else None)
    if check:
        res.check_returncode()
    return res


def sim_check_output(*popenargs, **kw):
    sim = SIM
    if sim is None or sim.current is None:
        return _orig['check_output'](*popenargs, **kw)
    kw.pop('stdout', None)
    return sim_run(*popenargs, stdout=subprocess.PIPE, check=True, **kw).stdout


class SimPopen:
    def __new__(cls, *args, **kw):
        sim = SIM
        if sim is None or sim.current is None:
            return _orig['Popen'](*args, **kw)
        return object.__new__(cls)

    def __init__(self, args, **kw):
        self.args = args
        text = kw.get('text') or kw.get('universal_newlines') or kw.get('encoding')
        code, out, err = _shell(args)
        self._code, self.returncode = code, None
        self._out = out.decode() if text else out
        self._err = err.decode() if text else err
        wrap = io.StringIO if text else io.BytesIO
        self.stdout = wrap(self._out) if kw.get('stdout') == subprocess.PIPE else None
        self.stderr = wrap(self._err) if kw.get('stderr') == subprocess.PIPE else None
        self.stdin = None
        self.pid = 4242

    def communicate(self, input=None, timeout=None):
        self.returncode = self._code
        return (self.stdout.read() if self.stdout else None,
                self.stderr.read() if self.stderr else None)

    def wait(self, timeout=None):
        self.returncode = self._code
        return self._code

    def poll(self):
        self.returncode = self._code
        return self._code

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.wait()
        return False


def sim_system(cmd):
    sim = SIM
    if sim is None or sim.current is None:
        return _orig['system'](cmd)
    return _shell(cmd)[0]


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.scandir = sim_scandir
    os.listdir = sim_listdir
    for name in ('replace', 'rename', 'remove', 'unlink', 'mkdir'):
        setattr(os, name, _meta(name))
    time.sleep = sim_sleep
    for name in ('time', 'monotonic', 'perf_counter'):
        setattr(time, name, _clock(name))
    uuid.uuid4 = sim_uuid4
    torch.save = sim_torch_save
    torch.serialization.save = sim_torch_save
    _patch_storage_key()
    subprocess.run = sim_run
    subprocess.check_output = sim_check_output
    subprocess.Popen = SimPopen
    os.system = sim_system
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(SimHandler())
    root.setLevel(logging.INFO)
    logging.raiseExceptions = False


# ---------------------------------------------------------------------------
# Scratch directories.

_scratch_n = 0


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return '.'


class Scratch:
    'A private directory with a fixed length name, removed at exit.'

    def __enter__(self):
        global _scratch_n
        while True:
            _scratch_n += 1
            self.path = os.path.join(scratch_base(), 'beersim-%08d-%06d' %
                                     (os.getpid(), _scratch_n))
            try:
                _orig['mkdir'](self.path)
                return self.path
            except FileExistsError:
                continue

    def __exit__(self, *exc):
        shutil.rmtree(self.path, ignore_errors=True)
        return False
