"""Core of the simulator: contexts of runs, forked twins, trace points."""

import hashlib
import json
import os
import random
import select
import signal as _signal
import sys
import traceback

from . import seams

# Real functions, kept before any seam is installed.
_os_fork = os.fork
_exit = os._exit

def _fork():
    # The module random, with which SymPy shuffles, seeds itself anew in the
    # child; keep its state.
    state = random.getstate()
    pid = _os_fork()
    if pid == 0:
        random.setstate(state)
    return pid

class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__('%s: %s' % (cls, msg))
        self.cls = cls
        self.msg = msg

class Skip(Exception):
    """The case does not apply (for example, the model cannot be built)."""

class HarnessError(Exception):
    pass

class Ctx():
    """What one simulated run records."""
    def __init__(self):
        self.events = []
        self.faults = {}
        self.stats = {}
        self.simtime = 0.
        self.nontrivial = False
        self.distinct = set()
        self.check = 0
    def log(self, *items):
        self.events.append(' '.join(str(x) for x in items))
    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.nontrivial = True
    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n
    def state(self, *items):
        """A distinct state or interleaving that the run reached."""
        self.distinct.add(hashlib.sha1(repr(items).encode()).hexdigest()[:16])
    def fail(self, cls, msg):
        raise Violation(cls, msg)
    def expect(self, cond, cls, msg):
        self.stat('checks')
        if not cond:
            raise Violation(cls, msg if isinstance(msg, str) else msg())
    def absorb(self, other):
        """Add what a twin recorded (a dict from dump())."""
        self.events.extend(other['events'])
        for k, v in other['faults'].items():
            self.fault(k, v)
        for k, v in other['stats'].items():
            self.stat(k, v)
        self.simtime += other['simtime']
        self.nontrivial = self.nontrivial or other['nontrivial']
        self.distinct.update(other['distinct'])
    def dump(self):
        return {'events': self.events, 'faults': self.faults,
            'stats': self.stats, 'simtime': self.simtime,
            'nontrivial': self.nontrivial, 'distinct': sorted(self.distinct)}

def _write_all(fd, data):
    while data:
        n = os.write(fd, data)
        data = data[n:]

def _read_all(fd):
    chunks = []
    while True:
        c = os.read(fd, 1 << 16)
        if not c:
            return b''.join(chunks)
        chunks.append(c)

def twin(ctx, f, *args, keep=True):
    """Run f(ctx2, *args) in a forked copy of the process; JSON result.

    Whatever f does to objects, caches and random states is lost afterwards,
    so a twin is the same world in which another future happens.  With keep,
    results of pure functions that it computed are remembered."""
    (r, w) = os.pipe()
    sys.stdout.flush()
    start = len(seams.MEMO or ())
    pid = _fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            c2 = Ctx()
            try:
                res = ['ok', f(c2, *args)]
            except Violation as e:
                res = ['violation', e.cls, e.msg]
            except Skip as e:
                res = ['skip', str(e)]
            except BaseException as e:
                res = ['error', traceback.format_exc()]
            data = json.dumps([res, c2.dump(), seams.export_memo(start)]).encode()
            _write_all(w, data)
        except BaseException:
            code = 3
        finally:
            _exit(code)
    os.close(w)
    data = _read_all(r)
    os.close(r)
    (_pid, status) = os.waitpid(pid, 0)
    if status != 0 or not data:
        raise HarnessError('twin died: status %r' % (status,))
    (res, dump, memo) = json.loads(data.decode())
    if keep:
        seams.import_memo(memo)
    if ctx is not None:
        ctx.absorb(dump)
    if res[0] == 'ok':
        return res[1]
    if res[0] == 'violation':
        raise Violation(res[1], res[2])
    if res[0] == 'skip':
        raise Skip(res[1])
    raise HarnessError('twin failed:\n%s' % (res[1],))

def spread(jobs, f, n=8):
    """Do f(job) for all jobs in n forked copies; keep the results that the
    memo of pure functions gained there."""
    sys.stdout.flush()
    start = len(seams.MEMO or ())
    live = []
    for i in range(n):
        (r, w) = os.pipe()
        pid = _fork()
        if pid == 0:
            code = 3
            try:
                os.close(r)
                for job in jobs[i::n]:
                    f(job)
                _write_all(w, (seams.export_memo(start) or '').encode())
                code = 0
            finally:
                _exit(code)
        os.close(w)
        live.append((pid, r))
    for pid, r in live:
        data = _read_all(r)
        os.close(r)
        if os.waitpid(pid, 0)[1] != 0:
            raise HarnessError('warm-up failed')
        seams.import_memo(data.decode())

# ----------------------------------------------------------------------------
# Trace points: the places where the simulator can act inside an operation.

PREFIX = None               # directory of the package under test
MAGICS = None               # that of its notebook extension
_SCIPY = tuple('scipy%sstats%s%s.py' % (os.sep, os.sep, n) for n in
    ('_distn_infrastructure', '_continuous_distns', '_discrete_distns'))
_SYMBOLIC = (os.sep + 'sympy' + os.sep, os.sep + 'mpmath' + os.sep)

def set_prefix(path):
    global PREFIX, MAGICS
    PREFIX = path.rstrip(os.sep) + os.sep
    MAGICS = PREFIX + 'magics' + os.sep

def frame_kind(code):
    fn = code.co_filename
    if fn.startswith(PREFIX):
        return 'magics' if fn.startswith(MAGICS) else 'sppl'
    if fn.endswith(_SCIPY):
        return 'scipy'
    if _SYMBOLIC[0] in fn or _SYMBOLIC[1] in fn:
        return 'sympy'
    return 'other'

class Tracer():
    """Counts trace points and calls act(k, frame) at chosen ones.

    Points are the lines of frames whose kind is in lines, and the calls of
    frames whose kind is in calls."""
    def __init__(self, lines=('sppl',), calls=(), targets=(), act=None,
            record=False, limit=None):
        self.lines = frozenset(lines)
        self.calls = frozenset(calls)
        self.targets = dict(targets) if isinstance(targets, dict) \
            else {k: None for k in targets}
        self.act = act
        self.record = record
        self.sites = []
        self.k = 0
        self.kinds = {}
        self.limit = limit
        self.on = False
    def kind(self, code):
        r = self.kinds.get(code)
        if r is None:
            k = frame_kind(code)
            r = (k in self.lines, k in self.calls)
            self.kinds[code] = r
        return r
    def trace(self, frame, event, arg):
        if event != 'call':
            return None
        (line, call) = self.kind(frame.f_code)
        if call:
            self.hit(frame)
        if not line:
            return None
        last = [0]
        def local(frame, event, arg):
            # Not each turn of a loop within a line: whether it is reported
            # depends on when the interpreter compiles the loop.
            if event == 'line' and frame.f_lineno != last[0]:
                last[0] = frame.f_lineno
                self.hit(frame)
            return local
        return local
    def hit(self, frame):
        k = self.k
        self.k = k + 1
        if self.record:
            self.sites.append((frame.f_code.co_filename, frame.f_lineno))
        if k in self.targets:
            self.act(k, frame)
        if self.limit is not None and k > self.limit:
            raise StepLimit('more than %d steps' % (self.limit,))
    def start(self):
        self.on = True
        sys.settrace(self.trace)
    def stop(self):
        sys.settrace(None)
        self.on = False
    def run(self, f, *args, **kw):
        self.start()
        try:
            return f(*args, **kw)
        finally:
            self.stop()
            # A trace function that raises is unset by the interpreter.

class StepLimit(BaseException):
    pass

def site_name(site):
    fn = site[0]
    if PREFIX and fn.startswith(PREFIX):
        fn = fn[len(PREFIX):]
    else:
        fn = os.path.basename(fn)
    return '%s:%d' % (fn, site[1])

def pick_point(sites, spec):
    """Resolve the position of a fault among recorded trace points.

    spec is ['site', u, v]: the u-th of the distinct sites and the v-th of its
    occurrences; ['frac', u]: uniform over points; or ['abs', k]."""
    n = len(sites)
    if n == 0:
        return None
    if spec[0] == 'abs':
        return min(spec[1], n - 1)
    if spec[0] == 'frac':
        return min(int(spec[1]*n), n - 1)
    distinct = sorted(set(sites))
    site = distinct[min(int(spec[1]*len(distinct)), len(distinct) - 1)]
    ks = [k for k, s in enumerate(sites) if s == site]
    return ks[min(int(spec[2]*len(ks)), len(ks) - 1)]

def gen_point(rng):
    if rng.random() < .7:
        return ['site', rng.random(), rng.random()]
    return ['frac', rng.random()]

def raised_inside(e):
    """Whether an exception comes from the code under test, or below it."""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(PREFIX):
            return True
        tb = tb.tb_next
    return False
