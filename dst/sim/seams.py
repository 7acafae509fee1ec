"""Seams between SPPL and the world, owned by the simulator when a World is
active; otherwise every call goes to the real function."""

import base64
import pickle
import signal
import sys
import threading
import time

REAL = {}
WORLD = None                # the active World

class Killed(BaseException):
    """The default action of a signal would have ended the process."""

class StallForever(BaseException):
    """A stalled solve was never abandoned."""

class World():
    """Simulated clock, interval timer and signal handlers."""
    def __init__(self, ctx=None, handler=signal.SIG_DFL, start=1000.):
        self.ctx = ctx
        self.now = start
        self.start = start
        self.handler = handler      # of SIGALRM
        self.deadline = None        # of ITIMER_REAL
        self.interval = 0.
        self.masked = False
        self.pending = False
        self.log = []               # timer operations and deliveries
        self.ops = 0                # calls of a seam
        self.delivering = 0
        self.wall = None            # hook on reads of the wall clock
        self.reads = 0
        self.tick = 1e-6
        self.solve = None           # hook on symbolic solving
        self.depth = 0
    def __enter__(self):
        global WORLD
        assert WORLD is None
        WORLD = self
        return self
    def __exit__(self, *args):
        global WORLD
        WORLD = None
        if self.ctx is not None:
            self.ctx.simtime += self.now - self.start
    def read(self):
        self.reads += 1
        self.ops += 1
        self.now += self.tick
        return self.now
    # Timers.
    def remaining(self):
        if self.deadline is None:
            return 0.
        return max(self.deadline - self.now, 1e-6)
    def setitimer(self, seconds, interval=0.):
        # Any kind of number.
        (seconds, interval) = (float(seconds), float(interval))
        if seconds < 0 or interval < 0:
            raise signal.itimer_error(22, 'Invalid argument')
        self.ops += 1
        old = (self.remaining(), self.interval)
        self.deadline = None if seconds == 0 else self.now + seconds
        self.interval = interval if seconds else 0.
        self.log.append(('set', round(self.now - self.start, 4), round(seconds, 4)))
        return old
    def advance(self, dt, frame=None):
        """Let time pass; deliver the alarms that fall due on the way."""
        until = self.now + dt
        n = 0
        while self.deadline is not None and self.deadline <= until and n < 1000:
            n += 1
            self.now = max(self.now, self.deadline)
            self.deadline = self.now + self.interval if self.interval else None
            self.deliver(frame)
        self.now = max(self.now, until)
    def poll(self, frame=None):
        if self.deadline is not None and self.deadline <= self.now:
            self.advance(0., frame)
    def deliver(self, frame=None):
        if self.masked:
            self.pending = True
            return
        h = self.handler
        self.log.append(('alarm', round(self.now - self.start, 4),
            h if isinstance(h, int) else getattr(h, '__qualname__', 'handler')))
        if h == signal.SIG_DFL or h is None:
            raise Killed('SIGALRM with the default action')
        if h == signal.SIG_IGN:
            return
        h(signal.SIGALRM, frame)

def _main():
    return threading.current_thread() is threading.main_thread()

def _is_alarm(s):
    return int(s) == int(signal.SIGALRM)

def _signal(signum, handler):
    if WORLD is None or not _is_alarm(signum):
        return REAL['signal'](signum, handler)
    if not _main():
        raise ValueError('signal only works in main thread of the main interpreter')
    if not callable(handler) and handler not in (signal.SIG_DFL, signal.SIG_IGN):
        raise TypeError('signal handler must be signal.SIG_IGN, '
            'signal.SIG_DFL, or a callable object')
    old = WORLD.handler
    WORLD.handler = handler
    WORLD.ops += 1
    WORLD.log.append(('handler', round(WORLD.now - WORLD.start, 4)))
    return old

def _getsignal(signum):
    if WORLD is None or not _is_alarm(signum):
        return REAL['getsignal'](signum)
    WORLD.ops += 1
    return WORLD.handler

def _alarm(seconds):
    if WORLD is None:
        return REAL['alarm'](seconds)
    (left, _i) = WORLD.setitimer(int(seconds))
    return 0 if not left else max(1, int(left + .5))

def _setitimer(which, seconds, interval=0.):
    if WORLD is None:
        return REAL['setitimer'](which, seconds, interval)
    if which != signal.ITIMER_REAL:
        return (0., 0.)
    return WORLD.setitimer(seconds, interval)

def _getitimer(which):
    if WORLD is None:
        return REAL['getitimer'](which)
    if which != signal.ITIMER_REAL:
        return (0., 0.)
    return (WORLD.remaining(), WORLD.interval)

def _pthread_sigmask(how, mask):
    if WORLD is None:
        return REAL['pthread_sigmask'](how, mask)
    old = {signal.SIGALRM} if WORLD.masked else set()
    has = any(_is_alarm(s) for s in mask)
    if how == signal.SIG_BLOCK:
        WORLD.masked = WORLD.masked or has
    elif how == signal.SIG_UNBLOCK:
        WORLD.masked = WORLD.masked and not has
    else:
        WORLD.masked = has
    if WORLD.pending and not WORLD.masked:
        WORLD.pending = False
        WORLD.deliver(sys._getframe(1))
    return old

def _clock(name, scale=1):
    # A monotonic clock.
    def f():
        if WORLD is None:
            return REAL[name]()
        t = WORLD.read()
        return t if scale == 1 else int(t*scale)
    f.__name__ = name
    return f

def _wall(name, scale=1):
    # The wall clock, which may jump.
    def f():
        if WORLD is None:
            return REAL[name]()
        t = WORLD.read() if WORLD.wall is None else WORLD.wall()
        return t if scale == 1 else int(t*scale)
    f.__name__ = name
    return f

def _sleep(seconds):
    if WORLD is None:
        return REAL['sleep'](seconds)
    WORLD.advance(seconds, sys._getframe(1))

def install_time():
    for m, names in ((signal, ('signal', 'getsignal', 'alarm', 'setitimer',
            'getitimer', 'pthread_sigmask')),
            (time, ('time', 'monotonic', 'perf_counter', 'process_time',
                'time_ns', 'monotonic_ns', 'perf_counter_ns', 'sleep'))):
        for n in names:
            REAL[n] = getattr(m, n)
    signal.signal = _signal
    signal.getsignal = _getsignal
    signal.alarm = _alarm
    signal.setitimer = _setitimer
    signal.getitimer = _getitimer
    signal.pthread_sigmask = _pthread_sigmask
    time.time = _wall('time')
    time.time_ns = _wall('time_ns', 10**9)
    time.monotonic = _clock('monotonic')
    time.perf_counter = _clock('perf_counter')
    time.process_time = _clock('process_time')
    time.monotonic_ns = _clock('monotonic_ns', 10**9)
    time.perf_counter_ns = _clock('perf_counter_ns', 10**9)
    time.sleep = _sleep

# ----------------------------------------------------------------------------
# Symbolic solving.

SOLVE = None                # hook(name, call, args, kwargs) or None
_depth = threading.local()

def _solver(name, f):
    def g(*args, **kwargs):
        hook = SOLVE
        if getattr(_depth, 'n', 0):
            return f(*args, **kwargs)
        if hook is None:
            return _memo(name, f, args, kwargs)
        _depth.n = 1
        try:
            return hook(name, lambda: f(*args, **kwargs), args, kwargs)
        finally:
            _depth.n = 0
    g.__name__ = name
    g.__wrapped__ = f
    return g

MEMO = None                 # table of results, or None

def _memo(name, f, args, kwargs):
    # Remember the results of pure functions of SymPy, to run more per second.
    if MEMO is None:
        return f(*args, **kwargs)
    import sympy
    key = (name, tuple(sympy.srepr(a) for a in args),
        tuple((k, sympy.srepr(v)) for k, v in sorted(kwargs.items())))
    if key in MEMO:
        return MEMO[key]
    n = getattr(_depth, 'n', 0)
    _depth.n = 1
    try:
        r = f(*args, **kwargs)
    finally:
        _depth.n = n
    MEMO[key] = r
    return r

def remembered(name, call, args, kwargs):
    # The result of call(), remembered if results are.
    return _memo(name, lambda *a, **k: call(), args, kwargs)

def _pure(name, f):
    def g(*args, **kwargs):
        if SOLVE is not None or getattr(_depth, 'n', 0):
            return f(*args, **kwargs)
        return _memo(name, f, args, kwargs)
    g.__name__ = name
    g.__wrapped__ = f
    return g

SOLVERS = ['solveset', 'solve', 'solve_univariate_inequality',
    'solve_poly_inequality', 'reduce_inequalities',
    'reduce_rational_inequalities', 'reduce_abs_inequality',
    'solve_rational_inequalities', 'real_roots']

def install_solvers():
    import sympy
    import sympy.solvers
    import sympy.solvers.inequalities
    import sympy.solvers.solveset
    mods = [sys.modules[m] for m in ('sympy', 'sympy.solvers',
        'sympy.solvers.inequalities', 'sympy.solvers.solveset')]
    for name in SOLVERS:
        f = getattr(sympy, name, None)
        if not callable(f):
            continue
        g = _solver(name, f)
        for m in mods:
            if getattr(m, name, None) is f:
                setattr(m, name, g)

    import sympy.calculus
    import sympy.calculus.util
    for name, wrap in (('function_range', _solver), ('limit', _pure)):
        f = getattr(sys.modules['sympy.calculus.util'], name)
        g = wrap(name, f)
        for m in ('sympy', 'sympy.calculus', 'sympy.calculus.util'):
            if getattr(sys.modules[m], name, None) is f:
                setattr(sys.modules[m], name, g)

class solving():
    """Context that installs a hook on symbolic solving."""
    def __init__(self, hook):
        self.hook = hook
    def __enter__(self):
        global SOLVE
        self.old = SOLVE
        SOLVE = self.hook
    def __exit__(self, *args):
        global SOLVE
        SOLVE = self.old

# ----------------------------------------------------------------------------
# Locks of the package under test: the thread scheduler owns them.

SCHED = None                # the active thread scheduler

class SimLock():
    """A lock that asks the scheduler to run another thread when taken."""
    def __init__(self, reentrant=False):
        self.owner = None
        self.count = 0
        self.reentrant = reentrant
    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking or (timeout is not None and timeout == 0):
                return False
            if SCHED is None:
                raise RuntimeError('deadlock: lock is held by its own thread')
            if timeout is not None and timeout > 0:
                SCHED.block(self, True)
                if self.owner is not None:
                    return False
                break
            SCHED.block(self, False)
        self.owner = me
        self.count += 1
        return True
    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if self.count == 0:
            self.owner = None
    def locked(self):
        return self.owner is not None
    def __enter__(self):
        self.acquire()
        return self
    def __exit__(self, *args):
        self.release()
    def _is_owned(self):
        return self.owner == threading.get_ident()

def _lock(real, reentrant):
    def f(*args):
        g = sys._getframe(1)
        if (g.f_globals.get('__name__') or '').split('.')[0] == 'sppl':
            return SimLock(reentrant)
        return real(*args)
    return f

def install_locks():
    REAL['Lock'] = threading.Lock
    REAL['RLock'] = threading.RLock
    threading.Lock = _lock(threading.Lock, False)
    threading.RLock = _lock(threading.RLock, True)

def memoise(on=True):
    global MEMO
    MEMO = {} if on else None

def export_memo(start):
    """Results remembered since there were start of them, as text."""
    if MEMO is None or len(MEMO) == start:
        return None
    new = list(MEMO.items())[start:]
    try:
        return base64.b64encode(pickle.dumps(new)).decode()
    except Exception:
        return None

def import_memo(text):
    if text and MEMO is not None:
        for k, v in pickle.loads(base64.b64decode(text)):
            MEMO.setdefault(k, v)

def install():
    install_time()
    install_solvers()
    install_locks()
