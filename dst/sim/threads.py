"""A scheduler of real threads: one runs at a time, and it is relieved at the
trace points that the schedule names."""

import sys
import threading

from . import core
from . import seams

_RealLock = threading.Lock

class Deadlock(BaseException):
    pass

class Worker():
    def __init__(self, i, f, points):
        self.i = i
        self.f = f
        self.points = dict(points)  # step -> [which other thread, site or None]
        self.k = 0
        self.done = False
        self.gate = _RealLock()
        self.gate.acquire()
        self.result = None
        self.error = None
        self.waiting = None         # lock it waits for

class Scheduler():
    """Runs functions in threads; main is the index of the one that runs in the
    main thread, or None."""
    def __init__(self, ctx, fs, points, first=0, main=None):
        self.ctx = ctx
        self.workers = [Worker(i, f, p) for i, (f, p) in enumerate(zip(fs, points))]
        self.first = first
        self.main = main
        self.kinds = {}
        self.switches = []
        self.over = _RealLock()
        self.over.acquire()
        self.stuck = None
        self.local = threading.local()
        self.postponed = 0
    # Tracing.
    def kind(self, code):
        r = self.kinds.get(code)
        if r is None:
            k = core.frame_kind(code)
            r = self.kinds[code] = (k == 'sppl', k == 'scipy')
        return r
    def tracer(self, w):
        def trace(frame, event, arg):
            if event != 'call':
                return None
            (line, call) = self.kind(frame.f_code)
            if call:
                self.hit(w, frame)
            if not line:
                return None
            last = [0]
            def local(frame, event, arg):
                # As in core.Tracer.
                if event == 'line' and frame.f_lineno != last[0]:
                    last[0] = frame.f_lineno
                    self.hit(w, frame)
                return local
            return local
        return trace
    def hit(self, w, frame):
        k = w.k
        w.k = k + 1
        if k in w.points:
            which = w.points.pop(k)
            if not safe(frame):
                # The standard library holds a lock.
                w.points.setdefault(k + 1, which)
                self.postponed += 1
                return
            self.switch(w, which, core.site_name((frame.f_code.co_filename,
                frame.f_lineno)))
    # Switching.
    def others(self, w):
        n = len(self.workers)
        r = [self.workers[(w.i + j) % n] for j in range(1, n)]
        return [x for x in r if not x.done]
    def switch(self, w, which, site):
        xs = self.others(w)
        if not xs:
            return
        to = xs[which % len(xs)]
        self.switches.append((w.i, site, to.i))
        self.pass_to(w, to)
    def pass_to(self, w, to):
        to.gate.release()
        w.gate.acquire()
        if self.stuck:
            raise Deadlock(self.stuck)
    def block(self, lock, timed):
        """The running thread cannot take a lock."""
        w = self.local.worker
        w.waiting = lock
        try:
            for _ in range(1000):
                if lock.owner is None:
                    return
                xs = [x for x in self.others(w) if x.waiting is None
                    or x.waiting.owner is None]
                if not xs:
                    if timed:
                        return
                    self.stuck = 'all threads wait for locks'
                    raise Deadlock(self.stuck)
                self.switches.append((w.i, 'lock', xs[0].i))
                self.pass_to(w, xs[0])
            self.stuck = 'a lock is never released'
            raise Deadlock(self.stuck)
        finally:
            w.waiting = None
    def body(self, w):
        self.local.worker = w
        w.gate.acquire()
        try:
            sys.settrace(self.tracer(w))
            try:
                w.result = w.f()
            finally:
                sys.settrace(None)
        except BaseException as e:
            w.error = e
        w.done = True
        xs = self.others(w)
        if xs:
            self.switches.append((w.i, 'end', xs[0].i))
            xs[0].gate.release()
        else:
            self.over.release()
    def run(self):
        old = threading.stack_size()
        threading.stack_size(64 << 20)
        ts = [threading.Thread(target=self.body, args=(w,), daemon=True)
            for w in self.workers if w.i != self.main]
        seams.SCHED = self
        try:
            for t in ts:
                t.start()
            self.workers[self.first].gate.release()
            if self.main is not None:
                self.body(self.workers[self.main])
            self.over.acquire()
        finally:
            seams.SCHED = None
            threading.stack_size(old)
        for w in self.workers:
            if isinstance(w.error, Deadlock):
                raise core.Violation('deadlock', 'threads wait for each other: %s; '
                    'switches %r' % (self.stuck, self.switches))
        for w in self.workers:
            if w.error is not None:
                raise w.error
        return [w.result for w in self.workers]

UNSAFE = ('functools.py', 'threading.py', '_bootstrap', 'warnings.py')

def safe(frame):
    while frame is not None:
        fn = frame.f_code.co_filename
        if fn.endswith('functools.py') and frame.f_code.co_name == 'wrapper' \
                and frame.f_code.co_freevars and 'lock' in frame.f_code.co_freevars:
            # A cache calls the function without its lock, which the line tells.
            if not calls_function(frame):
                return False
        elif fn.startswith('<frozen importlib') or fn.endswith('warnings.py'):
            return False
        frame = frame.f_back
    return True

def calls_function(frame):
    import linecache
    text = linecache.getline(frame.f_code.co_filename, frame.f_lineno)
    return 'user_function' in text
