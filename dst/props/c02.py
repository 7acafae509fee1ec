"""C02: time-limited solving leaves the caller's alarm and handler intact.

A caller with its own alarms and SIGALRM handler issues queries with polynomial
conditions in simulated time: solves complete, are cut off at seeded instants,
stall, give up or are interrupted, and time passes outside solving, too.  After
every query the handler has to be the caller's and nothing of the query may be
armed; every delivery of the caller's alarm is compared with when it is due."""

import random
import signal

from sim import core
from sim import polygen
from sim import prog
from sim import seams
from sim import shrink as shrink_
from sim import solver
from sim import work
from props import c01

RUNS = {'quick': 1400, 'thorough': 20000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded model and a history of 2 to 6 steps: the caller installs a '
    'handler, sets or cancels an alarm (one-shot or periodic), lets time pass, and issues a '
    'query whose solves behave as planned. It is non-trivial when an alarm of the caller '
    'was pending or a solve did not just return.')
MEASURE = 'distinct (handler, alarm, how the query ended, deliveries meanwhile)'
REAL = ['sppl (all modules, including the time limit)', 'sympy', 'scipy', 'numpy']
STUB = ['clock, interval timer, signal handlers and their delivery',
    'duration and outcome of symbolic solving']
ASSUMPTIONS = ['An alarm may be late by the time that passes outside solving while the '
    'query runs, and by 0.05 s.', 'The caller uses signal.alarm or signal.setitimer with '
    'ITIMER_REAL.']
OWN_WORLD = True

EPS = .01

POOL = []

def warm():
    """A pool of queries whose solves are remembered: C02 is about alarms."""
    work.warm()
    polygen.warm()
    A = work.get_api()
    r = random.Random(11)
    while len(POOL) < 24:
        g = polygen.PolyGen(r, degrees=(1, 2, 2, 3), discrete=.5)
        for i in range(r.choice([1, 1, 2])):
            g.base('X%d' % (i + 1,))
        program = {'arrays': {}, 'stmts': list(g.stmts)}
        queries = [g.query() for _ in range(3)]
        x = r.choice(sorted(g.bases))
        e = ['cmp', ['poly', ['v', x], [r.choice([1, 3]), 0, r.choice([1, 2])]],
            '<', r.choice([-1, 0])]
        queries.append(['cond', e, g.leaf(plain=True)])
        POOL.append([program, queries])
    core.spread([[p, q] for p, qs in POOL for q in qs], solve)

def solve(job):
    A = work.get_api()
    (program, q) = job
    ns = work.namespace(program)
    c01.attempt(lambda: polygen.answer(A, A.run(program, ns), q, ns))

class CallerAlarm(Exception):
    """Raised by the caller's handler."""

DELAYS = [.5, 1., 2., 3., 4.9, 5., 5.1, 7., 9.9, 12., 30., 100., 2000.]
WEIGHTS = {'real': 3, 'slow': 2, 'cut': 4, 'late': 1, 'stall': 3, 'unsolved': 1,
    'fails': 2, 'interrupt': 2}

def gen_plan(rng):
    modes = [solver.gen_mode(rng, WEIGHTS) for _ in range(rng.randint(1, 5))]
    for m in modes:
        if m[0] == 'slow':
            m[1] = rng.choice([.1, 1., 2., 4.])
    default = rng.choice([['real'], ['stall'],
        ['fails', 'notimplemented'], ['slow', 2.]])
    return [modes, default]

def gen(rng, tier):
    (program, queries) = rng.choice(POOL)
    steps = []
    for _ in range(rng.randint(2, 6)):
        q = rng.choice(queries)
        handler = rng.choice([None, None, 'dfl', 'ign', 'record', 'record', 'raise',
            ['rearm', rng.choice([1., 4., 20.])]])
        u = rng.random()
        if u < .25:
            alarm = None
        elif u < .85:
            alarm = ['set', rng.choice(DELAYS), 0.]
            if rng.random() < .3:
                alarm[2] = rng.choice([1., 3., 6., 50.])
        elif u < .93:
            alarm = ['alarm', rng.choice([1, 3, 5, 8, 100])]
        else:
            alarm = ['cancel']
        ticks = None
        if rng.random() < .6:
            near = rng.random() < .6
            ticks = [rng.choice([1, 1, 2, 3, 5, 11, 37, 150][:5 if near else 8]),
                rng.random(), rng.choice([0., 0., .01, .3, 1., 2.5, 6.]),
                0 if near else int(10**rng.uniform(0, 3)), near]
        steps.append([handler, alarm, q, gen_plan(rng), ticks,
            rng.choice([0., 0., 1., 10.])])
    return {'program': program, 'steps': steps}

class Caller():
    """What the caller armed, and when it is due."""
    def __init__(self, w):
        self.w = w
        self.kind = 'dfl'
        self.due = None
        self.interval = 0.
        self.rearm = None
        self.fired = []
        self.early = None
        self.handlers = {k: getattr(self, '_' + k) for k in ('record', 'raise', 'rearm')}
        self.value = signal.SIG_DFL
        self.seen = 0
    def install(self, kind):
        if kind is None:
            return
        if isinstance(kind, list):
            (kind, self.rearm) = kind
        self.kind = kind
        self.value = {'dfl': signal.SIG_DFL, 'ign': signal.SIG_IGN}.get(kind) \
            if kind in ('dfl', 'ign') else self.handlers[kind]
        signal.signal(signal.SIGALRM, self.value)
    def arm(self, alarm):
        w = self.w
        if alarm[0] == 'set':
            signal.setitimer(signal.ITIMER_REAL, alarm[1], alarm[2])
            (self.due, self.interval) = (w.now + alarm[1], alarm[2])
        elif alarm[0] == 'alarm':
            signal.alarm(alarm[1])
            (self.due, self.interval) = (w.now + alarm[1], 0.)
        else:
            signal.alarm(0)
            (self.due, self.interval) = (None, 0.)
    def delivered(self):
        t = self.w.now
        self.fired.append(t)
        if self.due is None or t < self.due - EPS:
            self.early = (t, self.due)
        self.due = t + self.interval if self.interval else None
    def _record(self, signum, frame):
        self.delivered()
    def _raise(self, signum, frame):
        self.delivered()
        raise CallerAlarm('the alarm of the caller')
    def _rearm(self, signum, frame):
        self.delivered()
        if len(self.fired) < 50:
            signal.setitimer(signal.ITIMER_REAL, self.rearm)
            (self.due, self.interval) = (self.w.now + self.rearm, 0.)
    def ignored(self):
        # Deliveries to handlers that run no code.
        log = self.w.log[self.seen:]
        self.seen = len(self.w.log)
        return [x for x in log if x[0] == 'alarm' and x[2] == signal.SIG_IGN]

def attempt(f):
    try:
        return c01.attempt(f)
    except (core.Violation, core.HarnessError, core.Skip):
        raise
    except KeyboardInterrupt:
        return ['error', 'KeyboardInterrupt']

def step(ctx, w, caller, i, st, A, model, ns):
    (handler, alarm, q, p, ticks, rest) = st
    caller.install(handler)
    if alarm:
        caller.arm(alarm)
    what = lambda: 'step %d (handler %r, due %s, query %r, solves %r)' % (i, caller.kind,
        due0 and round(due0 - t0, 3), q, c01.show(s))
    (t0, due0, n0) = (w.now, caller.due, len(caller.fired))
    s = solver.Solver(ctx, w, p[0], p[1], long=200., forever=3000.)
    tick = solver.Ticker(w, ticks[0], int(ticks[1]*ticks[0]), *ticks[2:]) if ticks else None
    caller.ignored()
    try:
        with seams.solving(s):
            f = lambda: polygen.answer(A, model, q, ns)
            r = attempt((lambda: tick.run(f)) if tick else f)
    except seams.Killed:
        # Only the alarm of the caller may do that, when due.
        ctx.fault('caller_alarm_kills')
        ctx.expect(caller.kind == 'dfl' and due0 is not None and w.now >= due0 - EPS,
            'killed', lambda: '%s: an alarm ends the process at %.3f s' % (what(), w.now - t0))
        ctx.state('killed', caller.kind)
        return False
    t1 = w.now
    slack = .05 + (tick.spent if tick else 0.)
    if due0 is not None:
        ctx.fault('caller_alarm_pending')
    ctx.expect(signal.getsignal(signal.SIGALRM) is caller.value
        or signal.getsignal(signal.SIGALRM) == caller.value, 'handler',
        lambda: '%s leaves the handler %r instead of %r' % (what(),
        signal.getsignal(signal.SIGALRM), caller.value))
    ctx.expect(caller.early is None, 'early', lambda: '%s: the alarm of the caller was '
        'delivered %.3f s too early (or was not set): %r' % (what(), (caller.early[1] or 0)
        - caller.early[0], caller.early))
    if caller.kind == 'ign' and due0 is not None:
        # It is spent when it fell due.
        if caller.ignored():
            ctx.expect(w.now >= due0 - EPS, 'early', lambda: '%s: an ignored alarm was '
                'spent too early' % (what(),))
            caller.due = w.deadline if caller.interval else None
    due = caller.due
    if due is None:
        ctx.expect(w.deadline is None, 'armed', lambda: '%s leaves an alarm armed that '
            'fires in %.3f s' % (what(), w.deadline - w.now))
    else:
        ctx.expect(w.deadline is not None, 'lost', lambda: '%s loses the alarm of the '
            'caller that was due after %.3f s; the query took %.3f s' % (what(), due - t0,
            t1 - t0))
        ctx.expect(w.deadline >= due - EPS, 'early', lambda: '%s: the alarm of the caller '
            'is brought forward by %.3f s' % (what(), due - w.deadline))
        ctx.expect(w.deadline <= max(due, t1) + slack, 'late', lambda: '%s: the alarm of '
            'the caller is put off by %.3f s' % (what(), w.deadline - max(due, t1)))
        ctx.expect(w.interval == caller.interval, 'interval', lambda: '%s: the alarm of '
            'the caller has the interval %r instead of %r' % (what(), w.interval,
            caller.interval))
        caller.due = w.deadline
    ctx.log(i, caller.kind, r[:2] if r[0] == 'error' else r[0], round(t1 - t0, 3),
        len(caller.fired) - n0, c01.show(s))
    ctx.state(caller.kind, alarm and alarm[0], r[0] if r[0] == 'ok' else r[1],
        len(caller.fired) - n0)
    # Time passes.
    if rest:
        n1 = len(caller.fired)
        try:
            w.advance(rest)
        except seams.Killed:
            ctx.expect(caller.kind == 'dfl' and caller.due is not None
                and w.now >= caller.due - EPS, 'killed', lambda: 'after %s an alarm ends '
                'the process' % (what(),))
            return False
        except CallerAlarm:
            pass
        if caller.kind == 'ign':
            caller.ignored()
            if caller.due is not None and w.now >= caller.due:
                caller.due = w.deadline
        ctx.expect(caller.early is None, 'early', lambda: 'after %s the alarm of the '
            'caller is early: %r' % (what(), caller.early))
        ctx.expect(caller.due is None or w.deadline is not None, 'lost', lambda: 'after %s '
            'the alarm of the caller is lost' % (what(),))
    return True

def run(case, ctx):
    A = work.get_api()
    ns = work.namespace(case['program'])
    with seams.World(ctx) as w:
        caller = Caller(w)
        model = A.run(case['program'], ns)
        for i, st in enumerate(case['steps']):
            if not step(ctx, w, caller, i, st, A, model, ns):
                break

def shrink(case):
    for x in shrink_.lists(case['steps'], 1):
        yield dict(case, steps=x)
    for x in shrink_.programs(case['program']):
        if x['stmts']:
            yield dict(case, program=x)
    for i, (h, a, q, p, ticks, rest) in enumerate(case['steps']):
        def put(h, a, q, p, ticks, rest):
            return dict(case, steps=case['steps'][:i] + [[h, a, q, p, ticks, rest]]
                + case['steps'][i+1:])
        if ticks:
            yield put(h, a, q, p, None, rest)
        if rest:
            yield put(h, a, q, p, ticks, 0.)
        if h not in (None, 'record'):
            yield put('record', a, q, p, ticks, rest)
        if a:
            yield put(h, None, q, p, ticks, rest)
            if a[0] == 'set' and a[2]:
                yield put(h, [a[0], a[1], 0.], q, p, ticks, rest)
        for m in shrink_.lists(p[0]):
            yield put(h, a, q, [m, p[1]], ticks, rest)
        if p[1] != ['real']:
            yield put(h, a, q, [p[0], ['real']], ticks, rest)
        if q[0] != 'set':
            for x in shrink_.queries([q]):
                for y in x:
                    yield put(h, a, y, p, ticks, rest)
