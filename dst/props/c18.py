"""C18: a stalled solver is abandoned at its time limit and the query answers.

Queries with polynomial conditions run in simulated time while each of their
solves is fast, slow, stalls, or gets stuck at a seeded step, and while work
outside solving may be slow.  Every query has to give the right answer, every
stalled solve has to end at its own limit, no slow one may be cut before it, and
nothing may be armed between and after solves."""

import importlib

from sim import core
from sim import polygen
from sim import prog
from sim import seams
from sim import shrink as shrink_
from sim import solver
from sim import work
from props import c01

RUNS = {'quick': 640, 'thorough': 9000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded program and 1 to 5 queries with polynomial conditions, each '
    'with a seeded plan of which solves stall, get stuck, are slow or fast, and of slow '
    'work outside solving. It is non-trivial when a solve stalled, got stuck or was slow, '
    'or time passed outside.')
MEASURE = 'distinct (behaviour of a solve, how it ended) and (query, degree, plan)'
REAL = ['sppl (all modules, including the numerical solver and the time limit)',
    'sympy', 'scipy', 'numpy']
STUB = ['clock, interval timer and signals', 'duration of symbolic solving; a stalled '
    'solve is a loop in which only time passes']
ASSUMPTIONS = ['A slow solve takes at most 0.45 of the limit, so that two of them fit '
    'in one limit.', 'A solve may overrun its limit by 1 s before it counts as not '
    'abandoned.', 'Answers agree when they differ by at most 2e-7 + 2e-6 relative.']
OWN_WORLD = True

warm = c01.warm

SLACK = 1.

def gen_plan(rng, degree):
    style = rng.choice(['stall', 'stall', 'slow', 'mixed', 'mixed', 'stuck', 'none'])
    hard = degree > 3
    if style == 'stall':
        return [[], ['stall']]
    if style == 'slow' and not hard:
        return [[], ['slow', rng.choice([.45, .3, .1])]]
    kinds = {'stall': 3, 'stuck': 2}
    if style == 'stuck':
        kinds = {'stuck': 3, 'stall': 1}
    if not hard:
        kinds.update(slow=3, real=1)
    modes = []
    for _ in range(rng.randint(2, 7)):
        m = solver.gen_mode(rng, kinds)
        if m[0] == 'slow':
            m[1] = rng.choice([.45, .3, .1])
        modes.append(m)
    default = ['stall'] if hard or rng.random() < .6 else ['slow', .3]
    if style == 'none' and not hard:
        (modes, default) = ([], ['real'])
    return [modes, default]

def gen(rng, tier):
    g = polygen.PolyGen(rng, degrees=rng.choice([(1, 2, 2, 3), (2, 2, 3), (4, 5),
        (2, 3, 3, 4), (6, 7, 8, 9), (2, 3, 7)]), discrete=rng.choice([.2, .5, .8]))
    program = g.program(rng.choice([(1, 2), (2, 3)]))
    start = [g.top, gen_plan(rng, g.top)]
    queries = []
    for _ in range(rng.randint(1, 4)):
        g.top = start[0]
        q = g.query()
        ticks = None
        if rng.random() < .45:
            ticks = [rng.choice([1, 2, 3, 5, 7, 11, 23, 60, 200]), rng.random(),
                rng.choice([.5, 2., 4.9, 5.1, 30., 1000.]),
                int(10**rng.uniform(0, 3))]
        queries.append([q, gen_plan(rng, g.top), ticks, g.top])
    return {'program': program, 'start': start, 'queries': queries}

def limit(A):
    m = importlib.import_module('sppl.poly')
    return float(getattr(m, 'TIMEOUT_SYMBOLIC', 5))

def scaled(p, L):
    f = lambda m: [m[0], m[1]*L] if m[0] == 'slow' else m
    return ([f(m) for m in p[0]], f(p[1]))

def observe(ctx, w, L, p, ticks, f, what):
    (modes, default) = scaled(p, L)
    s = solver.Solver(ctx, w, modes, default)
    t0 = w.now
    tick = None
    try:
        with seams.solving(s):
            if ticks:
                ctx.fault('slow_outside')
                tick = solver.Ticker(w, ticks[0], int(ticks[1]*ticks[0]), *ticks[2:])
                r = c01.attempt(lambda: tick.run(f))
            else:
                r = c01.attempt(f)
    except seams.Killed as e:
        raise core.Violation('killed', '%s: the process was ended by an alarm: %s' % (
            what(), e))
    # Nothing may be armed now.
    ctx.expect(w.deadline is None, 'armed', lambda: '%s leaves an alarm armed' % (what(),))
    t1 = w.now
    slow = 0.
    for i, (mode, out, start, end, armed) in enumerate(s.calls):
        took = end - start
        if mode in ('stall', 'stuck'):
            ctx.expect(took <= L + SLACK, 'overrun', lambda: '%s: solve %d of %r, which '
                'makes no progress, ends only after %.1f s' % (what(), i, c01.show(s), took))
        elif mode == 'slow':
            slow += took
            if tick is None:
                ctx.expect(out != 'TimeoutError', 'early', lambda: '%s: solve %d of %r is '
                    'cut off after %.2f s of %.1f s' % (what(), i, c01.show(s), took, L))
    stalls = sum(m[0] in ('stall', 'stuck') for m in s.calls)
    bound = stalls*(L + SLACK) + slow + (tick.spent if tick else 0) + 1.
    ctx.expect(t1 - t0 <= bound, 'time', lambda: '%s takes %.1f s of simulated time, more '
        'than %.1f s, with solves %r' % (what(), t1 - t0, bound, c01.show(s)))
    # Much later.
    try:
        w.advance(5000.)
    except BaseException as e:
        raise core.Violation('late', '%s: an alarm fires after it: %r' % (what(), e))
    return r, s

def run(case, ctx):
    seams.memoise(False)
    A = work.get_api()
    L = limit(A)
    state = prog.ref_exec(work.Ref(), case['program']['stmts'])
    ns = work.namespace(case['program'])
    with seams.World(ctx) as w:
        (_top, p) = case['start']
        r, s = observe(ctx, w, L, p, None, lambda: A.run(case['program'], ns),
            lambda: 'building the model')
        ctx.expect(r[0] == 'ok', 'model', lambda: 'a program fails with %r when solving '
            'behaves like %r' % (r, c01.show(s)))
        model = r[1]
        for i, (q, p, ticks, top) in enumerate(case['queries']):
            exp = polygen.expected(state, q)
            what = lambda: 'query %d %r%s' % (i, q, ' with slow work outside' if ticks else '')
            got, s = observe(ctx, w, L, p, ticks, lambda: polygen.answer(A, model, q, ns),
                what)
            ctx.log(i, q[0], got, [c[:2] + [round(c[3] - c[2], 3)] for c in s.calls])
            ctx.state(q[0], top, [c[:2] for c in s.calls], bool(ticks))
            ctx.expect(polygen.agrees(got, exp), 'answer', lambda: '%s gives %r instead of '
                '%r when solving behaves like %r' % (what(), got, exp, c01.show(s)))

def shrink(case):
    for x in shrink_.lists(case['queries'], 1):
        yield dict(case, queries=x)
    for x in shrink_.programs(case['program']):
        if x['stmts']:
            yield dict(case, program=x)
    if case['start'][1] != [[], ['real']] and case['start'][0] <= 3:
        yield dict(case, start=[case['start'][0], [[], ['real']]])
    for i, (q, p, ticks, top) in enumerate(case['queries']):
        def put(q, p, ticks):
            return dict(case, queries=case['queries'][:i] + [[q, p, ticks, top]]
                + case['queries'][i+1:])
        if ticks:
            yield put(q, p, None)
        for m in shrink_.lists(p[0]):
            yield put(q, [m, p[1]], ticks)
        if p[1] != ['real'] and top <= 3:
            yield put(q, [p[0], ['real']], ticks)
        if q[0] == 'set':
            for pts in shrink_.lists(q[2], 1):
                yield put(['set', q[1], pts], p, ticks)
        else:
            for x in shrink_.queries([q]):
                for y in x:
                    yield put(y, p, ticks)
