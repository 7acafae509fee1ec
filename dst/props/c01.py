"""C01: the solver's time limit never changes an answer.

Queries with polynomial conditions run while symbolic solving completes, runs
out of time at seeded instants, stalls, is inconclusive, gives up or is switched
off.  Every solution set, probability and posterior, also of later queries, is
compared with a reference model."""

import os

from sim import core
from sim import polygen
from sim import prog
from sim import seams
from sim import shrink as shrink_
from sim import solver
from sim import work

RUNS = {'quick': 520, 'thorough': 8000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded program and 2 to 6 queries with polynomial conditions of '
    'degree 1 to 5, each with a seeded plan of how its symbolic solves behave. It is '
    'non-trivial when a solve was cut off, inconclusive, failed or was switched off.')
MEASURE = 'distinct (behaviour of a solve, how it ended) and (query, degree, plan)'
REAL = ['sppl (all modules, including the numerical solver and the time limit)',
    'sympy', 'scipy', 'numpy']
STUB = ['clock, interval timer and signals', 'symbolic solver when it is stalled, '
    'inconclusive or giving up; otherwise it is real']
ASSUMPTIONS = ['Answers agree when they differ by at most 2e-7 + 2e-6 relative.',
    'Membership of points closer than 1e-6 to an end of a solution set is not compared, '
    'except for exact ends.']
OWN_WORLD = True

def warm():
    work.warm()
    polygen.warm()

WEIGHTS = {'real': 2, 'cut': 5, 'late': 1, 'stall': 2, 'unsolved': 3, 'fails': 2}
HARD = {'stall': 2, 'unsolved': 1, 'fails': 1, 'cut': 2}

def plan(rng, degree, weights=None):
    w = dict(weights or WEIGHTS)
    n = rng.randint(1, 4)
    modes = [solver.gen_mode(rng, w) for _ in range(n)]
    default = ['real']
    if degree > 3:
        w = {k: v for k, v in HARD.items() if k in (weights or HARD)}
        modes = [solver.gen_mode(rng, w) for _ in range(n)]
        modes = [['unsolved', 'condition'] if m[0] == 'unsolved' else m for m in modes]
        # Real solves of quartics take too long: no mode needs a complete one.
        default = rng.choice([['stall'], ['fails', 'notimplemented'],
            ['unsolved', 'condition']])
    elif rng.random() < .5:
        default = solver.gen_mode(rng, {k: v for k, v in w.items() if k != 'cut'})
    return [modes, default]

def gen(rng, tier, weights=None):
    g = polygen.PolyGen(rng, degrees=rng.choice([(1, 2, 2, 3), (2, 3), (2, 2, 3, 4, 5),
        (4, 5), (1, 2, 3, 4, 5)]), discrete=rng.choice([.2, .5, .8]))
    program = g.program()
    start = [g.top, plan(rng, g.top, weights), rng.random() < .12]
    queries = []
    for _ in range(rng.randint(2, 5)):
        if queries and rng.random() < .3:
            # The same again, under other conditions.
            (q, _p, _o, top) = rng.choice(queries)
        else:
            g.top = start[0]
            q = g.query()
            top = g.top
        queries.append([q, plan(rng, top, weights), rng.random() < .12, top])
    return {'program': program, 'start': start, 'queries': queries}

def under(ctx, world, p, off, f):
    """Run f() while solving behaves as planned; (result, solver)."""
    s = solver.Solver(ctx, world, p[0], p[1])
    if off:
        os.environ['SPPL_NO_SYMBOLIC'] = '1'
        ctx.fault('solve_switched_off')
    try:
        with seams.solving(s):
            return f(), s
    finally:
        os.environ.pop('SPPL_NO_SYMBOLIC', None)

def attempt(f):
    try:
        return ['ok', f()]
    except (core.Violation, core.HarnessError, core.Skip):
        raise
    except seams.StallForever as e:
        return ['error', 'StallForever']
    except Exception as e:
        return ['error', type(e).__name__, str(e)[:200]]

def run(case, ctx):
    seams.memoise(False)
    A = work.get_api()
    state = prog.ref_exec(work.Ref(), case['program']['stmts'])
    ns = work.namespace(case['program'])
    with seams.World(ctx) as w:
        (_top, p, off) = case['start']
        r, s = under(ctx, w, p, off, lambda: attempt(lambda: A.run(case['program'], ns)))
        ctx.expect(r[0] == 'ok', 'model', lambda: 'a program fails with %r when solving '
            'behaves like %r' % (r, show(s)))
        model = r[1]
        events = {}
        later = []
        for i, (q, p, off, top) in enumerate(case['queries']):
            exp = polygen.expected(state, q)
            got, s = under(ctx, w, p, off,
                lambda: attempt(lambda: polygen.answer(A, model, q, ns)))
            ctx.log(i, q[0], got, [c[:2] for c in s.calls])
            ctx.state(q[0], top, [c[:2] for c in s.calls], off)
            ctx.expect(polygen.agrees(got, exp), 'answer', lambda: 'query %d %r gives %r '
                'instead of %r when solving behaves like %r%s' % (i, q, got, exp, show(s),
                ' and is switched off' if off else ''))
            if top <= 3 and any(c[0] in ('cut', 'late') for c in s.calls):
                later.append((i, q, exp))
        # Later, when all goes well.
        for i, q, exp in later[:2]:
            got = attempt(lambda: polygen.answer(A, model, q, ns))
            ctx.expect(polygen.agrees(got, exp), 'later', lambda: 'query %d %r asked '
                'again later gives %r instead of %r' % (i, q, got, exp))

def show(s):
    return [c[:2] for c in s.calls]

def shrink(case):
    for x in shrink_.lists(case['queries'], 1):
        yield dict(case, queries=x)
    st = case['program']['stmts']
    for x in shrink_.programs(case['program']):
        if x['stmts']:
            yield dict(case, program=x)
    if case['start'][1] != [[], ['real']]:
        yield dict(case, start=[case['start'][0], [[], ['real']], False])
    for i, (q, p, off, top) in enumerate(case['queries']):
        def put(q, p, off):
            return dict(case, queries=case['queries'][:i] + [[q, p, off, top]]
                + case['queries'][i+1:])
        for m in shrink_.lists(p[0]):
            yield put(q, [m, p[1]], off)
        if p[1] != ['real'] and top <= 3:
            yield put(q, [p[0], ['real']], off)
        if off:
            yield put(q, p, False)
        if q[0] == 'set':
            for pts in shrink_.lists(q[2], 1):
                yield put(['set', q[1], pts], p, off)
        else:
            for x in shrink_.queries([q]):
                for y in x:
                    yield put(y, p, off)
