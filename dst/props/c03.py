"""C03: concurrent queries behave as if run alone, from any thread.

Two to four real threads issue histories of operations over shared models, events,
commands, caches and merge tables.  One runs at a time; a seeded schedule relieves
it at chosen lines of the package.  Every result equals that of the same thread's
operations run alone in the main thread."""

import random

from sim import core
from sim import seams
from sim import shrink as shrink_
from sim import solver
from sim import threads
from sim import work
from sim.core import twin

RUNS = {'quick': 800, 'thorough': 12000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded set of shared models and 2 to 4 threads with 1 to 4 operations '
    'each, and a schedule of up to 200 preemptions. It is non-trivial when a thread was '
    'relieved inside an operation.')
MEASURE = 'distinct sequences of switches (threads and source lines)'
REAL = ['sppl (all modules)', 'sympy', 'scipy', 'numpy', 'threads of the interpreter']
STUB = ['scheduling of threads', 'locks of the package', 'clock and interval timer',
    'duration of symbolic solving in the main thread']
ASSUMPTIONS = ['Threads switch at lines of the package and at calls in scipy.stats.',
    'Answers agree when probabilities differ by at most 1e-9 + 1e-6 relative.']
HANG = 'threads do not finish'

warm = work.warm

def gen(rng, tier):
    opts = rng.choice([dict(), dict(p_if=.5), dict(p_transform=.4), dict(p_switch=.5),
        dict(p_mix=.5), dict(p_poly=.4, solves=3), dict(p_poly=.4, solves=3)])
    h = work.Hist(rng, **opts)
    h.build()
    if rng.random() < .4:
        work.variant(h)
    setup_n = len(h.ops)
    for _ in range(rng.choice([0, 0, 1, 2])):
        u = rng.random()
        op = h.op_cond(rng.choice([None, 'A'])) if u < .5 else h.op_trans() if u < .7 \
            else h.op_cons() if u < .8 else h.op_prob('A') if u < .95 else h.op_load()
        h.remember()
        if op:
            h.ops.append(op)
    full = rng.random() < .25
    if full:
        op = h.op_many('A', n=rng.randint(5, 60))
        if op:
            h.ops.append(op)
    setup = list(h.ops)
    n = rng.choice([2, 2, 2, 3, 3, 4])
    base = dict(h.slots)
    pool = []
    known = {}
    ths = []
    share = rng.choice([.2, .6, .9])
    # All threads do the same kind of thing, or anything.
    focus = rng.choice([None, None, None, .8, .8, .9, .05, .4, .68, .87, .99])
    builds = [op for op in setup[:setup_n] if op[0] == 'build']
    for i in range(n):
        h.slots = dict(base)
        ops = []
        want = rng.randint(1, 4)
        tries = 0
        while len(ops) < want and tries < 12:
            tries += 1
            memo = rng.choice([None, 'A', 'A', 'A', 'B'])
            if pool and rng.random() < share:
                op = rng.choice(pool)
                if op[0] != 'build' and op[1] not in h.slots:
                    continue
                op = list(op)
                if op[0] in ('cond', 'cons', 'trans', 'load', 'dedup'):
                    old = op[-1]
                    op[-1] = h.name()
                    h.slots[op[-1]] = known[old]
                elif op[0] == 'build':
                    h.slots[op[-1]] = base[op[-1]]
            else:
                many = full and rng.random() < .6 and h.op_many('A', n=rng.randint(3, 15))
                u = rng.random() if focus is None or rng.random() < .1 else focus
                op = many if many else h.op_prob(memo, likely=rng.random() < .5) if u < .3 \
                    else h.op_logpdf(memo) if u < .38 \
                    else h.op_cond(memo) if u < .58 else h.op_cons(memo) if u < .63 \
                    else h.op_mi(memo) if u < .68 else h.op_trans() if u < .73 \
                    else h.op_sample() if u < .85 else h.op_dedup('t') if u < .9 \
                    else h.op_save() if u < .92 else h.op_load() if u < .94 \
                    else list(rng.choice(builds))
            h.remember()
            if op is None:
                continue
            ops.append(op)
            pool.append(op)
            if op[0] in ('cond', 'cons', 'trans', 'load', 'dedup'):
                known[op[-1]] = h.slots[op[-1]]
                ops.extend(h.probes(op[-1], 1))
        ths.append(ops)
    schedules = []
    for _ in range(8):
        points = []
        for _ in range(rng.choice([1, 2, 3, 5, 9, 20, 60, 60, 200])):
            points.append([rng.randrange(n), core.gen_point(rng), rng.randrange(3)])
        schedules.append([rng.randrange(n), points])
    return {'program': h.program(), 'setup': setup, 'threads': ths,
        'schedules': schedules, 'main': rng.choice([None, None, 0]),
        'modes': rng.choice([None, None, ['stall'], ['slow', 2.]])}

def uses(op):
    return [] if op[0] == 'build' else [op[1]]

def prepare(case):
    """Shared objects; the models are made anew, so that nothing is derived yet."""
    S = work.Session(work.namespace(case['program']))
    for op in case['setup']:
        r = S.attempt(op)
        if r[0] != 'ok' and op[0] == 'build':
            raise core.Skip('a program does not compile')
    # Objects that the threads share.
    for name in ('A', 'B'):
        S.memo(name)
    S.tables.setdefault('t', {})
    for ops in case['threads']:
        for op in ops:
            for x in op[2:4] if op[0] == 'mi' else op[2:3] if op[0] in ('prob', 'cond') \
                    else ():
                S.event(x)
    return S

def session(S):
    T = work.Session(S.ns, S.api)
    T.models = dict(S.models)
    (T.memos, T.tables, T.events, T.kept) = (S.memos, S.tables, S.events, S.kept)
    return T

def play(T, ops):
    out = []
    for op in ops:
        if any(m not in T.models for m in uses(op)):
            out.append(['error', 'missing'])
        else:
            out.append(T.attempt(op))
    return out

def hook(ctx, case):
    """Solving takes long in the main thread only: elsewhere it is not limited."""
    main = solver.Solver(ctx, seams.WORLD, [], case['modes'] or ['real'])
    rest = solver.Solver(ctx, seams.WORLD, [], ['real'])
    def solve(name, call, args, kwargs):
        s = main if seams._main() else rest
        return s(name, call, args, kwargs)
    return solve

def limited(ctx, case, f):
    with seams.solving(hook(ctx, case)):
        return f()

def alone(ctx, case, S, i, specs):
    """Results of one thread's operations, and the steps of its preemptions."""
    T = session(S)
    mine = dict(case, modes=case['modes'] if case['main'] == i else None)
    t = core.Tracer(('sppl',), ('scipy',), record=True)
    out = limited(ctx, mine, lambda: t.run(lambda: play(T, case['threads'][i])))
    return [out, [core.pick_point(t.sites, s) for s in specs], len(t.sites)]

def together(ctx, case, S, first, points):
    fs = []
    for ops in case['threads']:
        fs.append(lambda T=session(S), ops=ops: play(T, ops))
    s = threads.Scheduler(ctx, fs, points, first, case['main'])
    try:
        out = limited(ctx, case, s.run)
    except core.Violation as e:
        return ['violation', e.cls, e.msg]
    inside = [x for x in s.switches if x[1] not in ('end', 'lock')]
    if inside:
        ctx.fault('preemption', len(inside))
    ctx.stat('switches', len(s.switches))
    ctx.stat('steps', sum(w.k for w in s.workers))
    if s.postponed:
        ctx.stat('postponed', s.postponed)
    ctx.state(s.switches)
    return ['ok', out, s.switches]

BUDGET = 16000              # trace points of all schedules of a case

def run(case, ctx):
    n = len(case['threads'])
    S = prepare(case)
    total = 0
    plain = []
    steps = [[{} for _ in range(n)] for _ in case['schedules']]
    for i in range(n):
        mine = [(j, p) for j, (_f, ps) in enumerate(case['schedules']) for p in ps
            if p[0] % n == i]
        (out, ks, k) = twin(ctx, alone, case, S, i, [p[1] for _j, p in mine])
        plain.append(out)
        total += k
        for k, (j, p) in zip(ks, mine):
            if k is not None:
                steps[j][i][k] = p[2]
    for j, (first, _ps) in enumerate(case['schedules']):
        if j*total > BUDGET:
            ctx.stat('schedules_left', len(case['schedules']) - j)
            break
        got = twin(ctx, together, case, S, first % n, steps[j])
        if got[0] == 'violation':
            ctx.fail(got[1], got[2])
        compare(case, ctx, plain, *got[1:])

def compare(case, ctx, plain, got, switches):
    for i, ops in enumerate(case['threads']):
        for j, (op, a, b) in enumerate(zip(ops, plain[i], got[i])):
            ctx.log(i, j, op[0], b)
            ok = work.prob_close(a, b) if op[0] in ('prob', 'logpdf') \
                else work.same_answer(a, b)
            ctx.expect(ok, 'race', lambda: 'operation %d %r of thread %d gives %s; alone '
                'it gives %s; main thread %r; switches %s' % (j, op, i, short(b), short(a),
                case['main'], switches))

def short(x):
    s = repr(x)
    return s if len(s) < 500 else s[:500] + '...'

def shrink(case):
    for x in shrink_.lists(case['schedules'], 1):
        yield dict(case, schedules=x)
    for i, (f, ps) in enumerate(case['schedules']):
        for x in shrink_.lists(ps):
            yield dict(case, schedules=case['schedules'][:i] + [[f, x]]
                + case['schedules'][i+1:])
    if len(case['threads']) > 1:
        for i in range(len(case['threads'])):
            ths = case['threads'][:i] + case['threads'][i+1:]
            if case['main'] != i:
                yield dict(case, threads=ths, main=case['main'] if case['main'] is None
                    or case['main'] < i else case['main'] - 1,
                    schedules=[[f, [[t - (t > i), s, w] for t, s, w in ps if t != i]]
                        for f, ps in case['schedules']])
    if case['modes']:
        yield dict(case, modes=None)
    if case['main'] is not None:
        yield dict(case, main=None)
    for x in shrink_.ops(case['setup']):
        yield dict(case, setup=x)
    for i, ops in enumerate(case['threads']):
        for x in shrink_.ops(ops):
            yield dict(case, threads=case['threads'][:i] + [x] + case['threads'][i+1:])
