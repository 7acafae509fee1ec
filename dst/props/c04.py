"""C04: an aborted operation leaves no trace.

In a history of operations with shared caches, merge tables, events and programs,
some operations are first aborted at seeded points, by an interrupt or a failed
allocation, and then retried or left.  All later results equal those of a twin
in which the aborted operations never began."""

from sim import abort
from sim import core
from sim import shrink as shrink_
from sim import work
from sim.core import twin

RUNS = {'quick': 480, 'thorough': 6000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded history of 4 to 12 operations (queries, posteriors, '
    'transforms, samples, merges, saves, programs) of which 1 to 5 are aborted '
    'first. It is non-trivial when an operation was aborted.')
MEASURE = 'distinct (kind of abort, source line where it struck, operation) triples'
REAL = ['sppl (all modules)', 'sympy', 'scipy', 'numpy']
STUB = ['interrupts and allocation failures (raised at trace points)']
ASSUMPTIONS = ['Exceptions strike at the lines of SPPL and at calls in scipy and SymPy.',
    'Answers agree when probabilities differ by at most 1e-12 + 1e-8 relative.']

warm = work.warm

def gen(rng, tier):
    opts = rng.choice([dict(), dict(p_if=.5), dict(p_transform=.4), dict(p_switch=.5),
        dict(p_mix=.5), dict(p_poly=.3, solves=2)])
    h = work.Hist(rng, **opts)
    ops = []
    def flush():
        ops.extend(h.ops)
        del h.ops[:]
    h.build()
    if rng.random() < .4:
        work.variant(h)
    flush()
    n = rng.randint(4, 10)
    out = []
    tries = 0
    count = 0
    def maybe(op, p):
        if rng.random() < p:
            for _ in range(rng.choice([1, 1, 2])):
                out.append(['abort', op, core.gen_point(rng),
                    rng.choice(['interrupt', 'memory']),
                    rng.choice(['sppl', 'sppl', 'sppl', 'sympy'])])
            if rng.random() < .12 and op[0] not in ('build', 'cond', 'cons', 'trans',
                    'dedup', 'mix', 'prod', 'load'):
                return              # not retried
        out.append(op)
    for op in ops:
        maybe(op, .35)
    while count < n and tries < 6*n:
        tries += 1
        memo = rng.choice([None, 'A', 'A', 'A'])
        u = rng.random()
        op = h.op_prob(memo, likely=rng.random() < .5) if u < .22 \
            else h.op_logpdf(memo) if u < .3 \
            else h.op_cond(memo) if u < .48 else h.op_cons(memo) if u < .54 \
            else h.op_mi(memo) if u < .58 else h.op_trans() if u < .66 \
            else h.op_sample() if u < .76 else h.op_dedup('t') if u < .86 \
            else h.op_save() if u < .89 else h.op_load() if u < .91 \
            else h.op_mix() if u < .96 else h.op_prod()
        h.remember()
        if op is None:
            continue
        count += 1
        maybe(op, .4)
        if op[0] in ('cond', 'cons', 'trans', 'dedup', 'mix', 'prod', 'load') \
                and rng.random() < .6:
            out.extend(h.probes(op[-1], 1))
        if op[0] == 'dedup':
            out.extend(h.probes(op[1], 1))
    for m in sorted(h.slots)[:4]:
        out.extend(h.probes(m, 1))
        out.append(['sample', m, 2, 7])
    out.append(['text', h.pick()])
    return {'program': h.program(), 'ops': out}

LINES = {'sppl': (('sppl',), ('scipy',)), 'sympy': (('sppl',), ('scipy', 'sympy'))}

def uses(op):
    if op[0] == 'mix':
        return [m for _w, m in op[1]]
    if op[0] == 'prod':
        return list(op[1])
    if op[0] in ('build', 'gc'):
        return []
    return [op[1]]

def play(ctx, case, faulty):
    S = work.Session(work.namespace(case['program']))
    out = []
    for op in case['ops']:
        inner = op[1] if op[0] == 'abort' else op
        if any(m not in S.models for m in uses(inner)):
            out.append(['error', 'missing'])
            continue
        if op[0] == 'abort':
            out.append(['ok', None])
            if faulty:
                T = work.Session(S.ns, S.api)
                # Its results are lost, its arguments are not.
                T.models = dict(S.models)
                (T.memos, T.tables, T.events, T.kept) = (S.memos, S.tables,
                    S.events, S.kept)
                (lines, calls) = LINES[op[4]]
                (how, _r) = abort.aborted(ctx, lambda: T.do(inner), op[2], op[3],
                    lines, calls)
                ctx.stat('aborted_' + inner[0])
            continue
        r = S.attempt(op)
        out.append(r)
    return out

def run(case, ctx):
    ops = case['ops']
    plain = twin(ctx, play, case, False)
    for op, r in zip(ops, plain):
        if op[0] == 'build' and r[0] != 'ok':
            raise core.Skip('a program does not compile')
    got = twin(ctx, play, case, True)
    for i, (op, a, b) in enumerate(zip(ops, plain, got)):
        if op[0] == 'abort':
            continue
        ctx.log(i, op[0], b)
        ok = work.prob_equal(a, b) if op[0] in ('prob', 'logpdf') \
            else work.same_answer(a, b)
        ctx.expect(ok, 'trace', lambda: 'operation %d %r gives %s; had the aborted '
            'operations never begun it would give %s' % (i, op, short(b), short(a)))

def short(x):
    s = repr(x)
    return s if len(s) < 500 else s[:500] + '...'

def shrink(case):
    ops = case['ops']
    for x in shrink_.ops(ops):
        yield dict(case, ops=x)
    for i, op in enumerate(ops):
        if op[0] == 'abort' and op[4] != 'sppl':
            yield dict(case, ops=ops[:i] + [op[:4] + ['sppl']] + ops[i+1:])
        if op[0] == 'abort':
            for u in (0., .25, .5, .75):
                if op[2][0] == 'frac' and op[2][1] > u:
                    yield dict(case, ops=ops[:i] + [op[:2] + [['frac', u]] + op[3:]]
                        + ops[i+1:])
