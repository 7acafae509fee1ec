"""C06: merging and simplification never change a distribution.

Histories that build mixtures and products with many equal and nearly equal
components, merge duplicate subtrees with shared tables, condition and query,
under hash functions with collisions and with simplification switched on or off.
Every answer is compared with the reference and with a twin that never merges."""

import os

from sim import core
from sim import inject
from sim import shrink as shrink_
from sim import work
from sim.core import twin

RUNS = {'quick': 480, 'thorough': 6000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded history of 6 to 16 operations: programs and variants '
    'of them, mixtures (also with the choice as a variable), products, posteriors, merges through shared tables, and '
    'queries before and after. It is non-trivial when something was merged.')
MEASURE = 'distinct (operation kinds, table size, hash modulus, simplification) tuples'
REAL = ['sppl (all modules)', 'sympy', 'scipy', 'numpy']
STUB = ['hash() in sppl modules (colliding)', 'SPPL_NO_SIMPLIFY (drawn per run)']
ASSUMPTIONS = ['Answers agree when they differ by at most 1e-7 + 2e-6 relative.']

warm = work.warm

def gen(rng, tier):
    opts = rng.choice([dict(), dict(p_mix=.6), dict(p_if=.5), dict(p_transform=.4),
        dict(p_nominal=.6), dict(p_discrete=.6), dict(p_if=.4, stmts=(3, 5))])
    h = work.Hist(rng, **opts)
    h.build(mode='cmd' if rng.random() < .7 else 'src')
    n = rng.randint(6, 14)
    tries = 0
    for _ in range(rng.choice([1, 1, 2, 3])):
        work.variant(h)
    if rng.random() < .3:
        h.build()
    queries = []
    start = len(h.ops)
    while len(h.ops) - start < n and tries < 6*n:
        tries += 1
        u = rng.random()
        if queries and u < .2:
            op = list(rng.choice(queries))
            mine = set(h.vars_of[op[1]])
            ms = [m for m in sorted(h.slots) if set(h.slots[m].vars) >= mine]
            if not ms:
                continue
            op[1] = rng.choice(ms)
        elif u < .35:
            op = h.op_prob(None, likely=True)
        elif u < .42:
            op = h.op_logpdf(None)
        elif u < .5:
            op = h.op_mix()
        elif u < .53:
            op = h.op_exposed()
        elif u < .58:
            op = h.op_prod()
        elif u < .68:
            op = h.op_cond(None)
        elif u < .72:
            op = h.op_cons(None)
        elif u < .75:
            op = h.op_trans()
        elif u < .88:
            op = h.op_dedup(rng.choice(['t', 't', 't', 'u']))
        elif u < .92:
            op = h.op_simp()
        else:
            op = h.op_load()
        h.remember()
        if op is None:
            continue
        h.ops.append(op)
        if op[0] in ('prob', 'logpdf'):
            queries.append(op)
        if op[0] == 'dedup':
            # The merged model, and the model itself, which shares parts now.
            h.ops.extend(h.probes(op[3], 1) + h.probes(op[1], 1))
        if op[0] == 'mix' and rng.random() < .5:
            h.ops.append(h.op_simp(op[-1]))
            op = h.ops[-1]
            h.remember()
        if op[0] in ('mix', 'exposed', 'prod', 'simp', 'cond', 'cons') and rng.random() < .7:
            h.ops.extend(h.probes(op[-1], 1))
    # Pairs that the package may take for equal.
    ms = sorted(h.slots)
    for _ in range(6):
        (a, b) = (rng.choice(ms), rng.choice(ms))
        if a != b and set(h.slots[a].vars) == set(h.slots[b].vars):
            evs = [q[2] for q in h.probes(a, 3) if q[0] == 'prob']
            h.ops.append(['eq', a, b, evs])
    return {'program': h.program(), 'ops': h.ops, 'hash': rng.choice([1, 1, 2, 3, 7, 0]),
        'simplify': rng.random() < .6}

def play(ctx, case, merge):
    if merge:
        if case['hash']:
            inject.inject(hash=inject.Collide(case['hash']))
            ctx.fault('hash_collisions')
        if not case['simplify']:
            os.environ['SPPL_NO_SIMPLIFY'] = '1'
            ctx.fault('no_simplify')
    S = work.Session(work.namespace(case['program']))
    out = []
    for op in case['ops']:
        if op[0] == 'dedup' and not merge:
            if op[1] in S.models:
                S.models[op[3]] = S.models[op[1]]
            out.append(['ok', 'model'])
            continue
        if op[0] == 'eq':
            ok = op[1] in S.models and op[2] in S.models
            out.append(['ok', bool(ok and S.models[op[1]] == S.models[op[2]])])
            continue
        if op[0] == 'dedup' and op[1] in S.models:
            ctx.fault('merges')
        out.append(S.attempt(op))
        ctx.state(op[0], [len(S.tables[t]) for t in sorted(S.tables)],
            case['hash'] if merge else None, case['simplify'])
    return out

def run(case, ctx):
    ops = case['ops']
    R = work.RefSession()
    expected = []
    for op in ops:
        e = R.attempt(op) if op[0] != 'eq' else None
        if op[0] == 'build' and op[4] not in R.m:
            raise core.Skip('not a program')
        expected.append(e)
    plain = twin(ctx, play, case, False)
    merged = twin(ctx, play, case, True)
    for i, (op, a, b, e) in enumerate(zip(ops, plain, merged, expected)):
        ctx.log(i, op[0], b)
        if op[0] == 'eq':
            for r, how in ((a, 'without'), (b, 'with')):
                if not r[1] or op[1] not in R.m or op[2] not in R.m:
                    continue
                for ev in op[3]:
                    (p, q) = (R.m[op[1]].prob(ev), R.m[op[2]].prob(ev))
                    ctx.expect(abs(p - q) < 1e-6, 'equal', lambda: 'models %s and %s '
                        'are equal %s merging, but P(%r) is %r and %r'
                        % (op[1], op[2], how, ev, p, q))
            continue
        ok = work.prob_equal(a, b) if op[0] in ('prob', 'logpdf') else a[0] == b[0]
        ctx.expect(ok, 'merge', lambda: 'operation %d %r returns %r; without '
            'merging it returns %r' % (i, op, b, a))
        if op[0] in ('prob', 'logpdf', 'mi'):
            ctx.expect(work.ref_agrees(op, b, e), 'distribution', lambda:
                'operation %d %r returns %r instead of %r' % (i, op, b, e))

def shrink(case):
    if case['hash']:
        yield dict(case, hash=0)
    if not case['simplify']:
        yield dict(case, simplify=True)
    for x in shrink_.ops(case['ops']):
        yield dict(case, ops=x)
