"""C08: every sample is a possible outcome of the model.

Models, posteriors and transforms are sampled with scripted generators whose
uniform numbers include the extreme ones.  Each sample must have the requested
variables and lie where the reference gives its neighbourhood probability."""

import math

import numpy

from sim import api
from sim import core
from sim import draws
from sim import ref
from sim import shrink as shrink_
from sim import work
from sim.ref import RefError, ZeroProb

RUNS = {'quick': 600, 'thorough': 8000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded history that builds models, posteriors, transforms '
    'and restored models, each sampled by sample, sample_subset and sample_func '
    'with scripted and ordinary generators. It is non-trivial when an extreme '
    'number was drawn.')
MEASURE = 'distinct (operation, variables requested, number of samples, extremes) tuples'
REAL = ['sppl (all modules)', 'sympy', 'scipy', 'numpy']
STUB = ['the random generator passed by the caller (scripted uniform numbers)']
ASSUMPTIONS = ['A sample is possible when the box of half-width 1e-6 (relative) '
    'around it has positive probability in the reference.',
    'Derived values agree up to 1e-7 relative.']

warm = work.warm

OPTS = [dict(), dict(p_transform=.45), dict(p_mix=.5), dict(p_condition=.5),
    dict(p_if=.4), dict(p_discrete=.7), dict(p_constrain=.3)]

def gen(rng, tier):
    h = work.Hist(rng, **rng.choice(OPTS))
    h.build()
    if rng.random() < .3:
        h.build()
    n = rng.randint(2, 6)
    for _ in range(4*n):
        if n == 0:
            break
        u = rng.random()
        op = h.op_cond() if u < .45 else h.op_cons() if u < .6 \
            else h.op_trans() if u < .8 else h.op_mix() if u < .85 \
            else h.op_prod() if u < .88 else h.op_dedup('t') if u < .94 else h.op_load()
        h.remember()
        if op:
            h.ops.append(op)
            n -= 1
    ops = list(h.ops)
    for m in sorted(h.slots):
        for _ in range(rng.choice([1, 2, 3])):
            op = h.op_sample(m, n=rng.choice([0, 1, 2, 3, 5, 9, 20]))
            ops.append(op + [rng.choice([0., .2, .4, .8])])
    return {'program': h.program(), 'ops': ops,
        'vars': {m: sorted(h.slots[m].vars) for m in h.slots}}

SAMPLING = ('sample', 'subset', 'func')

def singular(x):
    """Whether an expression in the case is undefined at an end of the support."""
    if isinstance(x, list):
        if x and x[0] in ('log', 'recip', 'sqrt', 'exp', 'expb'):
            return True
        return any(singular(y) for y in x)
    if isinstance(x, dict):
        return any(singular(y) for y in x.values())
    return False

def run(case, ctx):
    S = work.Session(work.namespace(case['program']))
    R = work.RefSession()
    zero = not singular(case['ops'])
    for i, op in enumerate(case['ops']):
        if op[0] not in SAMPLING:
            try:
                R.do(op)
            except ZeroProb:
                continue
            except (RefError, KeyError, IndexError):
                if op[0] == 'build':
                    raise core.Skip('not a program')
                continue
            if all(m in S.models for m in uses(op)):
                r = S.attempt(op)
                if r[0] != 'ok':
                    # Other checks decide whether that is right.
                    R.m.pop(op[-1], None)
            continue
        if op[1] not in S.models or op[1] not in R.m:
            continue
        sampled(ctx, S, R, op, zero, i)

def uses(op):
    return [m for _w, m in op[1]] if op[0] == 'mix' else list(op[1]) \
        if op[0] == 'prod' else [] if op[0] == 'build' else [op[1]]

def sampled(ctx, S, R, op, zero, i):
    m = S.models[op[1]]
    state = R.m[op[1]]
    (n, seed, p_edge) = op[-3:]
    prng = draws.Scripted(seed, p_edge, zero) if p_edge else numpy.random.RandomState(seed)
    names = state.variables()
    if op[0] != 'sample' and any(v not in names for v in op[2]):
        return
    what = 'operation %d %r' % (i, op)
    try:
        if op[0] == 'sample':
            got = m.sample(n, prng=prng)
            want = names
        elif op[0] == 'subset':
            got = m.sample_subset([eval(v, S.ns) for v in op[2]], n, prng=prng)
            want = sorted(set(op[2]))
        else:
            rows = m.sample_func(S.func(op[2]), n, prng=prng)
            want = list(op[2])
            ctx.expect(all(len(r) == len(want) for r in rows), 'shape',
                lambda: '%s returns %r' % (what, rows))
            got = [dict(zip(want, r)) for r in rows]
    except (core.Violation, core.HarnessError):
        raise
    except Exception as e:
        ctx.fail('rejected', '%s raises %s: %s' % (what, type(e).__name__, str(e)[:200]))
    ctx.log(what, work.canon_samples(got))
    if getattr(prng, 'extreme', 0):
        ctx.fault('extreme_draws', prng.extreme)
    ctx.stat('samples', len(got))
    ctx.state(op[0], len(want), n, getattr(prng, 'extreme', 0) > 0)
    ctx.expect(len(got) == n, 'count', lambda: '%s returns %d samples instead of %d'
        % (what, len(got), n))
    for s in got:
        s = {str(k): v for k, v in s.items()}
        ctx.expect(sorted(s) == sorted(want), 'variables', lambda: '%s returns '
            'variables %r instead of %r' % (what, sorted(s), sorted(want)))
        if getattr(prng, 'extreme', 0) and any(not isinstance(v, str)
                and not abs(float(v)) < 1e15 for v in s.values()):
            # The inverse of 0 or 1 of an unbounded distribution.
            ctx.stat('overflows')
            continue
        possible(ctx, state, s, what, getattr(prng, 'extreme', 0))

def value(x):
    return str(x) if isinstance(x, str) else float(x)

def possible(ctx, state, s, what, extreme):
    s = {k: value(v) for k, v in s.items()}
    box = []
    for k in sorted(s):
        v = s[k]
        if isinstance(v, str):
            box.append(['in', ['v', k], [v]])
        else:
            ctx.expect(math.isfinite(v), 'infinite', lambda: '%s returns %r' % (what, s))
            eps = 1e-6*(1 + abs(v))
            box.append(['range', v - eps, False, ['v', k], v + eps, False])
    ev = box[0] if len(box) == 1 else ['and'] + box
    ps = [p for p in state.paths]
    good = [p for p in ps if p.mass((ev,)) > 0]
    if not good and extreme and tail(ps, s):
        # The neighbourhood is too unlikely to be computed.
        ctx.stat('tails')
        good = ps
    ctx.expect(good, 'impossible', lambda: '%s returns %r, which has probability '
        'zero' % (what, s))
    # Exactly, where nothing but the base variables is involved; and the values
    # of derived variables.
    def fine(p):
        for b, d in p.base.items():
            if b in s and not in_support(d, s[b]):
                return 'value of %s is not in the support' % (b,)
        for k, e in p.derived.items():
            root = p.root(k)
            if k in s and root in s:
                want = p.value(k, root, s[root])
                if not (want == s[k] or abs(want - s[k]) <= 1e-7*(1 + abs(want))):
                    # A jump of the expression may be at the value.
                    return 'value of %s is %r instead of %r' % (k, s[k], want)
        for c in p.cons:
            if exact(c) and all(v in s and v in p.base for v in ref.event_vars(c)):
                if not ref.eval_event(c, lambda v: s[v]):
                    return '%r does not hold' % (c,)
        return None
    reasons = [fine(p) for p in good]
    ctx.expect(None in reasons, 'outcome', lambda: '%s returns %r: %s'
        % (what, s, reasons[0]))

def tail(paths, s):
    for p in paths:
        for b, d in p.base.items():
            if ref.dist_kind(d) == 'nom':
                continue
            if b not in s:
                return True
            if isinstance(s[b], str):
                continue
            if ref.dist_kind(d) == 'disc':
                if s[b] > ref.disc_atoms(d)[-1][0] and in_support(d, s[b]):
                    return True
                continue
            c = float(ref.frozen(d).cdf(s[b]))
            if min(c, 1 - c) < 1e-12:
                return True
    return False

def exact(ev):
    return all(ref.leaf_expr(l)[0] == 'v' for l in ref.event_leaves(ev))

def in_support(d, v):
    kind = ref.dist_kind(d)
    if kind == 'nom':
        return isinstance(v, str) and any(x == v and w > 0 for x, w in d[1])
    if isinstance(v, str):
        return False
    if kind == 'cont':
        (a, b) = ref.cont_bounds(d)
        return a <= v <= b
    if d[0] in ('poisson', 'geom', 'nbinom'):
        return v == int(v) and ref.frozen(d).pmf(v) > 0
    return any(x == v for x, _p in ref.disc_atoms(d))

def shrink(case):
    for x in shrink_.ops(case['ops']):
        yield dict(case, ops=x)
    for i, op in enumerate(case['ops']):
        if op[0] in SAMPLING:
            for n in (1, 2, 3):
                if op[-3] > n:
                    yield dict(case, ops=case['ops'][:i] + [op[:-3] + [n] + op[-2:]]
                        + case['ops'][i+1:])
            if op[-1]:
                yield dict(case, ops=case['ops'][:i] + [op[:-1] + [0.]] + case['ops'][i+1:])
