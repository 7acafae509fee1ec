"""C15: results do not depend on the hash seed or on the iteration order of sets.

The package runs with sets whose iteration order, and with hashes whose values,
are chosen by a seed, in this process and in processes with other hash seeds, on
histories in which the caller wrote sets of values and variables in another
order.  Every result equals that of a run with none of it."""

import json
import os
import random
import sys

import numpy

from sim import core
from sim import orders
from sim import prog
from sim import remote
from sim import seams
from sim import shrink as shrink_
from sim import work
from sim.core import twin

RUNS = {'quick': 600, 'thorough': 9000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded history of 4 to 12 operations and three or four variants of '
    'the order of sets, the hash values and seed, and the order in which the caller wrote '
    'sets. It is non-trivial when a variant iterated over a set with two or more '
    'elements in an order of its own.')
MEASURE = 'distinct (kind of variant, operation, whether orders were permuted)'
REAL = ['sppl (all modules, compiled with other iterations over sets)', 'sympy', 'scipy',
    'numpy', 'hash seed of the interpreter (two more processes)']
STUB = ['iteration order of sets and values of hash() in the package']
ASSUMPTIONS = ['Numbers agree up to 1e-9 relative.']

SEEDS = [1, 4242]
HELPERS = []

def warm():
    orders.install()
    if not os.environ.get(remote.ENV):
        HELPERS.extend(remote.Helper('C15', s) for s in SEEDS)
    work.warm()
    for h in HELPERS:
        h.wait()

def serve():
    remote.serve(play)

def gen(rng, tier):
    opts = rng.choice([dict(), dict(p_if=.5), dict(p_transform=.4), dict(p_switch=.5),
        dict(p_mix=.5), dict(p_poly=.3, solves=2), dict(max_base=5, stmts=(3, 6)),
        dict(max_base=5, stmts=(3, 6))])
    h = work.Hist(rng, **opts)
    h.build()
    if rng.random() < .3:
        work.variant(h)
    n = rng.randint(3, 9)
    tries = 0
    while len(h.ops) < n + 1 and tries < 6*n:
        tries += 1
        memo = rng.choice([None, None, 'A'])
        u = rng.random()
        op = h.op_prob(memo, likely=rng.random() < .5) if u < .2 \
            else h.op_logpdf(memo) if u < .25 \
            else h.op_cond(memo) if u < .45 else h.op_cons(memo) if u < .5 \
            else h.op_mi(memo) if u < .55 else h.op_trans() if u < .6 \
            else h.op_sample() if u < .78 else h.op_dedup('t') if u < .84 \
            else h.op_save() if u < .88 else h.op_load() if u < .9 \
            else h.op_mix() if u < .92 else h.op_simp() if u < .935 \
            else h.op_prod() if u < .95 \
            else ['sppl', h.pick()] if u < .97 \
            else ['compile', rng.choice(h.programs), rng.randint(0, 9)]
        h.remember()
        if op is not None:
            h.ops.append(op)
            if op[0] in ('cond', 'cons', 'trans', 'dedup', 'mix', 'simp', 'prod',
                    'load'):
                h.ops.append(rng.choice([['save', op[-1]], ['sample', op[-1], 3, 5]]))
            elif op[0] == 'prob' and rng.random() < .5:
                h.ops.append(['solve', op[2]])
    h.ops.append(['compile', rng.choice(h.programs), rng.randint(0, 9)])
    h.ops.append(['save', h.pick()])
    # where, order of sets, salt of hashes, order of the caller
    def seed():
        return rng.randint(1, 10**6)
    variants = [['here', seed(), 0, None], ['here', None, seed(), seed()],
        [rng.randrange(len(SEEDS)), None, 0, None]]
    if rng.random() < .5:
        variants.append([rng.randrange(len(SEEDS)), seed(), seed(), seed()])
    return {'program': h.program(), 'ops': h.ops, 'variants': variants}

# ----------------------------------------------------------------------------
# The order in which the caller writes sets.

def reorder(x, rng):
    """Event, statement or operation with the members of its sets reordered."""
    if isinstance(x, list):
        if len(x) == 3 and x[0] in ('in', 'notin') and isinstance(x[2], list):
            vs = list(x[2])
            rng.shuffle(vs)
            return [x[0], reorder(x[1], rng), vs]
        return [reorder(y, rng) for y in x]
    if isinstance(x, dict):
        return {k: reorder(v, rng) for k, v in x.items()}
    return x

def solution(A, ev, ns):
    """Members of the solution set of an event of one variable."""
    e = A.event(ev, ns)
    s = e.solve()
    points = [k*.25 for k in range(-24, 25)] + [1/3, -1e9, 1e9, float('inf')]
    points += ['a', 'b', 'c', 'd', 'x', 'y']
    def has(p):
        try:
            return bool(p in s)
        except TypeError:
            return 'TypeError'
    return [has(p) for p in points]

def pairs(text):
    """Contents of a saved model, with the order of its mappings."""
    return json.loads(text, object_pairs_hook=lambda p: ['object'] + [list(x) for x in p])

def do(S, op, caller):
    A = S.api
    if op[0] == 'subset':
        vs = [eval(v, S.ns) for v in op[2]]
        if caller:
            caller.shuffle(vs)
        return work.canon_samples(S.models[op[1]].sample_subset(set(vs), op[3],
            prng=S.prng(op[4])))
    if op[0] == 'solve':
        return solution(A, op[1], S.ns)
    if op[0] == 'compile':
        c = A.to_python.SPPL_Compiler(prog.program_source(op[1], op[2]))
        return c.render_module()
    if op[0] == 'sppl':
        import importlib
        m = importlib.import_module('sppl.compilers.spe_to_sppl')
        return m.render_sppl(S.models[op[1]]).getvalue()
    if op[0] == 'save':
        return pairs(A.save(S.models[op[1]]))
    if caller and op[0] != 'compile':
        op = reorder(op, caller)
    return S.do(op)

def play(ctx, case, variant):
    (where, order, salt, caller) = variant
    with seams.World() as w:
        random.seed(0)
        numpy.random.seed(0)
        orders.activate(order, salt)
        rng = None if caller is None else random.Random(caller)
        S = work.Session(work.namespace(case['program']))
        out = []
        for op in case['ops']:
            n = orders.PERMUTED
            try:
                r = ['ok', do(S, op, rng)]
            except Exception as e:
                r = ['error', type(e).__name__]
            out.append(r)
            if order is not None:
                ctx.state(where == 'here', op[0], orders.PERMUTED > n)
        if orders.PERMUTED:
            ctx.fault('permuted_iterations', orders.PERMUTED)
        if salt:
            ctx.fault('other_hashes')
        if caller is not None:
            ctx.fault('caller_orders')
        if where != 'here':
            ctx.fault('other_hash_seed')
        if orders.PERMUTED:
            ctx.nontrivial = True
        return out

def run(case, ctx):
    ops = case['ops']
    plain = twin(ctx, play, case, ['here', None, 0, None])
    if any(op[0] == 'build' and r[0] != 'ok' for op, r in zip(ops, plain)):
        raise core.Skip('a program does not compile')
    for v in case['variants']:
        got = twin(ctx, play, case, v) if v[0] == 'here' \
            else HELPERS[v[0]].call(ctx, [case, v])
        for i, (op, a, b) in enumerate(zip(ops, plain, got)):
            ctx.log(v, i, op[0], b)
            ok = work.prob_close(a, b) if op[0] in ('prob', 'logpdf') else a[0] == b[0] \
                and (a[0] == 'error' or work.same(a[1], b[1], 1e-9, 1e-9))
            ctx.expect(ok, 'order', lambda: 'operation %d %r gives %s with %s; without it '
                'gives %s' % (i, op, short(b), describe(v), short(a)))

def describe(v):
    (where, order, salt, caller) = v
    r = []
    if where != 'here':
        r.append('hash seed %d' % (SEEDS[where],))
    if order is not None:
        r.append('the order %d of sets' % (order,))
    if salt:
        r.append('other hashes (%d)' % (salt,))
    if caller is not None:
        r.append('sets written in another order (%d)' % (caller,))
    return ', '.join(r)

def short(x):
    s = repr(x)
    return s if len(s) < 700 else s[:700] + '...'

OWN_WORLD = True

def shrink(case):
    vs = case['variants']
    for x in shrink_.lists(vs, 1):
        yield dict(case, variants=x)
    for i, v in enumerate(vs):
        for w in (['here'] + v[1:], [v[0], None] + v[2:], v[:2] + [0, v[3]],
                v[:3] + [None]):
            if w != v:
                yield dict(case, variants=vs[:i] + [w] + vs[i+1:])
    for x in shrink_.ops(case['ops']):
        yield dict(case, ops=x)
    for i, op in enumerate(case['ops']):
        if op[0] == 'compile':
            for p in shrink_.programs(op[1]):
                yield dict(case, ops=case['ops'][:i] + [['compile', p, op[2]]]
                    + case['ops'][i+1:])
