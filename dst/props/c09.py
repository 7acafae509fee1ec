"""C09: samples are distributed as the exact probabilities say.

Batches of samples, in seeded splits and calls, are counted against the exact
probabilities of events, of positions in a batch, and of pairs of samples of
one batch, with bounds that a correct sampler exceeds with probability 1e-9."""

import math

import numpy
import scipy.stats

from sim import core
from sim import ref
from sim import shrink as shrink_
from sim import work
from sim.ref import RefError, ZeroProb

RUNS = {'quick': 440, 'thorough': 5000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded history that builds a model or posterior, events over '
    'its variables, and a split of some thousand draws into large and small '
    'batches by sample, sample_subset and sample_func. It is non-trivial when '
    'some event has probability strictly between 0 and 1.')
MEASURE = 'distinct (operations that made the model, splits) pairs'
REAL = ['sppl (all modules)', 'sympy', 'scipy', 'numpy']
STUB = ['the random generators passed by the caller (seeded)']
ASSUMPTIONS = ['Each frequency is tested at level 1e-9, so that a correct '
    'sampler fails one of a hundred thousand tests with probability 1e-4.',
    'Events have probability between 0.01 and 0.99 under the reference.']

warm = work.warm

LEVEL = 1e-9

def gen(rng, tier):
    h = work.Hist(rng, **rng.choice([dict(), dict(p_mix=.5), dict(p_if=.5),
        dict(p_discrete=.6), dict(p_transform=.4), dict(p_condition=.4), dict(max_base=4)]))
    m = h.build()
    for _ in range(rng.choice([0, 1, 1, 2])):
        u = rng.random()
        op = h.op_cond(m=m) if u < .5 else h.op_trans(m=m) if u < .7 \
            else h.op_cons(m=m) if u < .75 else h.op_dedup('t', m=m) if u < .85 \
            else h.op_load(m=m)
        h.remember()
        if op:
            h.ops.append(op)
            m = op[-1]
    g = h.use(m)
    events = []
    for _ in range(8):
        ev = g.likely_event(lo=.02, hi=.98, tries=4)
        if ev is not None:
            events.append(ev)
    for n in sorted(g.vars):
        # Each variable on its own, and each pair.
        ev = g.likely_event(lo=.1, hi=.9, tries=4, names=[n], n=1)
        if ev is not None:
            events.append(ev)
            if len(events) > 1:
                events.append(['and', rng.choice(events[:-1]), ev])
    scale = 1 if tier == 'quick' else 4
    calls = []
    vs = sorted(n for n in h.slots[m].vars)
    hows = ['sample', 'subset', 'func']
    rng.shuffle(hows)
    for i, how in enumerate(hows[:rng.choice([2, 3, 3])]):
        some = vs
        if how != 'sample' and rng.random() < .5:
            some = rng.sample(vs, rng.randint(1, len(vs)))
        size = rng.choice([1500*scale, 700] if i == 0 else [2, 3, 2, 4, 8, 1])
        times = {1: 100, 2: 160, 3: 120, 4: 100, 8: 80, 700: 3}.get(size, 1)
        if i == 1 and rng.random() < .5:
            # Many small batches, for how their samples depend on each other.
            (size, times) = (rng.choice([2, 2, 3]), 800)
        calls.append([how, some, size, times, rng.randint(0, 10**6),
            rng.random() < .7])
    return {'program': h.program(), 'ops': h.ops, 'model': m, 'events': events[:12],
        'calls': calls}

def bound(ctx, k, n, p, what):
    """Fail if k successes of n are too unlikely with probability p each."""
    if n == 0:
        return
    eps = 2e-6
    if k > n*p:
        q = min(1., p + eps)
        tail = float(scipy.stats.binom.sf(k - 1, n, q))
    else:
        q = max(0., p - eps)
        tail = float(scipy.stats.binom.cdf(k, n, q))
    ctx.stat('frequencies')
    ctx.expect(tail > LEVEL, 'frequency', lambda: '%s: %d of %d samples; the exact '
        'probability is %.6g (tail %.3g)' % (what, k, n, p, tail))

def run(case, ctx):
    S = work.Session(work.namespace(case['program']))
    R = work.RefSession()
    for op in case['ops']:
        try:
            R.do(op)
        except (ZeroProb, RefError, KeyError, IndexError):
            raise core.Skip('not a history')
        if S.attempt(op)[0] != 'ok':
            raise core.Skip('an operation fails')
    if case['model'] not in R.m:
        raise core.Skip('no model')
    m = S.models[case['model']]
    state = R.m[case['model']]
    events = []
    for ev in case['events']:
        try:
            p = state.prob(ev)
            q = math.exp(m.logprob(S.event(ev)))
        except RefError:
            continue
        if not .01 < p < .99:
            continue
        ctx.expect(abs(p - q) < 1e-5, 'exact', lambda: 'the probability of %r is '
            '%r instead of %r' % (ev, q, p))
        events.append((ev, p, set(ref.event_vars(ev))))
    if not events:
        raise core.Skip('no events')
    ctx.nontrivial = True
    ctx.state([op[0] for op in case['ops']], [c[:1] + c[2:4] for c in case['calls']])
    pooled = {}
    for call in case['calls']:
        (how, some, size, times, seed, shared) = call
        some = [v for v in some if v in state.variables()
            and not (how == 'func' and '[' in v)]
        if not some:
            continue
        prng = numpy.random.RandomState(seed)
        batches = []
        for i in range(times):
            if not shared:
                prng = numpy.random.RandomState((seed*7919 + i) % 2**32)
            if how == 'sample':
                r = m.sample(size, prng=prng)
                r = [{str(k): v for k, v in s.items()} for s in r]
            elif how == 'subset':
                r = m.sample_subset([eval(v, S.ns) for v in some], size, prng=prng)
                r = [{str(k): v for k, v in s.items()} for s in r]
            else:
                r = [dict(zip(some, x)) for x in
                    m.sample_func(S.func(some), size, prng=prng)]
            ctx.expect(len(r) == size, 'count', lambda: '%r gives %d samples'
                % (call, len(r)))
            batches.append(r)
        ctx.stat('draws', size*times)
        have = set(state.variables()) if how == 'sample' else set(some)
        for ei, (ev, p, vs) in enumerate(events):
            if not vs <= have:
                continue
            hits = [[holds(ev, s) for s in b] for b in batches]
            k = sum(map(sum, hits))
            n = size*times
            bound(ctx, k, n, p, '%r of %r' % (ev, call))
            got = pooled.setdefault(ei, [0, 0])
            got[0] += k
            got[1] += n
            if size == 1:
                continue
            if times >= 20:
                # Positions in the batch, and pairs within it.
                for j in sorted({0, 1, size//2, size - 1}):
                    bound(ctx, sum(h[j] for h in hits), times, p,
                        'position %d: %r of %r' % (j, ev, call))
                for (j, l) in sorted({(0, 1), (0, size - 1), (size - 2, size - 1)}):
                    if j < l:
                        pair(ctx, [(h[j], h[l]) for h in hits], p, p, ev, call)
            else:
                h = hits[0]
                pair(ctx, list(zip(h[0::2], h[1::2])), p, p, ev, call)
                half = len(h)//2
                pair(ctx, list(zip(h[:half], h[half:])), p, p, ev, call)
                for part in (h[:half], h[half:], h[:len(h)//8], h[-(len(h)//8):]):
                    bound(ctx, sum(part), len(part), p, 'part of batch: %r of %r'
                        % (ev, call))
    for ei in sorted(pooled):
        (k, n) = pooled[ei]
        bound(ctx, k, n, events[ei][1], 'all: %r' % (events[ei][0],))
    ctx.log(sorted(pooled.items()))

def pair(ctx, pairs, p, q, ev, call):
    n = len(pairs)
    for a in (True, False):
        for b in (True, False):
            k = sum(1 for x, y in pairs if x == a and y == b)
            bound(ctx, k, n, (p if a else 1 - p)*(q if b else 1 - q),
                'pairs %r of one batch: %r of %r' % ((a, b), ev, call))

def holds(ev, s):
    def look(v):
        x = s[v]
        return str(x) if isinstance(x, str) else float(x)
    return bool(ref.eval_event(ev, look))

def shrink(case):
    for c in shrink_.lists(case['calls'], 1):
        yield dict(case, calls=c)
    for c in shrink_.lists(case['events'], 1):
        yield dict(case, events=c)
    for x in shrink_.ops(case['ops']):
        yield dict(case, ops=x)
    for i, e in enumerate(case['events']):
        for ev in shrink_.events(e):
            yield dict(case, events=case['events'][:i] + [ev] + case['events'][i+1:])
