"""C16: a posterior depends only on the evidence, not on how it arrives.

Pieces of evidence (events and assignments) arrive in several seeded schedules:
other orders, batches, duplicates, with queries, saves, merges, caches and
aborted or impossible evidence in between.  Every posterior is compared with the
reference posterior given all the evidence."""

import math

from sim import abort
from sim import api
from sim import core
from sim import prog
from sim import shrink as shrink_
from sim import work
from sim.prog import Gen
from sim.ref import Ref, RefError, ZeroProb

RUNS = {'quick': 520, 'thorough': 6000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded program, 2 to 4 pieces of evidence, 2 or 3 arrival '
    'schedules of them and probe queries. It is non-trivial when the schedules '
    'differ in order, batching, duplicates, noise or faults.')
MEASURE = 'distinct (order and batching of evidence, noise) schedules'
REAL = ['sppl (all modules)', 'sympy', 'scipy', 'numpy']
STUB = ['interrupts and allocation failures (raised at trace points)']
ASSUMPTIONS = ['Answers agree when they differ by at most 1e-7 + 2e-6 relative.',
    'Evidence has probability at least 0.001, or exactly zero, or includes an '
    'improbable event of weight computed without cancellation.',
    'Assignments mix with events only where every order is defined alike.']

warm = work.warm

OPTS = [dict(), dict(p_mix=.5), dict(p_nominal=.6, p_tiny=.3), dict(p_nominal=.5, p_tiny=.4, p_far=.1), dict(p_transform=.4),
    dict(p_if=.5, p_switch=.2), dict(stmts=(3, 6))]

def combine(state, pieces):
    evs = [p[1] for p in pieces if p[0] == 'ev']
    for e in evs:
        state = state.condition(e)
    a = {}
    for p in pieces:
        if p[0] == 'as':
            a.update(map(tuple, p[1]))
    return state.constrain(a) if a else state

def in_order(state, pieces):
    for p in pieces:
        state = state.condition(p[1]) if p[0] == 'ev' \
            else state.constrain(dict(map(tuple, p[1])))
    return state

def gen(rng, tier):
    opts = dict(work.SMALL, stmts=(1, 4), max_base=4, solves=1, max_paths=12,
        p_condition=.1, p_constrain=.03)
    opts.update(rng.choice(OPTS))
    narrowing = rng.random() < .12
    if narrowing:
        opts.update(p_nominal=.8, p_tiny=.8)
    g = Gen(rng, **opts)
    program = g.run()
    prior = g.ref
    g.solves = 1 if rng.random() < .4 else 0
    pieces = []
    rare = False
    if narrowing:
        rare = narrow(rng, g, pieces)
    for _ in range(0 if rare else rng.choice([2, 2, 3, 3, 4])):
        if rng.random() < .15 and not any(p[0] == 'as' for p in pieces):
            a = g.gen_assignment()
            if a and g.ref.density(dict(map(tuple, a[:2]))) > -6:
                pieces.append(['as', a[:2]])
                try:
                    g.ref = g.ref.constrain(dict(map(tuple, a[:2])))
                except ZeroProb:
                    pieces.pop()
                continue
        ev = g.rare_event() if rng.random() < .06 else None
        if ev is not None:
            rare = True
        else:
            ev = g.likely_event(lo=.1, hi=rng.choice([.97, 1]), tries=8)
        if ev is not None:
            pieces.append(['ev', ev])
            g.ref = g.ref.condition(ev)
    # Assignments fix variables; keep them where all orders agree.
    g.solves = 1 if rng.random() < .3 else 0
    probes = [g.gen_event() for _ in range(3)]
    schedules = []
    n = len(pieces)
    for _ in range(rng.choice([2, 2, 3])):
        order = list(range(n))
        rng.shuffle(order)
        steps = []
        while order:
            k = rng.choice([1, 1, 1, 2, 3])
            (batch, order) = (order[:k], order[k:])
            if not all(pieces[i][0] == 'ev' for i in batch):
                steps.extend([['c', [i], rng.choice([None, 'A'])] for i in batch])
            else:
                steps.append(['c', batch, rng.choice([None, 'A'])])
        noisy = []
        for s in steps:
            for _k in range(rng.choice([0, 0, 1, 2])):
                noisy.append(gen_noise(rng, g))
            noisy.append(s)
            if rng.random() < .2:
                noisy.append(['c', list(s[1]), None])
            elif rng.random() < .15:
                noisy.append(['c', [rng.choice(s[1])], 'A'])
        schedules.append(noisy)
    if rare and narrowing:
        schedules[0] = [['c', [i], None] for i in range(n)]
    zero = None
    if rng.random() < .5:
        zero = gen_zero(rng, g, prior)
    return {'program': program, 'style': rng.randint(0, 99),
        'mode': rng.choice(['cmd', 'src']), 'pieces': pieces,
        'rare': rare, 'schedules': schedules, 'probes': probes, 'zero': zero,
        'zero_at': rng.randint(0, 9)}

def narrow(rng, g, pieces):
    """Evidence on a nominal variable that leaves less and less of it, down to
    an improbable value."""
    for n in sorted(g.vars):
        v = g.vars[n]
        if v.kind != 'nom' or not v.base or len(v.vals) < 3:
            continue
        vals = sorted(v.vals, key=lambda x: -g.ref.prob(['in', ['v', n], [x]]))
        while vals and g.ref.prob(['in', ['v', n], [vals[-1]]]) == 0:
            vals.pop()
        while len(vals) > 1:
            vals.pop(0)
            ev = ['in', ['v', n], list(vals)]
            try:
                g.ref = g.ref.condition(ev)
            except ZeroProb:
                return False
            pieces.append(['ev', ev])
        if len(pieces) > 1:
            return True
    return bool(pieces)

def gen_noise(rng, g):
    u = rng.random()
    if u < .3:
        return ['query', g.gen_event(plain=True), rng.choice([None, 'A'])]
    if u < .45:
        return ['save']
    if u < .6:
        return ['dedup']
    if u < .9:
        return ['abort', core.gen_point(rng), rng.choice(['interrupt', 'memory'])]
    return ['other', g.gen_event(plain=True)]

def gen_zero(rng, g, prior):
    """Two events that exclude each other, each possible on its own."""
    names = sorted(n for n, v in g.vars.items() if v.base)
    if not names:
        return None
    for _ in range(6):
        n = rng.choice(names)
        v = g.vars[n]
        if v.kind == 'nom':
            vals = list(v.vals)
            rng.shuffle(vals)
            k = rng.randint(1, max(1, len(vals) - 1))
            if rng.random() < .3:
                # What is nearly certain, and the rest.
                vals.sort(key=lambda x: -prior.prob(['in', ['v', n], [x]]))
                k = max(1, len(vals) - 1)
            (a, b) = (['in', ['v', n], vals[:k]], ['in', ['v', n], vals[k:] or ['zz']])
        else:
            c = g.threshold(v)
            (a, b) = rng.choice([
                (['cmp', ['v', n], '<', c], ['cmp', ['v', n], '>=', c]),
                (['cmp', ['v', n], '<=', c], ['cmp', ['v', n], '>', c])])
        if rng.random() < .5:
            (a, b) = (b, a)
        if prior.prob(a) > .01:
            return [a, b]
    return None

def ask(A, model, ns, ev, kw={}):
    try:
        return math.exp(model.logprob(A.event(ev, ns), **kw))
    except Exception as e:
        return '%s: %s' % (type(e).__name__, str(e)[:200])

def close(a, b):
    return not isinstance(a, str) and api.close(a, b, 2e-6, 1e-7)

def conj(evs):
    return evs[0] if len(evs) == 1 else ['and'] + evs

def run(case, ctx):
    A = work.get_api()
    program = case['program']
    pieces = case['pieces']
    if not pieces:
        raise core.Skip('no evidence')
    try:
        prior = prog.ref_exec(Ref(), program['stmts'])
        ns = A.namespace(dict(program, stmts=program['stmts']))
        post = combine(prior, pieces)
        # Where assignments and mixed distributions meet, orders may be
        # defined differently; those cases say nothing here.
        import itertools
        for perm in itertools.permutations(pieces):
            alt = in_order(prior, list(perm))
            for e in case['probes']:
                if abs(alt.prob(e) - post.prob(e)) > 1e-9:
                    raise core.Skip('orders are defined differently')
        if all(p[0] == 'ev' for p in pieces) \
                and prior.prob(conj([p[1] for p in pieces])) < (1e-60 if case.get('rare') else 1e-3):
            raise core.Skip('evidence is too unlikely')
        expected = [post.prob(e) for e in case['probes']]
    except (RefError, ZeroProb, KeyError, IndexError):
        raise core.Skip('not a valid case')
    model = A.run(program, ns, case['style']) if case['mode'] == 'cmd' \
        else A.run_source(program, case['style'])
    first = [ask(A, model, ns, e) for e in case['probes']]
    memos = {}
    def kw(name):
        if name is None:
            return {}
        if name not in memos:
            memos[name] = A.spe.Memo()
        return {'memo': memos[name]}
    evs_only = all(p[0] == 'ev' for p in pieces)
    lp_all = math.log(prior.prob(conj([p[1] for p in pieces]))) if evs_only else None
    ctx.nontrivial = len(case['schedules']) > 1
    # Duplicates of a piece that arrived already.
    for si, steps in enumerate(case['schedules']):
        m = model
        total = 0.
        table = {}
        seen = []
        where = 'schedule %d' % (si,)
        ctx.state([s[0:2] for s in steps])
        for s in steps:
            if s[0] == 'c':
                if any(i >= len(pieces) for i in s[1]):
                    continue
                ps = [pieces[i] for i in s[1]]
                again = all(i in seen for i in s[1])
                seen.extend(s[1])
                try:
                    if ps[0][0] == 'as':
                        m = m.constrain(A.assignment(ps[0][1], ns), **kw(s[2]))
                    else:
                        e = A.event(conj([p[1] for p in ps]), ns)
                        if evs_only:
                            total += m.logprob(e, **kw(s[2]))
                        m = m.condition(e, **kw(s[2]))
                except Exception as ex:
                    ctx.fail('rejected', '%s: possible evidence %r is rejected: %s: %s'
                        % (where, ps, type(ex).__name__, str(ex)[:200]))
                ctx.log(where, 'evidence', s[1])
                if again:
                    ctx.stat('duplicates')
            elif s[0] == 'query':
                ask(A, m, ns, s[1], kw(s[2]))
            elif s[0] == 'save':
                m = A.restore(A.save(m))
            elif s[0] == 'dedup':
                m = A.spe.spe_cache_duplicate_subtrees(m, table)
            elif s[0] == 'other':
                try:
                    m.condition(A.event(s[1], ns))
                except Exception:
                    pass
            elif s[0] == 'abort':
                todo = [p for i, p in enumerate(pieces) if p[0] == 'ev' and i not in seen]
                if todo:
                    e = A.event(todo[0][1], ns)
                    abort.aborted(ctx, lambda: m.condition(e, **kw('A')), s[1], s[2])
        if set(seen) < set(range(len(pieces))):
            continue
        got = [ask(A, m, ns, e) for e in case['probes']]
        ctx.log(where, got, expected)
        for e, a, x in zip(case['probes'], got, expected):
            ctx.expect(close(a, x), 'posterior', lambda: '%s %r: P(%r) is '
                '%r; given all the evidence it is %r' % (where, steps, e, a, x))
        if evs_only:
            p = math.exp(total)
            ctx.expect(api.close(p, math.exp(lp_all), 2e-6, 1e-7), 'chain', lambda:
                '%s %r: the probabilities on the way multiply to %r instead of %r'
                % (where, steps, p, math.exp(lp_all)))
    if case['zero']:
        (a, b) = case['zero']
        try:
            bad = prior.prob(['and', a, b]) > 0 or prior.prob(a) < 1e-3
        except RefError:
            bad = True
        if not bad:
            ctx.fault('impossible_evidence')
            impossible(ctx, A, model, ns, a, b, case, kw)
    again = [ask(A, model, ns, e) for e in case['probes']]
    ctx.expect(work.same(first, again), 'changed', lambda: 'the model answers %r '
        'after the evidence instead of %r' % (again, first))

def impossible(ctx, A, model, ns, a, b, case, kw):
    ea = A.event(a, ns)
    eb = A.event(b, ns)
    m = model.condition(ea)
    p = ask(A, m, ns, b)
    ctx.expect(close(p, 0), 'impossible', lambda: 'given %r, the probability of %r '
        'is %r instead of zero' % (a, b, p))
    before = [ask(A, m, ns, e) for e in case['probes']]
    for how in range(3):
        kws = kw('A') if how == case['zero_at'] % 3 else {}
        try:
            if how == 0:
                m.condition(eb, **kws)
            elif how == 1:
                model.condition(ea & eb, **kws)
            else:
                model.condition(eb & ea, **kws)
            ok = True
        except Exception as e:
            ok = False
        ctx.expect(not ok, 'impossible', lambda: 'evidence %r after %r '
            'has probability zero but is accepted (%d)' % (b, a, how))
    after = [ask(A, m, ns, e) for e in case['probes']]
    ctx.expect(work.same(before, after), 'changed', lambda: 'rejected evidence '
        'changes the answers from %r to %r' % (before, after))

def shrink(case):
    if case['zero']:
        yield dict(case, zero=None)
    for ss in shrink_.lists(case['schedules'], 1):
        yield dict(case, schedules=ss)
    for i, s in enumerate(case['schedules']):
        for t in shrink_.lists(s):
            ss = list(case['schedules'])
            ss[i] = t
            yield dict(case, schedules=ss)
    for es in shrink_.lists(case['probes'], 1):
        yield dict(case, probes=es)
    for i, p in enumerate(case['pieces']):
        if p[0] == 'ev':
            for ev in shrink_.events(p[1]):
                yield dict(case, pieces=case['pieces'][:i] + [['ev', ev]]
                    + case['pieces'][i+1:])
    for p in shrink_.programs(case['program']):
        yield dict(case, program=p)
    for i, e in enumerate(case['probes']):
        for ev in shrink_.events(e):
            yield dict(case, probes=case['probes'][:i] + [ev] + case['probes'][i+1:])
