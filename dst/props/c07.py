"""C07: seeded sampling is reproducible and isolated.

Sampling calls with explicit generators run among other activity (samplers with
their own or with global generators, queries, merges, saves, aborted samplers,
callbacks that sample); the same calls run in a twin where nothing else happens.
Results, generator states and all global random states are compared."""

import hashlib
import random

import numpy

from sim import abort
from sim import core
from sim import shrink as shrink_
from sim import work
from sim.core import twin

RUNS = {'quick': 560, 'thorough': 8000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded set of models, 2 to 6 sampling calls on 1 to 3 '
    'generators, and other activity between and within them. It is non-trivial '
    'when other activity used randomness.')
MEASURE = 'distinct sequences of (call, generator, activity before it)'
REAL = ['sppl (all modules)', 'sympy', 'scipy', 'numpy']
STUB = ['interrupts and allocation failures (raised at trace points)',
    'callbacks passed to sample_func']
ASSUMPTIONS = ['The global generator that must not be touched is that of numpy.random; '
    'the assumptions of sympy draw from the module random whenever they are asked.']

warm = work.warm

ACTS = ['global', 'numpy', 'python', 'other', 'query', 'cond', 'dedup', 'save',
    'abort', 'abort', 'seed', 'none', 'build', 'frozen']

def gen(rng, tier):
    h = work.Hist(rng, **rng.choice([dict(), dict(p_mix=.5), dict(p_if=.5),
        dict(p_condition=.5), dict(p_discrete=.7), dict(p_transform=.4),
        dict(p_nominal=1., p_mix=.4)]))
    h.build()
    if rng.random() < .4:
        work.variant(h)
    for _ in range(rng.choice([0, 1, 2])):
        u = rng.random()
        op = h.op_cond() if u < .6 else h.op_trans() if u < .8 else h.op_mix()
        h.remember()
        if op:
            h.ops.append(op)
    setup = list(h.ops)
    calls = []
    for _ in range(rng.randint(2, 6)):
        op = h.op_sample(seed=rng.randint(0, 2))
        acts = []
        for _k in range(rng.choice([0, 1, 1, 2, 3])):
            a = rng.choice(ACTS)
            act = [a, h.pick(), rng.randint(0, 10**6)]
            if a == 'abort':
                act.append(h.op_sample(seed=rng.randint(50, 60)))
                act.append(core.gen_point(rng))
                act.append(rng.choice(['interrupt', 'memory']))
            elif a == 'query':
                act.append(h.op_prob())
            elif a == 'cond':
                act.append(h.op_cond(keep=False))
            acts.append(act)
        calls.append([acts, op, rng.choice([None, None, 'global', 'numpy', 'other'])])
    return {'program': h.program(), 'setup': setup, 'calls': calls,
        'globalseed': rng.randint(0, 999)}

def fingerprint(state):
    return hashlib.sha1(repr(state).encode()).hexdigest()[:12]

def mtstate(prng):
    s = prng.get_state()
    return fingerprint((s[0], [int(x) for x in s[1]], s[2:]))

def global_states():
    # Not that of the module random: the assumptions of sympy shuffle with it.
    s = numpy.random.get_state()
    return fingerprint((s[0], [int(x) for x in s[1]], s[2:]))

def play(ctx, case, busy):
    S = work.Session(work.namespace(case['program']))
    numpy.random.seed(case['globalseed'])
    random.seed(case['globalseed'])
    for op in case['setup']:
        r = S.attempt(op)
        if op[0] == 'build' and r[0] != 'ok':
            raise core.Skip('a program does not compile')
    prngs = {}
    out = []
    trace = []
    for acts, op, inside in case['calls']:
        if op is None or op[1] not in S.models:
            continue
        if busy:
            for act in acts:
                activity(ctx, S, act)
        seed = op[-1]
        if seed not in prngs:
            prngs[seed] = numpy.random.RandomState(seed)
        prng = prngs[seed]
        m = S.models[op[1]]
        # What the callback does inside the call is other activity, too.
        inner = inside if busy and op[0] == 'func' else None
        before = global_states()
        try:
            if op[0] == 'sample':
                r = work.canon_samples(m.sample(op[2], prng=prng))
            elif op[0] == 'subset':
                r = work.canon_samples(m.sample_subset(
                    [eval(v, S.ns) for v in op[2]], op[3], prng=prng))
            else:
                f = callback(ctx, S, m, op[2], inner)
                r = [[work.canon(x) for x in y]
                    for y in m.sample_func(f, op[3], prng=prng)]
        except Exception as e:
            r = 'error %s' % (type(e).__name__,)
        if not inner:
            ctx.expect(before == global_states(), 'global', lambda: 'call %r with its '
                'own generator changes the global random state' % (op,))
        out.append([r, mtstate(prng)])
        trace.append([[a[0] for a in acts], op[0], seed])
    ctx.state(trace)
    # Generators of the other kind, where they serve.
    for acts, op, _inside in case['calls'][:3]:
        if op is None or op[1] not in S.models or op[0] == 'func':
            continue
        m = S.models[op[1]]
        rs = []
        for _ in range(2):
            prng = numpy.random.Generator(numpy.random.PCG64(op[-1]))
            before = global_states()
            try:
                r = work.canon_samples(m.sample(op[-2], prng=prng))
            except Exception as e:
                r = 'error'
            ctx.expect(before == global_states(), 'global', lambda: 'sample with its '
                'own generator of another kind changes the global random state')
            rs.append([r, repr(prng.bit_generator.state)])
        ctx.expect(rs[0] == rs[1], 'repeat', lambda: 'generators of another kind with '
            'the same seed give %r and %r' % tuple(rs))
    # Without a generator, the global state of NumPy is used.
    for acts, op, _inside in case['calls'][:2]:
        if op is None or op[1] not in S.models or op[0] == 'func':
            continue
        m = S.models[op[1]]
        numpy.random.seed(op[-1] + 17)
        prng = numpy.random.RandomState(op[-1] + 17)
        try:
            a = work.canon_samples(m.sample(op[-2]))
            b = work.canon_samples(m.sample(op[-2], prng=prng))
        except Exception:
            continue
        g = numpy.random.get_state()
        ctx.expect(a == b, 'default', lambda: 'sample without a generator gives '
            '%r; with one in the same state as the global one, %r' % (a, b))
        ctx.expect(mtstate(numpy.random) == mtstate(prng), 'default', 'sample without '
            'a generator leaves another global state than with one')
    return out

def callback(ctx, S, m, names, inner):
    def act():
        if inner == 'global':
            m.sample(2)
        elif inner == 'numpy':
            numpy.random.random_sample(3)
        elif inner == 'other':
            m.sample(2, prng=numpy.random.RandomState(5))
        ctx.fault('callback_' + inner)
    ns = {'act': act if inner else (lambda: None)}
    return eval('lambda %s: (act(), (%s,))[1]' % (', '.join(names), ', '.join(names)), ns)

def activity(ctx, S, act):
    (kind, name, seed) = act[:3]
    if name not in S.models:
        return
    m = S.models[name]
    A = S.api
    if kind in ('query', 'cond') and act[3] is None:
        return
    try:
        if kind == 'global':
            m.sample(3)
        elif kind == 'none':
            m.sample_subset(sorted(m.get_symbols(), key=str)[:1], 2)
        elif kind == 'numpy':
            numpy.random.random_sample(seed % 7)
            numpy.random.standard_normal()
        elif kind == 'python':
            random.random()
        elif kind == 'seed':
            numpy.random.seed(seed)
            random.seed(seed)
        elif kind == 'other':
            m.sample(3, prng=numpy.random.RandomState(seed))
        elif kind == 'query':
            S.attempt(act[3])
        elif kind == 'cond':
            S.attempt(act[3])
        elif kind == 'dedup':
            A.spe.spe_cache_duplicate_subtrees(m, S.tables.setdefault('t', {}))
        elif kind == 'save':
            A.save(m)
        elif kind == 'build':
            A.ast.Sample(A.transforms.Id('Q1'), A.names['norm'](loc=0, scale=1)) \
                .interpret().sample(2, prng=numpy.random.RandomState(seed))
        elif kind == 'frozen':
            # Objects of scipy that other code uses as well.
            import scipy.stats
            for d in (scipy.stats.norm, scipy.stats.poisson, scipy.stats.uniform):
                d.random_state = numpy.random.RandomState(seed)
        elif kind == 'abort':
            if act[3] and act[3][1] in S.models:
                op = act[3]
                abort.aborted(ctx, lambda: S.do(op), act[4], act[5])
    except (core.Violation, core.HarnessError):
        raise
    except Exception as e:
        ctx.log('activity', kind, 'failed', type(e).__name__)
    ctx.fault('activity_' + kind)

def run(case, ctx):
    alone = twin(ctx, play, case, False)
    busy = twin(ctx, play, case, True)
    calls = [c for c in case['calls'] if c[1] is not None]
    for i, (a, b) in enumerate(zip(alone, busy)):
        ctx.log(i, a == b, b)
        ctx.expect(a[0] == b[0], 'samples', lambda: 'call %d %r after other '
            'activity gives %r; alone it gives %r' % (i, calls[i][1], b[0], a[0]))
        ctx.expect(a[1] == b[1], 'state', lambda: 'call %d %r after other activity '
            'leaves its generator in another state' % (i, calls[i][1]))

def shrink(case):
    for c in shrink_.lists(case['calls'], 1):
        yield dict(case, calls=c)
    for i, (acts, op, inside) in enumerate(case['calls']):
        for a in shrink_.lists(acts):
            yield dict(case, calls=case['calls'][:i] + [[a, op, inside]]
                + case['calls'][i+1:])
        if inside:
            yield dict(case, calls=case['calls'][:i] + [[acts, op, None]]
                + case['calls'][i+1:])
    for x in shrink_.ops(case['setup']):
        yield dict(case, setup=x)
