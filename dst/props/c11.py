"""C11: a saved model survives restart.

A history of operations in which processes crash: what was saved (as JSON text)
is all that the next process has.  Every later answer equals that of a twin in
which nothing was saved and no process ever crashed."""

import json
import math

import numpy

from sim import abort
from sim import api as api_
from sim import core
from sim import shrink as shrink_
from sim import work
from sim.core import twin

RUNS = {'quick': 520, 'thorough': 7000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded history of programs and operations in 2 to 4 processes, '
    'of which only the saved texts survive, with saves aborted half-way. It is '
    'non-trivial when a process crashed and a model was restored.')
MEASURE = 'distinct (operation that made the model, kind of restart, later operation)'
REAL = ['sppl (all modules; imported anew after some crashes)', 'json', 'sympy',
    'scipy', 'numpy']
STUB = ['processes (forked twins; what they hold in memory is lost)',
    'interrupts and allocation failures in saves (raised at trace points)']
ASSUMPTIONS = ['The saved text itself is written and read back correctly.',
    'Answers agree when probabilities differ by at most 1e-12 + 1e-8 relative.']

warm = work.warm

ODD = ["it's", 'say "b"', 'c\\d\n', 'é ü', '', ' ', '{}', '0', 'None', '1/2', "')"]

def rename(x, table):
    if isinstance(x, str):
        return table.get(x, x)
    if isinstance(x, list):
        return [rename(y, table) for y in x]
    if isinstance(x, dict):
        return {k: rename(v, table) for k, v in x.items()}
    return x

def awkward(x):
    if isinstance(x, list) and len(x) == 2 and isinstance(x[0], str):
        (name, p) = x
        if name == 'atomic' and isinstance(p, (int, float)):
            return [name, p*(1 - 1.23456789e-9)]
        if isinstance(p, dict) and name in CONTINUOUS and not any(
                isinstance(y, list) for y in p.values()):
            # The support becomes a part of what it was.
            p = dict(p)
            s = p.get('scale', 1)
            p['loc'] = p.get('loc', 0) + s*.0012345678901
            p['scale'] = s*.9876543210987
            return [name, p]
    if isinstance(x, list):
        return [awkward(y) for y in x]
    if isinstance(x, dict):
        return {k: awkward(v) for k, v in x.items()}
    return x

CONTINUOUS = ['norm', 'uniform', 'expon', 'gamma', 'beta', 'laplace', 'logistic']

def gen(rng, tier):
    opts = rng.choice([dict(), dict(p_if=.5), dict(p_transform=.5), dict(p_switch=.5),
        dict(p_mix=.5), dict(p_poly=.4, solves=2, p_transform=.4), dict(p_discrete=.7),
        dict(p_nominal=.7, p_tiny=.4), dict(p_condition=.5), dict(p_func=.3, p_transform=.4)])
    h = work.Hist(rng, **opts)
    out = []
    def put(op):
        h.remember()
        if op is not None:
            out.append(op)
    def flush():
        out.extend(h.ops)
        del h.ops[:]
    lives = rng.choice([2, 2, 3, 4])
    for life in range(lives):
        if life == 0 or rng.random() < .25:
            h.build(mode=rng.choice(['cmd', 'src', 'step']))
            if rng.random() < .4:
                work.variant(h)
            flush()
        memo = 'A' if rng.random() < .5 else None
        for _ in range(rng.randint(1, 4)):
            u = rng.random()
            op = h.op_cond(memo) if u < .4 else h.op_cons(memo) if u < .55 \
                else h.op_trans() if u < .7 else h.op_mix() if u < .8 \
                else h.op_prod() if u < .86 else h.op_dedup('t') if u < .94 \
                else h.op_prob(memo)
            put(op)
        for m in sorted(h.slots)[-4:]:
            for op in h.probes(m, 1 + (life == lives - 1)):
                put(op)
        put(h.op_cond(memo, m=sorted(h.slots)[-1], keep=False))
        if life == lives - 1:
            break
        for m in sorted(h.slots):
            if rng.random() < .8:
                for _ in range(rng.choice([0, 0, 1, 2])):
                    out.append(['torn', m, core.gen_point(rng),
                        rng.choice(['interrupt', 'memory'])])
                out.append(['save', m])
                if rng.random() < .2:
                    out.append(['save', m])
                for op in h.probes(m, 1) if rng.random() < .3 else ():
                    put(op)
            else:
                del h.slots[m]
        if not h.slots:
            break
        out.append(['crash', rng.random() < .35])
    # What is made after the last crash is compared, too.
    for m in sorted(h.slots)[-3:]:
        for op in h.probes(m, 2):
            put(op)
        c = h.op_cons(None, m=m)
        put(c)
        t = h.op_trans(m=m)
        put(t)
        if t:
            for op in h.probes(t[-1], 1):
                put(op)
        out.append(['sample', m, 2, 3])
    case = {'program': h.program(), 'ops': out}
    if rng.random() < .4:
        # Numbers of many digits.
        case = awkward(case)
    if rng.random() < .3:
        table = dict(zip('abcd', rng.sample(ODD, 4)))
        case = rename(case, table)
    return case

def uses(op):
    if op[0] == 'mix':
        return [m for _w, m in op[1]]
    if op[0] == 'prod':
        return list(op[1])
    if op[0] in ('build', 'gc', 'crash'):
        return []
    return [op[1]]

def missing(S, op):
    return any(m not in S.models for m in uses(op))

def saved(case):
    """For each crash, models saved before it and not lost earlier."""
    r = []
    have = set()
    for op in case['ops']:
        if op[0] == 'save':
            have.add(op[1])
        elif op[0] == 'crash':
            r.append(sorted(have))
    return r

def alone(ctx, case):
    """No saves and no crashes, but models that are lost are gone."""
    S = work.Session(work.namespace(case['program']))
    out = []
    n = 0
    have = saved(case)
    for op in case['ops']:
        if op[0] in ('save', 'torn'):
            out.append(['ok', None])
        elif op[0] == 'crash':
            S.models = {m: S.models[m] for m in have[n] if m in S.models}
            S.memos = {}
            n += 1
            out.append(['ok', None])
        elif missing(S, op):
            out.append(['error', 'missing'])
        else:
            out.append(S.attempt(op))
    return out

def life(ctx, case, start, texts, fresh):
    """One process: results, texts and the position of the next crash."""
    api = None
    if fresh:
        api_.purge()
        api = api_.Api()
    S = work.Session(work.namespace(case['program'], api), api)
    for m, t in sorted(texts.items()):
        S.models[m] = S.api.restore(t)
        ctx.stat('restored')
    texts = dict(texts)
    out = []
    for i in range(start, len(case['ops'])):
        op = case['ops'][i]
        if op[0] == 'crash':
            ctx.fault('crash_fresh_import' if op[1] else 'crash')
            out.append(['ok', None])
            return [out, texts, i + 1, op[1]]
        if missing(S, op):
            out.append(['error', 'missing'])
        elif op[0] == 'save':
            m = S.models[op[1]]
            try:
                d = S.api.to_dict.spe_to_dict(m)
                text = json.dumps(d)
            except Exception as e:
                ctx.fail('save', 'model %s cannot be saved as JSON: %s: %s'
                    % (op[1], type(e).__name__, e))
            # A caller may do with the result as it likes.
            scramble(d)
            texts[op[1]] = text
            try:
                r = S.api.restore(text)
            except Exception as e:
                ctx.fail('load', 'model %s cannot be restored: %s: %s from %s'
                    % (op[1], type(e).__name__, e, text[:600]))
            ctx.expect(set(map(str, r.get_symbols())) == set(map(str, m.get_symbols())),
                'variables', 'model %s is restored with other variables' % (op[1],))
            atoms(ctx, S, m, r, i)
            out.append(['ok', None])
        elif op[0] == 'torn':
            m = S.models[op[1]]
            abort.aborted(ctx, lambda: S.api.save(m), op[2], op[3])
            out.append(['ok', None])
        else:
            r = S.attempt(op)
            out.append(r)
            ctx.state(op[0], fresh, bool(texts))
    return [out, texts, len(case['ops']), False]

def atoms(ctx, S, m, r, i):
    """A value that the model takes, which an atom takes with some probability."""
    try:
        x = m.sample(1, prng=numpy.random.RandomState(i))[0]
        names = sorted(leaves(m), key=str)
        k = names[i % len(names)]
        v = x[k] if isinstance(x[k], str) else float(x[k])
        p = math.exp(m.logprob(k << {v}))
    except Exception:
        return
    q = math.exp(r.logprob(k << {v}))
    if p < .1 and i % 2:
        # It becomes an atom.
        try:
            m = m.constrain({k: v})
        except Exception:
            return
        p = math.exp(m.logprob(k << {v}))
        q = math.exp(S.api.restore(S.api.save(m)).logprob(k << {v}))
    ctx.expect(abs(p - q) < 1e-8, 'atom', lambda: 'P(%s = %r) is %r, and %r of '
        'the restored model' % (k, v, p, q))

def leaves(spe):
    if not hasattr(spe, 'children'):
        return {spe.symbol}
    return set().union(*[leaves(c) for c in spe.children])

def scramble(d):
    if isinstance(d, dict):
        for v in d.values():
            scramble(v)
        d.clear()
    elif isinstance(d, list):
        for v in d:
            scramble(v)
        del d[:]

def run(case, ctx):
    ops = case['ops']
    a = twin(ctx, alone, case)
    for op, r in zip(ops, a):
        if op[0] == 'build' and r[0] != 'ok':
            raise core.Skip('a program does not compile')
    b = []
    texts = {}
    fresh = False
    while len(b) < len(ops):
        (out, texts, _n, fresh) = twin(ctx, life, case, len(b), texts, fresh)
        b.extend(out)
    for i, (op, x, y) in enumerate(zip(ops, a, b)):
        ctx.log(i, op[0], y)
        if op[0] == 'sample':
            # Restored models may use the random numbers in another way.
            ok = x[0] == y[0] and (x[0] == 'error' or shape(x[1]) == shape(y[1]))
        else:
            ok = work.prob_equal(x, y) if op[0] in ('prob', 'logpdf') \
                else work.same_answer(x, y)
        ctx.expect(ok, 'restored', lambda: 'operation %d %r gives %r after saves and '
            'restarts; without them it gives %r' % (i, op, y, x))

def shape(samples):
    return [[k for k, _v in s] for s in samples]

def shrink(case):
    for x in shrink_.ops(case['ops']):
        yield dict(case, ops=x)
    for i, op in enumerate(case['ops']):
        if op[0] == 'crash' and op[1]:
            yield dict(case, ops=case['ops'][:i] + [['crash', False]]
                + case['ops'][i+1:])
