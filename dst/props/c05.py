"""C05: caches never change an answer.

A history of queries, conditionings, constraints and mutual informations over
several models runs with shared, fresh and disabled caches; models are dropped
and collected, and their addresses are reused.  The same history runs in a
forked twin without any cache, and selected operations run in a twin where
nothing else ever happened."""

import gc
import json
import math

from sim import core
from sim import inject
from sim import shrink as shrink_
from sim import work
from sim.core import twin
from sim.ref import RefError, ZeroProb
from sim.prog import ref_answer

RUNS = {'quick': 520, 'thorough': 6000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded history of 6 to 16 operations over 1 to 3 programs '
    'and their posteriors, with caches drawn per operation (none, two shared '
    'ones, disabled), discards and collections. It is non-trivial when a '
    'shared cache is used by at least two operations, an address is reused or '
    'hashes collide.')
MEASURE = 'distinct (operation kinds, cache, table sizes) triples along a history'
REAL = ['sppl (all modules)', 'sympy', 'scipy', 'numpy']
STUB = ['id() in sppl modules (simulated allocator with immediate reuse)',
    'hash() in sppl modules (optionally colliding)', 'moments of garbage collection']
ASSUMPTIONS = ['Answers agree when probabilities differ by at most 1e-12 + 1e-8 relative.']

warm = work.warm

def gen(rng, tier):
    # Also models of one variable, which have methods of their own.
    h = work.Hist(rng, **rng.choice([dict(), dict(), dict(p_mix=.5),
        dict(stmts=(1, 1), p_mix=0, p_if=0), dict(stmts=(1, 2), max_base=1)]))
    h.build()
    for _ in range(rng.choice([0, 1, 1, 2])):
        if rng.random() < .5:
            # Another model over the same names, so that keys are alike.
            variant(h)
        else:
            h.build()
    memos = [None, 'A', 'A', 'A', 'A', 'B', False]
    n = rng.randint(6, 16)
    tries = 0
    queries = []
    start = len(h.ops)
    while len(h.ops) - start < n and tries < 5*n:
        tries += 1
        memo = rng.choice(memos)
        if rng.random() < .12:
            ghost(h, queries)
            continue
        u = rng.random()
        if queries and u < .13:
            # Something that is easily taken for it.
            op = confuse(rng, rng.choice(queries), h, memo)
            if op:
                h.ops.append(op)
            continue
        if queries and u < .25:
            # Again, with another cache or on another model.
            op = list(rng.choice(queries))
            k = {'mi': 4}.get(op[0], 3)
            if op[0] in ('cond', 'cons'):
                op[4] = h.name()
            op[k] = memo
            if rng.random() < .5 or op[1] not in h.slots:
                mine = set(h.vars_of[op[1]])
                ms = [m for m in sorted(h.slots) if set(h.slots[m].vars) >= mine]
                if not ms:
                    continue
                op[1] = rng.choice(ms)
            h.ops.append(op)
            continue
        if u < .4:
            op = h.op_prob(memo)
        elif u < .5:
            op = h.op_logpdf(memo)
        elif u < .7:
            op = h.op_cond(memo)
        elif u < .8:
            op = h.op_cons(memo)
        elif u < .87:
            op = h.op_mi(memo)
        elif u < .9:
            op = h.op_dedup('t')
        elif u < .91:
            op = h.op_many(memo)
        elif u < .92:
            op = h.op_load()
        elif u < .94:
            op = h.op_mix()
        elif len(h.slots) > 1:
            m = h.pick()
            del h.slots[m]
            h.ops.append(['drop', m])
            op = ['gc']
            if rng.random() < .7:
                h.ops.append(op)
                variant(h)
                continue
        else:
            op = None
        h.remember()
        if op is None:
            continue
        h.ops.append(op)
        if op[0] in ('prob', 'logpdf', 'mi', 'cond', 'cons'):
            queries.append(op)
            if memo and rng.random() < .25:
                op2 = confuse(rng, op, h, memo)
                if op2:
                    h.ops.append(op2)
        if op[0] in ('cond', 'cons') and rng.random() < .6:
            h.ops.extend(h.probes(op[4], 1))
    return {'program': h.program(), 'ops': h.ops,
        'hash': rng.choice([0, 0, 1, 2, 7]),
        'isolate': rng.randint(0, 99)}

def confuse(rng, op, h, memo):
    """An operation that looks like op to a key that leaves something out."""
    vs = h.vars_of[op[1]]
    op = json.loads(json.dumps(op))
    other = {'logpdf': 'cons', 'cons': 'logpdf', 'prob': 'cond', 'cond': 'prob'}
    if op[0] in other and rng.random() < .2:
        # The same key for another operation.
        return [other[op[0]], op[1], op[2], memo] \
            + ([h.name()] if op[0] in ('logpdf', 'prob') else [])
    k = {'mi': 4}.get(op[0], 3)
    op[k] = memo
    if op[0] in ('cond', 'cons'):
        op[4] = h.name()
    kind = lambda n: (vs[n].kind, vs[n].base) if n in vs else None
    if op[0] in ('logpdf', 'cons'):
        a = op[2]
        u = rng.random()
        if len(a) > 1 and u < .35 and kind(a[0][0]) == kind(a[1][0]):
            # The same values in the same order, of the other variables.
            (a[0][0], a[1][0]) = (a[1][0], a[0][0])
        elif len(a) > 1 and u < .6:
            del a[rng.randrange(len(a))]
        else:
            i = rng.randrange(len(a))
            ns = [n for n in sorted(vs) if kind(n) == kind(a[i][0])
                and n not in [x for x, _v in a]]
            if not ns:
                return None
            a[i][0] = rng.choice(ns)
            if rng.random() < .3:
                a.reverse()
        return op
    i = rng.choice([2, 3]) if op[0] == 'mi' else 2
    used = set()
    walk(op[i], lambda x: used.add(x[1]) if x[:1] == ['v'] else x)
    if not used:
        return None
    n = rng.choice(sorted(used))
    u = rng.random()
    others = [x for x in sorted(vs) if kind(x) == kind(n) and x != n]
    if u < .5 and others:
        m = rng.choice(others)
        table = {n: m, m: n} if rng.random() < .5 else {n: m}
        op[i] = walk(op[i], lambda x: ['v', table.get(x[1], x[1])]
            if x[:1] == ['v'] else x)
    elif u < .7:
        strict = {'<': '<=', '<=': '<', '>': '>=', '>=': '>'}
        op[i] = walk(op[i], lambda x: ['cmp', x[1], strict[x[2]], x[3]]
            if x[:1] == ['cmp'] else x)
    elif u < .85:
        op[i] = walk(op[i], lambda x: [{'and': 'or', 'or': 'and'}[x[0]]] + x[1:]
            if x[:1] in (['and'], ['or']) else x)
    else:
        op[i] = ['not', op[i]]
    return op

def walk(x, f):
    if isinstance(x, list):
        r = [walk(y, f) for y in x]
        s = f(r)
        return r if s is None else s
    return x

def ghost(h, queries):
    """Query a model with a cache, discard it, and ask the same of another one
    over the same variables."""
    r = h.rng
    m = variant(h)
    if m is None:
        return
    ops = []
    for _ in range(r.choice([1, 1, 2])):
        op = r.choice([h.op_prob, h.op_prob, h.op_logpdf, h.op_cond])('A', m) \
            if r.random() < .8 else h.op_cons('A', m)
        if op:
            if op[0] in ('cond', 'cons'):
                h.remember()
                h.slots.pop(op[4], None)
            ops.append(op)
            h.ops.append(op)
            if op[0] in ('cond', 'cons'):
                h.ops.append(['drop', op[4]])
    h.slots.pop(m)
    h.ops.extend([['drop', m], ['gc']])
    m2 = variant(h)
    if m2 is None:
        return
    for op in ops:
        op = list(op)
        op[1] = m2
        if op[0] in ('cond', 'cons'):
            op[4] = h.name()
        h.ops.append(op)
        if op[0] in ('prob', 'logpdf'):
            queries.append(op)

variant = work.variant

MEMO_AT = {'many': 4, 'prob': 3, 'logpdf': 3, 'cond': 3, 'cons': 3, 'mi': 4}

def strip(op):
    k = MEMO_AT.get(op[0])
    if k is not None:
        op = list(op)
        op[k] = None
    return op

def uses(op):
    if op[0] == 'mix':
        return [m for _w, m in op[1]]
    if op[0] == 'prod':
        return list(op[1])
    if op[0] in ('build', 'gc'):
        return []
    return [op[1]]

def makes(op):
    return op[-1] if op[0] in ('build', 'cond', 'cons', 'trans', 'dedup',
        'load', 'mix', 'prod') else None

def closure(ops, i):
    """The operations that op i needs, without caches, drops or merges."""
    need = set(uses(ops[i]))
    keep = [strip(ops[i])]
    for op in reversed(ops[:i]):
        if makes(op) in need:
            need.discard(makes(op))
            need.update(uses(op))
            keep.append(['alias', op[1], op[3]] if op[0] == 'dedup' else strip(op))
    return keep[::-1]

def play(ctx, case, memos):
    addr = inject.Addresses()
    names = {'id': addr}
    if case['hash']:
        names['hash'] = inject.Collide(case['hash'])
    if memos:
        inject.inject(**names)
    S = work.Session(work.namespace(case['program']))
    out = []
    used = {}
    for op in case['ops']:
        if any(m not in S.models for m in uses(op)):
            out.append(['error', 'missing'])
            continue
        if not memos:
            op = strip(op)
            if op[0] in ('drop', 'gc'):
                out.append(['ok', None])
                continue
        if op[0] == 'gc':
            n = addr.reused
            addr.collect()
            r = ['ok', None]
        else:
            r = S.attempt(op)
        out.append(r)
        k = MEMO_AT.get(op[0])
        if memos and k is not None:
            name = op[k]
            if name is not None and name is not False:
                used[name] = used.get(name, 0) + 1
            sizes = [len(t) for n in sorted(S.memos)
                for t in vars(S.memos[n]).values() if isinstance(t, dict)]
            ctx.state(op[0], name, sizes)
    if memos:
        if any(n > 1 for n in used.values()):
            ctx.nontrivial = True
            ctx.stat('shared_cache_runs')
        if addr.reused:
            ctx.fault('address_reuse', addr.reused)
        if case['hash']:
            ctx.fault('hash_collisions')
        ctx.stat('dropped_models', sum(op[0] == 'drop' for op in case['ops']))
    return out

def isolated(ctx, case, i):
    S = work.Session(work.namespace(case['program']))
    r = None
    for op in closure(case['ops'], i):
        if op[0] == 'alias':
            S.models[op[2]] = S.models[op[1]]
            continue
        r = S.attempt(op)
    return r

def run(case, ctx):
    ops = case['ops']
    plain = twin(ctx, play, case, False)
    built = [r for op, r in zip(ops, plain) if op[0] == 'build']
    if not all(r[0] == 'ok' for r in built):
        raise core.Skip('a program does not compile')
    cached = twin(ctx, play, case, True)
    for i, (op, a, b) in enumerate(zip(ops, plain, cached)):
        ctx.log(i, op[0], op[MEMO_AT[op[0]]] if op[0] in MEMO_AT else '', b)
        ok = work.prob_equal(a, b) if op[0] in ('prob', 'logpdf') \
            else work.same_answer(a, b)
        if b[0] == 'error' and b[1] == 'missing':
            continue
        ctx.expect(ok, 'cache', lambda: 'operation %d %r returns %r; without '
            'caches it returns %r' % (i, op, b, a))
    # Selected operations in a world with no history at all.
    qs = [i for i, op in enumerate(ops) if op[0] in ('prob', 'logpdf', 'mi')
        and plain[i][0] == 'ok']
    if qs:
        for j in range(2):
            i = qs[(case['isolate'] + j*7) % len(qs)]
            a = twin(ctx, isolated, case, i)
            ok = work.prob_equal(a, plain[i]) if ops[i][0] != 'mi' \
                else work.same_answer(a, plain[i])
            ctx.expect(ok, 'history', lambda: 'operation %d %r returns %r after '
                'other operations; alone it returns %r' % (i, ops[i], plain[i], a))

def shrink(case):
    ops = case['ops']
    if case['hash']:
        yield dict(case, hash=0)
    for x in shrink_.ops(ops):
        yield dict(case, ops=x)
