"""C12: models and events are persistent values.

A history of operations, some failing and some aborted, over models that share
structure, in which the caller keeps changing the containers it passed in and
got back.  The answers, samples, saved forms and texts of everything that
existed are asked again along the way and at the end."""

import fractions
import json
import math

import numpy

from sim import abort
from sim import core
from sim import inject
from sim import prog
from sim import shrink as shrink_
from sim import work
from sim.ref import RefError

RUNS = {'quick': 440, 'thorough': 6000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded history of 5 to 14 operations on models that share '
    'components, with failing and aborted operations and with changes by the '
    'caller to its containers. It is non-trivial when at least five earlier '
    'answers were asked again.')
MEASURE = 'distinct (operation, kind of value asked again) pairs and abort sites'
REAL = ['sppl (all modules)', 'sympy', 'scipy', 'numpy']
STUB = ['interrupts and allocation failures (raised at trace points)',
    'the caller (changes its containers at seeded moments)']
ASSUMPTIONS = ['An answer is unchanged when it differs by at most 1e-9 + 1e-7 relative.']

warm = work.warm

KINDS = ['samples', 'saved', 'restored', 'assign', 'values', 'choice', 'discrete',
    'sum', 'product', 'sequence', 'switch', 'ifelse', 'subset', 'batch', 'events',
    'nominal', 'weights', 'partial', 'fractions', 'compound', 'poly', 'piecewise']

def gen(rng, tier):
    opts = rng.choice([dict(), dict(p_mix=.5), dict(p_if=.5), dict(p_transform=.4)])
    h = work.Hist(rng, **opts)
    h.build()
    if rng.random() < .6:
        work.variant(h)
    if rng.random() < .4:
        h.build()
    n = rng.randint(5, 13)
    tries = 0
    ops = []
    def flush():
        ops.extend(h.ops)
        del h.ops[:]
    flush()
    count = 0
    while count < n and tries < 6*n:
        tries += 1
        u = rng.random()
        memo = rng.choice([None, 'A'])
        if u < .22:
            ops.append(['mut', rng.choice(KINDS), h.pick(), rng.randint(0, 10**6)])
            count += 1
            continue
        op = h.op_cond(memo) if u < .4 else h.op_cons(memo) if u < .48 \
            else h.op_trans() if u < .58 else h.op_dedup('t') if u < .68 \
            else h.op_mix() if u < .76 else h.op_prod() if u < .8 \
            else h.op_load() if u < .83 else h.op_sample() if u < .88 \
            else h.op_prob(memo) if u < .94 else h.op_logpdf(memo)
        h.remember()
        if op is None:
            continue
        if rng.random() < .18:
            ops.append(['abort', op, core.gen_point(rng),
                rng.choice(['interrupt', 'memory'])])
            if op[0] in ('cond', 'cons', 'trans', 'dedup', 'mix', 'prod', 'load'):
                ops.append(op)
        else:
            ops.append(op)
            if rng.random() < .1:
                ops.append(['bad', op[1] if isinstance(op[1], str) else h.pick(),
                    rng.randint(0, 999)])
        count += 1
    # What is asked of each model again and again.
    probes = {}
    for m in sorted(h.slots):
        qs = [q[:3] for q in h.probes(m, 2)]
        probes[m] = qs
    return {'program': h.program(), 'ops': ops, 'probes': probes,
        'samples': rng.randint(0, 999)}

class Watch():
    """Things that existed and what they answered."""
    def __init__(self, ctx):
        self.ctx = ctx
        self.items = []
    def add(self, kind, label, f):
        try:
            first = f()
        except Exception as e:
            first = 'error %s' % (type(e).__name__,)
        self.items.append((kind, label, f, first))
    def ask(self, op, items=None):
        for kind, label, f, first in (self.items if items is None else items):
            try:
                now = f()
            except Exception as e:
                now = 'error %s' % (type(e).__name__,)
            self.ctx.stat('asked_again')
            self.ctx.state(op[0] if op else 'end', kind)
            ok = work.same(now, first)
            self.ctx.expect(ok, 'changed', lambda: 'after %r, %s of %s is %r; it '
                'was %r' % (op, kind, label, short(now), short(first)))

def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + '...'

def watch_model(W, S, case, name, model):
    for q in case['probes'].get(name, ()):
        try:
            if q[0] == 'prob':
                e = S.event(q[2])
                W.add('logprob(%s)' % (prog.event_text(q[2]),), name,
                    lambda e=e: float(model.logprob(e)))
            else:
                W.add('logpdf', name, lambda a=q[2]: float(model.logpdf(
                    S.api.assignment(a, S.ns))))
        except Exception:
            pass
    seed = case['samples']
    W.add('sample', name, lambda: work.canon_samples(
        model.sample(2, prng=numpy.random.RandomState(seed))))
    W.add('saved form', name, lambda: S.api.save(model))
    W.add('variables', name, lambda: sorted(map(str, model.get_symbols())))
    W.add('size', name, lambda: model.size())

def watch_event(W, S, ev):
    try:
        e = S.event(ev)
    except Exception:
        return
    W.add('text', 'event', lambda: str(e))
    W.add('symbols', 'event', lambda: sorted(map(str, e.get_symbols())))
    return e

def run(case, ctx):
    import random
    S = work.Session(work.namespace(case['program']))
    W = Watch(ctx)
    rng = random.Random(case['samples'])
    built = 0
    for op in case['ops']:
        before = dict(S.models)
        if op[0] == 'abort':
            if all(m in S.models for m in uses(op[1])):
                T = work.Session(S.ns, S.api)
                T.models = dict(S.models)
                T.memos = S.memos
                T.tables = S.tables
                abort.aborted(ctx, lambda: T.do(op[1]), op[2], op[3])
        elif op[0] == 'mut':
            if op[2] in S.models:
                mutate(ctx, S, W, op[1], op[2], op[3], case)
        elif op[0] == 'bad':
            if op[1] in S.models:
                bad(ctx, S, op[1], op[2])
        elif all(m in S.models for m in uses(op)):
            r = S.attempt(op)
            ctx.log(op[0], r[0])
            ctx.expect(not S.changed, 'argument', lambda: 'the assignment of '
                '%r is another one after the call' % (S.changed[0],))
            if op[0] == 'build' and r[0] != 'ok':
                raise core.Skip('not a program')
            if op[0] in ('prob', 'cond') and rng.random() < .5:
                watch_event(W, S, op[2])
        # Merging puts one model in place of another.
        some = W.items if len(W.items) <= 10 or op[0] in ('dedup', 'abort') \
            else rng.sample(W.items, 10)
        W.ask(op, some)
        for name, m in S.models.items():
            if before.get(name) is not m:
                watch_model(W, S, case, name, m)
    W.ask(None)
    if len(W.items) >= 5:
        ctx.nontrivial = True

def uses(op):
    if op[0] == 'mix':
        return [m for _w, m in op[1]]
    if op[0] == 'prod':
        return list(op[1])
    if op[0] in ('build', 'gc'):
        return []
    return [op[1]]

def bad(ctx, S, name, k):
    """An operation that fails."""
    m = S.models[name]
    A = S.api
    v = sorted(m.get_symbols(), key=str)[k % len(m.get_symbols())]
    other = A.transforms.Id('Q99')
    for i, f in enumerate([
            lambda: m.transform(v, v + 1),
            lambda: m.condition((v << {'zz'}) & (v << {'yy'})),
            lambda: m.constrain({v: 'zz'}),
            lambda: m.logprob(other < 1),
            lambda: m & m,
            lambda: m.transform(other, A.transforms.Id('Q98') + 1),
            lambda: A.spe.SumSPE([m, m], [.5, .9]),
            ]):
        if (k + i) % 3 == 0:
            try:
                f()
            except Exception as e:
                ctx.fault('failing_operation')

def show(a):
    return sorted((str(k), str(v)) for k, v in a.items())

def scramble(x, rng, depth=0):
    """Change a nested container in place."""
    if isinstance(x, dict):
        for k in list(x):
            if isinstance(x[k], (dict, list)):
                scramble(x[k], rng, depth + 1)
            else:
                x[k] = 77 if not isinstance(x[k], str) else 'scrambled'
        if rng.random() < .5:
            x['extra'] = 1
    elif isinstance(x, list):
        for i, y in enumerate(x):
            if isinstance(y, (dict, list)):
                scramble(y, rng, depth + 1)
            else:
                x[i] = 77 if not isinstance(y, str) else 'scrambled'
        x.append(5)

def mutate(ctx, S, W, kind, name, seed, case):
    import random
    rng = random.Random(seed)
    A = S.api
    m = S.models[name]
    names = sorted(map(str, m.get_symbols()))
    ctx.fault('caller_changes_' + kind)
    prng = lambda: numpy.random.RandomState(seed % 1000)
    op = ['mut', kind, name]
    def same(f, change, what):
        try:
            first = f()
        except Exception as e:
            # Not every query is defined; then there is nothing to change.
            first = 'error'
        change()
        try:
            now = f()
        except Exception as e:
            now = 'error'
        ctx.expect(work.same(first, now), 'caller', lambda: 'after the caller '
            'changed %s, %s gives %s instead of %s' % (kind, what, short(now), short(first)))
    if kind in ('samples', 'batch', 'subset'):
        n = rng.choice([2, 3, 5])
        syms = sorted(m.get_symbols(), key=str)
        if kind == 'subset':
            syms = syms[:rng.randint(1, len(syms))]
            get = lambda: m.sample_subset(syms, n, prng=prng())
        else:
            get = lambda: m.sample(n, prng=prng())
        r = get()
        first = work.canon_samples(r)
        # One sample of the batch is not another one.
        for k in list(r[0]):
            r[0][k] = 'scrambled'
        r[0]['extra'] = 1
        ctx.expect(work.same(work.canon_samples(r[1:]), first[1:]), 'alias', lambda:
            'changing a sample changes another one of the batch: %s' % (short(r),))
        again = work.canon_samples(get())
        ctx.expect(work.same(again, first), 'caller', lambda: 'after the caller '
            'changed samples, the same samples are %s instead of %s'
            % (short(again), short(first)))
        return
    if kind in ('saved', 'restored'):
        d = A.to_dict.spe_to_dict(m)
        text = json.dumps(d)
        if kind == 'saved':
            same(lambda: A.save(m), lambda: scramble(d, rng), 'the saved form')
            watch_model(W, S, case, name, m)
            return
        d2 = json.loads(text)
        m2 = A.to_dict.spe_from_dict(d2)
        probe = probe_of(S, case, name, m2)
        same(probe, lambda: scramble(d2, rng), 'a restored model')
        return
    if kind in ('assign',):
        for q in case['probes'].get(name, ()):
            if q[0] != 'logpdf':
                continue
            memo = A.spe.Memo()
            a = A.assignment(q[2], S.ns)
            b = dict(a)
            first = m.logpdf(a, memo=memo)
            post = None
            if first > -20:
                try:
                    post = m.constrain(a, memo=memo)
                except Exception:
                    post = None
            p1 = probe_of(S, case, name, post)() if post else None
            ctx.expect(a == b, 'argument', lambda: 'an assignment %r is %r after '
                'its density and posterior' % (show(b), show(a)))
            for k in a:
                a[k] = 123.25
            a[A.transforms.Id('Q99')] = 1
            again = m.logpdf(b, memo=memo)
            ctx.expect(work.same(float(first), float(again)), 'caller', lambda:
                'after the caller changed an assignment, the density is %r '
                'instead of %r' % (again, first))
            if post:
                p2 = probe_of(S, case, name, post)()
                ctx.expect(work.same(p1, p2), 'caller', lambda: 'after the caller '
                    'changed an assignment, the posterior answers %r instead of '
                    '%r' % (p2, p1))
        return
    X = A.transforms.Id('Q1')
    Y = A.transforms.Id('Q2')
    D = A.names
    if kind in ('choice', 'nominal'):
        w = {'a': .25, 'b': .25, 'c': .5}
        if kind == 'choice':
            c = A.ast.Sample(X, D['choice'](w))
            make = lambda: c.interpret()
        else:
            leaf = A.spe.NominalLeaf(X, w)
            make = lambda: leaf
        model = make()
        both = lambda: [float(model.logprob(X << {'a'})),
            float(make().logprob(X << {'a', 'c'}))]
        W.add('logprob', 'choice', both)
        def change():
            w['a'] = .5
            w['c'] = .25
        same(both, change, 'a model')
        same(both, w.clear, 'a model')
        return
    if kind == 'fractions':
        F = fractions.Fraction
        (a, b, c) = rng.choice([(F(1, 4), F(1, 4), F(1, 2)), (.25, F(1, 4), F(1, 2)),
            (F(1, 8), F(3, 8), F(1, 2))])
        w = {'a': a, 'b': b, 'c': c}
        make = rng.choice([lambda: A.spe.NominalLeaf(X, w),
            lambda: A.ast.Sample(X, D['choice'](w)).interpret()])
        model = make()
        other = make().condition(X << {'a', 'c'}) if rng.random() < .5 else make()
        f = lambda: [float(model.logprob(X << {'a'})), float(other.logprob(X << {'a'})),
            A.save(model), A.save(other)]
        W.add('logprob', 'fractions', f)
        def change():
            (w['a'], w['c']) = (w['c'], w['a'])
        same(f, change, 'a model')
        same(f, lambda: scramble(w, rng), 'a model')
        return
    if kind == 'partial':
        # A part of a mixture is used in several mixtures.
        leaf = lambda i: A.ast.Sample(X, D['norm'](loc=i, scale=1)).interpret()
        parts = [.25*leaf(i) for i in range(rng.choice([2, 3]))]
        if len(parts) == 3:
            parts[:2] = [parts[0] | parts[1]]
        (p, rest) = (parts[0], 1 - float(sum(parts[0].weights)))
        make = lambda i: p | (rest*leaf(i))
        a = make(3)
        fa = lambda: [float(a.logprob(X > 2)), float(a.logpdf({X: 1})), a.size()]
        W.add('logprob', 'mixture', fa)
        W.add('part', 'mixture', lambda: [list(map(float, p.weights)), len(p.children)])
        same(fa, lambda: make(5), 'a mixture')
        x = fa()
        y = [float(make(3).logprob(X > 2)), float(make(3).logpdf({X: 1})), make(3).size()]
        ctx.expect(work.same(x, y), 'caller', lambda: 'the same mixture of the same '
            'parts answers %r and later %r' % (x, y))
        # Parts of products too.
        q = leaf(1) & A.ast.Sample(Y, D['poisson'](mu=2)).interpret()
        fq = lambda: [float(q.logprob((X > 1) & (Y < 2))), q.size(),
            sorted(map(str, q.get_symbols()))]
        W.add('logprob', 'product', fq)
        Z = A.transforms.Id('Q3')
        same(fq, lambda: q & A.ast.Sample(Z, D['poisson'](mu=3)).interpret(), 'a product')
        return
    if kind == 'compound':
        T = A.transforms
        n = A.ast.Sample(X, D['norm'](loc=0, scale=1)).interpret()
        es = [X < 1, X > -1, (X < 3) & (X > 2)]
        e = (T.EventAnd if rng.random() < .5 else T.EventOr)(es[:2])
        g = T.EventOr(es)
        f = lambda: [float(n.logprob(e)), str(e), float(n.logprob(g)), str(g),
            float(n.logprob(~g & e)), hash(e) == hash(e)]
        W.add('logprob', 'compound', f)
        def change():
            es.reverse()
            es[0] = X > 5
            del es[1:]
        same(f, change, 'an event')
        return
    if kind == 'poly':
        T = A.transforms
        n = A.ast.Sample(X, D['norm'](loc=0, scale=1)).interpret()
        cs = [1, 2, 1] if rng.random() < .3 else [-1, 3]
        t = T.Poly(X, cs)
        m2 = n.transform(Y, t)
        f = lambda: [float(n.logprob(t > 0)), str(t), float(m2.logprob(Y > 1)),
            float(t.evaluate(2)), float(m2.sample(1, prng=prng())[0][Y])]
        W.add('logprob', 'poly', f)
        def change():
            cs[0] = 7
            cs.append(1)
        same(f, change, 'a transform')
        return
    if kind == 'piecewise':
        T = A.transforms
        n = A.ast.Sample(X, D['norm'](loc=0, scale=1)).interpret()
        xs = [2*X, X + 5]
        es = [X < 0, X >= 0]
        t = T.Piecewise(xs, es)
        f = lambda: [float(n.logprob(t > 1)), float(t.evaluate(2)), str(t)]
        W.add('logprob', 'piecewise', f)
        def change():
            xs.reverse()
            del es[1:]
        same(f, change, 'a transform')
        return
    if kind in ('discrete',):
        w = {1: .25, 3: .25, 4: .5}
        c = A.ast.Sample(X, D['discrete'](w))
        model = c.interpret()
        both = lambda: [float(model.logprob(X << {1})), float(c.interpret().logprob(X > 1)),
            float(model.condition(X > 1).logprob(X << {3}))]
        W.add('logprob', 'discrete', both)
        def change():
            w[1] = .5
            w[4] = .25
        same(both, change, 'a model')
        return
    if kind == 'values':
        vs = set([0, 1, 3]) if rng.random() < .5 else ['a', 'b']
        n = D['discrete']({0: .5, 1: .25, 2: .25}) if isinstance(vs, set) \
            else D['choice']({'a': .5, 'b': .25, 'c': .25})
        model = A.ast.Sample(X, n).interpret()
        e = X << vs
        memo = A.spe.Memo()
        f = lambda: [float(model.logprob(e)), float(model.logprob(~e)), str(e),
            float(model.logprob(e, memo=memo))]
        W.add('logprob', 'values', f)
        same(f, vs.clear, 'an event')
        return
    if kind in ('sum', 'weights'):
        children = [A.ast.Sample(X, D['norm'](loc=i, scale=1)).interpret() for i in range(3)]
        weights = [math.log(.25), math.log(.25), math.log(.5)]
        model = A.spe.SumSPE(children, weights)
        f = lambda: [float(model.logprob(X > 1)), float(model.logpdf({X: .5})),
            work.canon_samples(model.sample(2, prng=prng()))]
        W.add('logprob', 'sum', f)
        def change():
            (children if kind == 'sum' else weights).reverse()
            if kind == 'weights':
                weights[0] = 0.
            else:
                del children[1:]
        same(f, change, 'a mixture')
        return
    if kind == 'product':
        children = [A.ast.Sample(X, D['norm'](loc=1, scale=1)).interpret(),
            A.ast.Sample(Y, D['poisson'](mu=2)).interpret()]
        model = A.spe.ProductSPE(children)
        f = lambda: [float(model.logprob((X > 1) | (Y < 2))),
            work.canon_samples(model.sample(2, prng=prng()))]
        W.add('logprob', 'product', f)
        same(f, children.clear, 'a product')
        return
    if kind in ('sequence', 'switch', 'ifelse'):
        base = A.ast.Sample(X, D['choice']({'a': .5, 'b': .5})).interpret()
        values = ['a', 'b']
        locs = {'a': 0, 'b': 3}
        if kind == 'switch':
            c = A.ast.Switch(X, values, lambda k: A.ast.Sample(Y,
                D['norm'](loc=locs[k], scale=1)))
        else:
            tests = [X << {'a'}, True]
            parts = [tests[0], A.ast.Sample(Y, D['norm'](loc=0, scale=1)),
                tests[1], A.ast.Sample(Y, D['norm'](loc=3, scale=1))]
            c = A.ast.IfElse(*parts)
        f = lambda: [float(c.interpret(base).logprob(Y > 1)),
            float(base.logprob(X << {'a'}))]
        W.add('logprob', kind, f)
        def change():
            if kind == 'switch':
                values.reverse()
                values.append('q')
            else:
                parts.clear()
        same(f, change, 'a program')
        return
    if kind == 'events':
        # Combining events does not change them.
        qs = [q for q in case['probes'].get(name, ()) if q[0] == 'prob']
        es = [S.event(q[2]) for q in qs]
        if not es:
            return
        texts = [str(e) for e in es]
        ps = [float(m.logprob(e)) for e in es]
        for a in es:
            for b in es:
                for c in (a & b, a | b, ~a, ~(a & ~b)):
                    str(c)
                    c.get_symbols()
                    try:
                        c.to_dnf()
                    except Exception:
                        pass
        ctx.expect(texts == [str(e) for e in es], 'event', 'combining events changes them')
        now = [float(m.logprob(e)) for e in es]
        ctx.expect(work.same(ps, now), 'event', lambda: 'combining events changes '
            'their probabilities from %r to %r' % (ps, now))

def probe_of(S, case, name, model):
    def f():
        out = []
        for q in case['probes'].get(name, ()):
            try:
                if q[0] == 'prob':
                    out.append(float(model.logprob(S.event(q[2]))))
                else:
                    out.append(float(model.logpdf(S.api.assignment(q[2], S.ns))))
            except Exception as e:
                out.append('error')
        out.append(work.canon_samples(model.sample(2, prng=numpy.random.RandomState(3))))
        return out
    return f

def shrink(case):
    ops = case['ops']
    for x in shrink_.ops(ops):
        yield dict(case, ops=x)
    for m in sorted(case['probes']):
        if case['probes'][m]:
            yield dict(case, probes=dict(case['probes'], **{m: []}))
    for i, op in enumerate(ops):
        if op[0] == 'abort':
            yield dict(case, ops=ops[:i] + [op[1]] + ops[i+1:])
