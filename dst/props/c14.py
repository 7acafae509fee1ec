"""C14: a rendered graph shows exactly the model, whatever the clock does.

Models are rendered under wall clocks that freeze, jump, repeat or are coarse,
interleaved with other renderings, interrupted ones and garbage collection; the
graph is compared with the structure of the model."""

import gc
import math
import random

from sim import abort
from sim import core
from sim import inject
from sim import seams
from sim import shrink as shrink_
from sim import work

RUNS = {'quick': 640, 'thorough': 8000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded history of models (programs, posteriors, mixtures, merged '
    'and restored ones) that are rendered under a seeded clock. It is non-trivial when '
    'a model with at least three components was rendered.')
MEASURE = 'distinct (behaviour of the clock, shape of the graph)'
REAL = ['sppl (all modules)', 'sppl.magics.render', 'networkx']
STUB = ['wall and monotonic clocks', 'addresses (id)', 'state of the module random',
    'interrupts and allocation failures (raised at trace points)']
ASSUMPTIONS = ['A component that occurs several times in a model is shown at each place.']
OWN_WORLD = True

render = None

def warm():
    global render
    work.warm()
    import sppl.magics.render as render_
    render = render_
    def once():
        m = work.get_api().run(work.WARM[0])
        try:
            check(core.Ctx(), m, render.render_networkx_graph(m), 'warm')
        except core.Violation:
            # Runs will tell.
            pass
    work.tolerant(once)

CLOCKS = ['frozen', 'coarse', 'back', 'repeat', 'jump', 'fine', 'zero']

def gen(rng, tier):
    opts = rng.choice([dict(), dict(p_mix=.6), dict(p_if=.6), dict(p_transform=.6),
        dict(p_switch=.6), dict(stmts=(3, 6)), dict(p_discrete=.8)])
    h = work.Hist(rng, **opts)
    out = []
    def flush():
        out.extend(h.ops)
        del h.ops[:]
    h.build()
    if rng.random() < .6:
        work.variant(h)
    if rng.random() < .4:
        h.build()
    flush()
    for _ in range(rng.randint(2, 9)):
        u = rng.random()
        op = h.op_cond() if u < .28 else h.op_trans() if u < .45 else h.op_mix() \
            if u < .58 else h.op_prod() if u < .66 else h.op_dedup('t') if u < .8 \
            else h.op_load() if u < .86 else h.op_cons()
        h.remember()
        if op:
            out.append(op)
        if op and op[0] == 'trans' and rng.random() < .3:
            # Many variables derived from one.
            for _ in range(rng.randint(2, 5)):
                op = h.op_trans(m=op[-1])
                h.remember()
                if op is None:
                    break
                out.append(op)
        while rng.random() < .5:
            m = h.pick()
            u = rng.random()
            if u < .7:
                out.append(['render', m])
            elif u < .9:
                out.append(['torn', m, core.gen_point(rng),
                    rng.choice(['interrupt', 'memory'])])
            else:
                out.append(['gc'])
    for m in sorted(h.slots):
        out.append(['render', m])
    return {'program': h.program(), 'ops': out, 'clock': rng.choice(CLOCKS),
        'addresses': rng.random() < .3, 'seed': rng.randint(0, 10**6),
        'reseed': rng.random() < .3, 'collide': rng.choice([0, 0, 0, 1, 3])}

class Clock():
    """Reads of a clock that misbehaves."""
    def __init__(self, kind, seed):
        self.kind = kind
        self.rng = random.Random(seed)
        self.t = 1.6e9 + seed/7
        self.n = 0
        self.past = []
    def __call__(self):
        self.n += 1
        k = self.kind
        r = self.rng
        if k == 'coarse':
            self.t += .0006
            return round(self.t*64)/64
        if k == 'back':
            self.t += r.choice([1e-3, 1e-3, -2e-3, -1.])
        elif k == 'repeat':
            if self.past and r.random() < .6:
                return r.choice(self.past)
            self.t += 1e-3
            self.past.append(self.t)
        elif k == 'jump':
            self.t += r.choice([0, 0, 1e-3, 3600., -3600.])
        elif k == 'fine':
            self.t += 1e-6
        elif k == 'zero':
            return 0.
        return self.t

def text(x):
    return str(x)

def expected(m, A):
    """Canonical tree of a model: [label, [[edge label, tree],..]]."""
    spe = A.spe
    if isinstance(m, (spe.SumSPE, spe.ProductSPE)):
        is_sum = isinstance(m, spe.SumSPE)
        parts = []
        for i, c in enumerate(m.children):
            w = '%1.3f' % (math.exp(m.weights[i]),) if is_sum else None
            parts.append([w, expected(c, A)])
        return ['\N{PLUS SIGN}' if is_sum else '\N{MULTIPLICATION SIGN}', order(parts)]
    # Leaves: variable, distribution and derived variables.
    parts = []
    for k, v in m.env.items():
        if k != m.symbol:
            parts.append([text(k), [text(v), []]])
    if isinstance(m, spe.NominalLeaf):
        words = ['Nominal']
    elif isinstance(m, spe.AtomicLeaf):
        words = [str(m.value)]
    else:
        words = [m.dist.dist.name] + [str(x) for x in m.dist.kwds.values()]
    return [[m.symbol.token] + words, order(parts)]

def order(parts):
    return sorted(parts, key=repr)

def actual(G, node, seen):
    seen.append(node)
    parts = []
    for b in G.successors(node):
        d = G.edges[node, b]
        label = d.get('label')
        parts.append([label.strip() if label is not None else None, actual(G, b, seen)])
        if len(seen) > len(G):
            return [None, []]
    return [G.nodes[node].get('label'), parts]

def match(e, a):
    """Whether a tree of a graph shows the expected one."""
    (label, parts) = e
    if a[0] is None:
        return False
    if isinstance(label, list):
        # Words of a leaf, in order.
        s = a[0]
        if s.split('\n')[0] != label[0]:
            return False
        i = len(label[0])
        for w in label[1:]:
            i = s.find(w, i)
            if i < 0:
                return False
    elif label != a[0]:
        return False
    return match_parts(parts, a[1])

def match_parts(es, as_):
    if len(es) != len(as_):
        return False
    if not es:
        return True
    e = es[0]
    for i, a in enumerate(as_):
        if e[0] == a[0] and match(e[1], a[1]) and match_parts(es[1:], as_[:i] + as_[i+1:]):
            return True
    return False

def nodes(e):
    return 1 + sum(nodes(p) for _l, p in e[1])

def shape(e):
    return (e[0] if isinstance(e[0], str) else '.', tuple(shape(p) for _l, p in e[1]))

def check(ctx, m, G, name):
    A = work.get_api()
    e = expected(m, A)
    n = nodes(e)
    ctx.expect(len(G) == n, 'nodes', lambda: 'the graph of %s has %d nodes for %d '
        'components and derived variables' % (name, len(G), n))
    ctx.expect(G.number_of_edges() == n - 1, 'edges', lambda: 'the graph of %s has %d '
        'edges for %d nodes' % (name, G.number_of_edges(), n))
    roots = [v for v in G if G.in_degree(v) == 0]
    ctx.expect(len(roots) == 1, 'roots', lambda: 'the graph of %s has %d roots'
        % (name, len(roots)))
    seen = []
    a = actual(G, roots[0], seen)
    ctx.expect(sorted(seen) == sorted(G), 'tree', lambda: 'the graph of %s is not a '
        'tree' % (name,))
    ctx.expect(match(e, a), 'structure', lambda: 'the graph of %s shows\n%r\nand the '
        'model is\n%r' % (name, a, e))
    if n >= 3:
        ctx.nontrivial = True
    return e

def run(case, ctx):
    clock = Clock(case['clock'], case['seed'])
    w = seams.World(ctx)
    w.wall = clock
    w.tick = {'fine': 1e-6, 'frozen': 0., 'zero': 0.}.get(case['clock'], 0.)
    S = work.Session(work.namespace(case['program']))
    names = {}
    if case['addresses']:
        names['id'] = inject.Addresses()
    if case['collide']:
        names['hash'] = inject.Collide(case['collide'])
    if names:
        inject.inject(**names)
    with w:
        for i, op in enumerate(case['ops']):
            if op[0] in ('render', 'torn'):
                if op[1] not in S.models:
                    continue
                m = S.models[op[1]]
                if case['reseed']:
                    random.seed(case['seed'])
                if op[0] == 'torn':
                    abort.aborted(ctx, lambda: render.render_networkx_graph(m), op[2],
                        op[3], ('magics', 'sppl'), ())
                    continue
                n0 = clock.n
                G = render.render_networkx_graph(m)
                e = check(ctx, m, G, op[1])
                ctx.state(case['clock'], shape(e))
                ctx.stat('clock_reads', clock.n - n0)
                ctx.fault('clock_' + case['clock'])
                ctx.log(i, 'render', op[1], len(G))
            elif op[0] == 'gc':
                gc.collect()
            else:
                used = [m for _w, m in op[1]] if op[0] == 'mix' else op[1] \
                    if op[0] == 'prod' else [op[1]] if op[0] != 'build' else []
                if all(m in S.models for m in used):
                    r = S.attempt(op)
                    if op[0] == 'build' and r[0] != 'ok':
                        raise core.Skip('a program does not compile')

def shrink(case):
    for x in shrink_.ops(case['ops']):
        yield dict(case, ops=x)
    for k in ('addresses', 'reseed', 'collide'):
        if case[k]:
            yield dict(case, **{k: 0})
    if case['clock'] != 'frozen':
        yield dict(case, clock='frozen')
