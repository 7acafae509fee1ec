"""Histories of operations on models: generation and execution.

Operations (JSON); models, caches and merge tables are named slots.
  ['build', program, style, mode, out]      mode 'cmd', 'src' or 'step'
  ['prob', m, event, memo]   ['logpdf', m, assignment, memo]
  ['cond', m, event, memo, out]   ['cons', m, assignment, memo, out]
  ['mi', m, A, B, memo]   ['trans', m, X, expr, out]
  ['sample', m, n, seed]   ['subset', m, vars, n, seed]   ['func', m, vars, n, seed]
  ['dedup', m, table, out]   ['save', m]   ['load', m, out]
  ['exposed', name, [[w, m],..], out]   ['simp', m, out]
  ['mix', [[w, m],..], out]   ['prod', [m,..], out]   ['drop', m]   ['gc']
  ['text', m]   (size, string of the variables, comparison with itself)
memo is null (none), false, or the name of a cache."""

import gc
import json
import math

import numpy

from . import api as api_
from . import core
from . import prog
from . import ref
from .prog import Gen
from .prog import Var
from .ref import Ref
from .ref import RefError
from .ref import ZeroProb

SMALL = dict(stmts=(1, 4), max_base=3, max_degree=2, solves=1, p_poly=.06,
    p_func=.07, max_paths=8, p_transform=.15, p_if=.3, p_switch=.1, p_for=.03)

_API = None

def get_api():
    global _API
    if _API is None:
        _API = api_.Api()
    return _API

WARM = [
    {'arrays': {}, 'stmts': [
        ['sample', 'X1', ['norm', {'loc': 0, 'scale': 1}]],
        ['sample', 'n2', ['mix', [[.5, ['poisson', {'mu': 2}]],
            [.5, ['binom', {'n': 4, 'p': .5}]]]]],
        ['if', [[['and', ['cmp', ['v', 'X1'], '>', 0],
                ['in', ['v', 'n2'], [1, 2]]],
                [['sample', 'Y3', ['choice', [['a', .25], ['b', .75]]]]]],
            [True, [['sample', 'Y3', ['choice', [['a', .5], ['b', .5]]]]]]]],
        ['transform', 'Z4', ['poly', ['v', 'X1'], [1, 0, 2]]],
        ['condition', ['cmp', ['v', 'Z4'], '<', 8]]]},
    {'arrays': {}, 'stmts': [
        ['sample', 'X1', ['choice', [['a', .25], ['b', .75]]]],
        ['switch', 'X1', ['a', 'b'], [['sample', 'W2',
            ['norm', {'loc': ['tab', [0, 1]], 'scale': 1}]]], False],
        ['sample', 'n3', ['uniform', {'loc': 0, 'scale': 4}]]]},
]

def warm():
    """A fixed workload that warms caches and the compiler of the interpreter."""
    from . import seams
    seams.memoise()
    A = get_api()
    for i in range(3):
        for p in WARM:
            for mode in range(2):
                tolerant(warm_program, A, p, mode, i)

def tolerant(f, *args, **kwds):
    """f(...), or None where the package fails: a run will tell of it."""
    try:
        return f(*args, **kwds)
    except Exception as e:
        if not core.raised_inside(e):
            raise

def warm_program(A, p, mode, i):
    ns = A.namespace(p)
    m = A.run(p, ns, i) if mode else A.run_source(p, i)
    do = tolerant
    for name in ('X1', 'n2', 'Y3', 'W2', 'n3'):
        if name not in ns or ns[name] not in m.get_symbols():
            continue
        X = ns[name]
        if name in ('Y3',) or (name == 'X1' and p is WARM[1]):
            e = ns[name] << {'a'}
        else:
            e = (X > .5) | (X < -1)
        do(m.logprob, e)
        do(m.condition, e)
        do(m.logprob, e | ~e)
    if p is WARM[0]:
        X = ns['X1']
        do(m.logprob, (X*X + 2*X < 3) | (ns['n2'] > 2))
        do(m.logprob, (X**3 - X < 1))
        do(m.logprob, (ns['Z4'] << {1, 3}))
        do(m.logpdf, {X: .5, ns['n2']: 2})
        do(m.constrain, {X: .5})
    do(m.sample, 5, prng=numpy.random.RandomState(1))
    do(lambda: A.restore(A.save(m)))

def canon(x):
    """JSON form of a value in a sample or result."""
    if isinstance(x, str):
        return x
    if isinstance(x, (bool, numpy.bool_)):
        return bool(x)
    try:
        f = float(x)
    except TypeError:
        return str(x)
    return f

def canon_samples(samples):
    return [sorted((str(k), canon(v)) for k, v in s.items()) for s in samples]

class Session():
    """Objects that live while a history runs."""
    def __init__(self, namespace=None, api=None):
        self.api = api or get_api()
        self.ns = namespace
        self.models = {}
        self.memos = {}
        self.tables = {}
        self.events = {}        # events and programs, used again
        self.kept = {}
        self.changed = []       # operations that changed what was passed to them
    def memo(self, name):
        if name is None or name is False:
            return name
        if name not in self.memos:
            self.memos[name] = self.api.spe.Memo()
        return self.memos[name]
    def kw(self, name):
        return {} if name is None else {'memo': self.memo(name)}
    def prng(self, seed):
        return None if seed is None else numpy.random.RandomState(seed)
    def event(self, ev):
        key = json.dumps(ev)
        if key not in self.events:
            self.events[key] = self.api.event(ev, self.ns)
        return self.events[key]
    def keep(self, key, f):
        if key not in self.kept:
            self.kept[key] = f()
        return self.kept[key]
    def given(self, op, f):
        # Call with an assignment of the caller, which stays as it is.
        a = self.api.assignment(op[2], self.ns)
        b = dict(a)
        r = f(a, **self.kw(op[3]))
        if a != b:
            self.changed.append(op)
        return r
    def func(self, names):
        # A function whose arguments are variables of the model.
        return eval('lambda %s: (%s,)' % (', '.join(names), ', '.join(names)))
    def do(self, op):
        """Result of an operation; models go to slots."""
        A = self.api
        t = op[0]
        M = self.models
        if t == 'build':
            (_t, program, style, mode, out) = op
            if mode == 'src':
                c = self.keep(out, lambda: A.to_python.SPPL_Compiler(
                    prog.program_source(program, style)))
                M[out] = c.execute_module().model
                return 'model'
            cs = self.keep(out, lambda: [A.command(s, self.ns, style)
                for s in program['stmts']])
            if mode == 'cmd':
                M[out] = self.keep(out + ' sequence',
                    lambda: A.ast.Sequence(*cs)).interpret()
            else:
                m = None
                for c in cs:
                    m = c.interpret(m)
                M[out] = m
            return 'model'
        if t == 'prob':
            return float(M[op[1]].logprob(self.event(op[2]), **self.kw(op[3])))
        if t == 'logpdf':
            return float(self.given(op, M[op[1]].logpdf))
        if t == 'cond':
            M[op[4]] = M[op[1]].condition(self.event(op[2]), **self.kw(op[3]))
            return 'model'
        if t == 'cons':
            M[op[4]] = self.given(op, M[op[1]].constrain)
            return 'model'
        if t == 'many':
            # Enough to fill a cache, if it has an end.
            X = eval(op[2], self.ns)
            return [float(M[op[1]].logprob(X < (i - op[3]//2)/8, **self.kw(op[4])))
                for i in range(op[3])]
        if t == 'mi':
            return float(M[op[1]].mutual_information(self.event(op[2]),
                self.event(op[3]), **self.kw(op[4])))
        if t == 'trans':
            ns = self.ns
            M[op[4]] = M[op[1]].transform(ns[op[2]],
                eval(prog.Renderer('cmd').expr(op[3]), ns))
            return 'model'
        if t == 'sample':
            return canon_samples(M[op[1]].sample(op[2], prng=self.prng(op[3])))
        if t == 'subset':
            vs = [eval(v, self.ns) for v in op[2]]
            return canon_samples(M[op[1]].sample_subset(vs, op[3],
                prng=self.prng(op[4])))
        if t == 'func':
            r = M[op[1]].sample_func(self.func(op[2]), op[3], prng=self.prng(op[4]))
            return [[canon(x) for x in y] for y in r]
        if t == 'dedup':
            table = self.tables.setdefault(op[2], {})
            M[op[3]] = A.spe.spe_cache_duplicate_subtrees(M[op[1]], table)
            return 'model'
        if t == 'save':
            return A.save(M[op[1]])
        if t == 'load':
            M[op[2]] = A.restore(A.save(M[op[1]]))
            return 'model'
        if t == 'mix':
            parts = [w*M[m] for w, m in op[1]]
            r = parts[0]
            for p in parts[1:]:
                r = r | p
            M[op[2]] = r
            return 'model'
        if t == 'exposed':
            M[op[3]] = A.spe.ExposedSumSPE(
                {str(i): M[m] for i, (_w, m) in enumerate(op[2])},
                A.spe.NominalLeaf(self.ns[op[1]],
                    {str(i): w for i, (w, _m) in enumerate(op[2])}))
            return 'model'
        if t == 'simp':
            m = M[op[1]]
            M[op[2]] = A.spe.spe_simplify_sum(m) \
                if isinstance(m, A.spe.SumSPE) else m
            return 'model'
        if t == 'prod':
            r = M[op[1][0]]
            for m in op[1][1:]:
                r = r & M[m]
            M[op[2]] = r
            return 'model'
        if t == 'drop':
            M.pop(op[1], None)
            return None
        if t == 'gc':
            gc.collect()
            return None
        if t == 'text':
            m = M[op[1]]
            return [m.size(), sorted(map(str, m.get_symbols())), m == m,
                hash(m) == hash(m)]
        raise ValueError(op)
    def attempt(self, op):
        """['ok', result] or ['error', class]; other exceptions pass."""
        try:
            return ['ok', self.do(op)]
        except Exception as e:
            return ['error', type(e).__name__]

def ref_mix(parts):
    paths = []
    for w, r in parts:
        lw = math.log(w) - math.log(r.total())
        paths.extend(ref.Path(p.base, p.derived, p.cons, p.logw + lw)
            for p in r.paths)
    return Ref(paths)

def ref_exposed(name, parts):
    """A mixture whose choice is a variable with values '0', '1', ..."""
    return ref_mix([(w, ref_prod([r, Ref([ref.Path(
        {name: ['choice', [[str(i), 1.]]]}, {}, (), 0.)])]))
        for i, (w, r) in enumerate(parts)])

def ref_prod(rs):
    paths = [ref.Path({}, {}, (), 0.)]
    for r in rs:
        lw = -math.log(r.total())
        new = []
        for a in paths:
            for b in r.paths:
                base = dict(a.base)
                base.update(b.base)
                derived = dict(a.derived)
                derived.update(b.derived)
                new.append(ref.Path(base, derived, a.cons + b.cons,
                    a.logw + b.logw + lw))
        paths = new
    return Ref(paths)

class Slot():
    def __init__(self, ref_, vars_):
        self.ref = ref_
        self.vars = vars_

class Hist():
    """Generates a history together with what the reference knows of it."""
    def __init__(self, rng, **opts):
        self.rng = rng
        self.o = dict(SMALL)
        self.o.update(opts)
        self.slots = {}
        self.vars_of = {}
        self.arrays = {}
        self.names = set()
        self.n = 0
        self.programs = []
        self.program_vars = []
        self.ops = []
        self.g = None
        self.nmodels = 0
    def name(self, stem='m'):
        self.n += 1
        return '%s%d' % (stem, self.n)
    def build(self, out=None, like=None, mode=None):
        """Add a program; like makes the same variables have other names."""
        r = self.rng
        for _ in range(6):
            g = Gen(r, **self.o)
            if self.g is not None:
                g.nnames = self.g.nnames
                if self.arrays:
                    g.o['p_for'] = 0
            program = g.run()
            if program['stmts']:
                break
        self.g = g
        self.arrays.update(g.arrays)
        self.names.update(g.vars)
        out = out or self.name()
        program = {'arrays': dict(g.arrays), 'stmts': list(program['stmts'])}
        self.programs.append(program)
        self.program_vars.append(dict(g.vars))
        mode = mode or r.choice(['cmd', 'cmd', 'src', 'step'])
        self.ops.append(['build', program, r.randint(0, 9), mode, out])
        self.slots[out] = Slot(g.ref, dict(g.vars))
        self.remember()
        return out
    def remember(self):
        """Keep the variables of models, also of those that are dropped."""
        for m, s in self.slots.items():
            self.vars_of.setdefault(m, dict(s.vars))
    def use(self, m):
        s = self.slots[m]
        self.g.ref = s.ref
        self.g.vars = s.vars
        self.g.solves = 1 if self.rng.random() < .3 else 0
        return self.g
    def pick(self):
        return self.rng.choice(sorted(self.slots))
    def program(self):
        """All names, for the namespace."""
        stmts = []
        for p in self.programs:
            stmts.extend(p['stmts'])
        return {'arrays': self.arrays, 'stmts': stmts, 'names': sorted(self.names)}
    # Operations.  Each returns an operation or None.
    def op_prob(self, memo=None, m=None, likely=False):
        m = m or self.pick()
        g = self.use(m)
        ev = g.likely_event(tries=4) if likely else None
        return ['prob', m, ev or g.gen_event(), memo]
    def op_logpdf(self, memo=None, m=None):
        m = m or self.pick()
        a = self.use(m).gen_assignment()
        return a and ['logpdf', m, a, memo]
    def op_cond(self, memo=None, m=None, keep=True):
        m = m or self.pick()
        g = self.use(m)
        ev = g.rare_event() if g.chance(.05) else None
        if ev is None:
            ev = g.likely_event(lo=.02, hi=self.rng.choice([.99, 1]), tries=6)
        if ev is None:
            return None
        try:
            post = g.ref.condition(ev)
        except (RefError, ZeroProb):
            return None
        out = self.name()
        if keep:
            self.slots[out] = Slot(post, g.vars)
        return ['cond', m, ev, memo, out]
    def op_cons(self, memo=None, m=None, keep=True):
        m = m or self.pick()
        g = self.use(m)
        a = g.gen_assignment()
        if a is None:
            return None
        a = a[:2]
        if not g.ref.density(dict(map(tuple, a))) > -7:
            return None
        post = g.ref.constrain(dict(map(tuple, a)))
        out = self.name()
        if keep:
            self.slots[out] = Slot(post, g.vars)
        return ['cons', m, a, memo, out]
    def op_many(self, memo=None, m=None, n=None):
        m = m or self.pick()
        vs = self.slots[m].vars
        names = sorted(v for v in vs if vs[v].kind == 'real' and vs[v].base)
        return names and ['many', m, self.rng.choice(names),
            n or self.rng.choice([6, 12, 20, 40]), memo] or None
    def op_mi(self, memo=None, m=None):
        m = m or self.pick()
        g = self.use(m)
        A = g.likely_event(lo=.02, hi=.98, tries=5, n=1)
        B = g.likely_event(lo=.02, hi=.98, tries=5, n=1)
        return A and B and ['mi', m, A, B, memo]
    def op_trans(self, m=None, keep=True):
        m = m or self.pick()
        g = self.use(m)
        names = sorted(n for n, v in g.vars.items() if v.kind == 'real' and v.depth < 2)
        if not names:
            return None
        got = g.gen_expr(self.rng.choice(names))
        if got is None:
            return None
        X = g.fresh()
        try:
            new = g.ref.transform(X, got[0])
        except RefError:
            return None
        out = self.name()
        self.names.add(X)
        if keep:
            vs = dict(g.vars)
            vs[X] = got[1]
            self.slots[out] = Slot(new, vs)
        return ['trans', m, X, got[0], out]
    def op_sample(self, m=None, n=None, seed=None):
        m = m or self.pick()
        r = self.rng
        n = n or r.choice([1, 2, 3, 5, 8, 17, 40])
        seed = r.randint(0, 999) if seed is None else seed
        vs = sorted(self.slots[m].vars)
        u = r.random()
        if u < .4:
            return ['sample', m, n, seed]
        some = r.sample(vs, r.randint(1, len(vs)))
        if u < .75:
            return ['subset', m, some, n, seed]
        some = [v for v in some if '[' not in v]
        return ['func', m, some, n, seed] if some else ['sample', m, n, seed]
    def op_dedup(self, table='t', m=None, keep=True):
        m = m or self.pick()
        out = self.name()
        if keep:
            self.slots[out] = self.slots[m]
        return ['dedup', m, table, out]
    def op_save(self, m=None):
        return ['save', m or self.pick()]
    def op_load(self, m=None, keep=True):
        m = m or self.pick()
        out = self.name()
        if keep:
            self.slots[out] = self.slots[m]
        return ['load', m, out]
    def op_mix(self, keep=True):
        # Models over the same variables.
        r = self.rng
        ms = sorted(self.slots)
        a = r.choice(ms)
        same = [m for m in ms if set(self.slots[m].vars) == set(self.slots[a].vars)
            and self.same_kinds(self.slots[m].vars, self.slots[a].vars)]
        n = min(len(same), r.choice([2, 2, 3]))
        if n < 2:
            return None
        chosen = r.sample(same, n)
        ws = {2: [.25, .75], 3: [.25, .25, .5]}[n]
        new = ref_mix([(w, self.slots[m].ref) for w, m in zip(ws, chosen)])
        if len(new.paths) > 16:
            return None
        out = self.name()
        if keep:
            self.slots[out] = Slot(new, self.slots[a].vars)
        return ['mix', [[w, m] for w, m in zip(ws, chosen)], out]
    def op_exposed(self, keep=True):
        op = self.op_mix(keep=False)
        if op is None:
            return None
        name = 'choice%d' % (self.n,)
        (parts, out) = op[1:]
        new = ref_exposed(name, [(w, self.slots[m].ref) for w, m in parts])
        self.names.add(name)
        if keep:
            vs = dict(self.slots[parts[0][1]].vars)
            vs[name] = Var('nom', None, None, [], True,
                [str(i) for i in range(len(parts))])
            self.slots[out] = Slot(new, vs)
        return ['exposed', name, parts, out]
    def op_simp(self, m=None, keep=True):
        m = m or self.pick()
        out = self.name()
        if keep:
            self.slots[out] = self.slots[m]
        return ['simp', m, out]
    def same_kinds(self, a, b):
        return all(a[k].kind == b[k].kind for k in a)
    def op_prod(self, keep=True):
        ms = sorted(self.slots)
        a = self.rng.choice(ms)
        other = [m for m in ms if not set(self.slots[m].vars) & set(self.slots[a].vars)]
        if not other:
            return None
        b = self.rng.choice(other)
        new = ref_prod([self.slots[a].ref, self.slots[b].ref])
        if len(new.paths) > 16:
            return None
        out = self.name()
        if keep:
            vs = dict(self.slots[a].vars)
            vs.update(self.slots[b].vars)
            self.slots[out] = Slot(new, vs)
        return ['prod', [a, b], out]
    def probes(self, m, n=3):
        """Queries that tell whether a model still answers as it did."""
        ops = []
        for _ in range(n):
            u = self.rng.random()
            q = self.op_logpdf(None, m) if u < .3 else None
            ops.append(q or self.op_prob(None, m))
        return ops

def namespace(program, api=None):
    A = api or get_api()
    ns = A.namespace(program)
    for n in program.get('names', ()):
        if '[' not in n and n not in ns:
            ns[n] = A.transforms.Id(n)
    return ns

def same(a, b, rel=1e-7, abs_=1e-9):
    """Whether two results (from Session.attempt) agree."""
    if isinstance(a, float) and isinstance(b, float):
        return api_.close(a, b, rel, abs_)
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) \
            and not isinstance(a, bool) and not isinstance(b, bool):
        return api_.close(float(a), float(b), rel, abs_)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, rel, abs_) for x, y in zip(a, b))
    return a == b

def same_answer(a, b):
    """Answers of two attempts: errors agree whatever their class."""
    if a[0] != b[0]:
        return False
    return a[0] == 'error' or same(a[1], b[1])

def prob_close(a, b, rel=1e-6, abs_=1e-9):
    """Answers to log-probability queries, compared as probabilities."""
    if a[0] != 'ok' or b[0] != 'ok':
        return a[0] == b[0]
    (x, y) = (a[1], b[1])
    if isinstance(x, float) and isinstance(y, float):
        if x == y or (math.isinf(x) and math.isinf(y)):
            return x == y
        (p, q) = (math.exp(min(x, 700)), math.exp(min(y, 700)))
        return api_.close(p, q, rel, abs_)
    return same(x, y)

def prob_equal(a, b):
    """Answers found by the same arithmetic, up to the order of sums."""
    return prob_close(a, b, 1e-8, 1e-12)

class RefSession():
    """The same operations on the reference; results are floats or 'zero'."""
    def __init__(self):
        self.m = {}
    def do(self, op):
        t = op[0]
        M = self.m
        if t == 'build':
            M[op[4]] = prog.ref_exec(Ref(), op[1]['stmts'])
        elif t == 'cond':
            M[op[4]] = M[op[1]].condition(op[2])
        elif t == 'cons':
            M[op[4]] = M[op[1]].constrain(dict(map(tuple, op[2])))
        elif t == 'trans':
            M[op[4]] = M[op[1]].transform(op[2], op[3])
        elif t == 'dedup':
            M[op[3]] = M[op[1]]
        elif t == 'load':
            M[op[2]] = M[op[1]]
        elif t == 'mix':
            M[op[2]] = ref_mix([(w, M[m]) for w, m in op[1]])
        elif t == 'exposed':
            M[op[3]] = ref_exposed(op[1], [(w, M[m]) for w, m in op[2]])
        elif t == 'simp':
            M[op[2]] = M[op[1]]
        elif t == 'prod':
            M[op[2]] = ref_prod([M[m] for m in op[1]])
        elif t == 'prob':
            return M[op[1]].prob(op[2])
        elif t == 'logpdf':
            return M[op[1]].density(dict(map(tuple, op[2])))
        elif t == 'mi':
            return prog.ref_answer(M[op[1]], ['mi', op[2], op[3]])
        return None
    def attempt(self, op):
        """Result, or None where the reference says nothing."""
        try:
            return self.do(op)
        except (RefError, KeyError, IndexError):
            return None
        except ZeroProb:
            return 'zero'

def ref_agrees(op, got, expected):
    """Whether the answer to an operation (from attempt) is the expected one."""
    if expected is None:
        return True
    if expected == 'zero':
        return got[0] == 'error'
    if got[0] != 'ok':
        return False
    if op[0] == 'prob':
        return api_.close(math.exp(min(got[1], 700)), expected, 2e-6, 1e-7)
    return api_.close(got[1], expected, 2e-6, 1e-7)

def variant(h, src=None, strong=False):
    """A model over the same variables as a program, with other parameters."""
    r = h.rng
    src = src or r.choice([p for p in h.programs])
    near = r.random() < .25
    for _ in range(4):
        stmts = [perturb(r, s) for s in src['stmts']]
        if near:
            # The same but for one distribution, which is almost the same.
            stmts = list(src['stmts'])
            ks = [k for k, s in enumerate(stmts) if s[0] == 'sample']
            if ks:
                mixes = [k for k in ks if stmts[k][2][0] == 'mix']
                k = r.choice(mixes if mixes and r.random() < .5 else ks)
                stmts[k] = ['sample', stmts[k][1], nudge(r, stmts[k][2])]
        try:
            new = prog.ref_exec(Ref(), stmts)
        except (RefError, ZeroProb):
            continue
        (base,) = [v for p, v in zip(h.programs, h.program_vars) if p is src]
        out = h.name()
        h.slots[out] = Slot(new, dict(base))
        h.remember()
        h.ops.append(['build', {'arrays': src['arrays'], 'stmts': stmts},
            r.randint(0, 9), r.choice(['cmd', 'step']), out])
        return out
    return None

def perturb(r, s):
    if s[0] != 'sample':
        return s
    return ['sample', s[1], perturb_dist(r, s[2])]

def nudge(r, d):
    """A distribution that is almost but not quite the same."""
    e = 2.**-r.choice([8, 12, 18, 19, 19, 20])
    if d[0] == 'norm' or d[0] == 'uniform':
        k = r.choice(['loc', 'scale'])
        return [d[0], dict(d[1], **{k: d[1][k] + e})]
    if d[0] == 'poisson':
        return ['poisson', {'mu': d[1]['mu'] + e}]
    if d[0] == 'expon':
        return ['expon', dict(d[1], scale=d[1]['scale'] + e)]
    if d[0] in ('choice', 'discrete', 'mix'):
        ws = list(d[1])
        i = max(range(len(ws)), key=lambda i: ws[i][d[0] != 'mix'])
        j = (i + 1) % len(ws)
        def add(x, y):
            return [x[0], x[1] + y] if d[0] != 'mix' else [x[0] + y, x[1]]
        (ws[i], ws[j]) = (add(ws[i], -e), add(ws[j], e))
        if min(ws[i][d[0] != 'mix'], ws[j][d[0] != 'mix']) > 0:
            return [d[0], ws]
    return d

def perturb_dist(r, d):
    if r.random() < .25:
        return nudge(r, d)
    if d[0] == 'norm':
        d = ['norm', dict(d[1], loc=d[1]['loc'] + r.choice([0, .5, 1])) ]
    elif d[0] == 'uniform':
        d = ['uniform', dict(d[1], scale=d[1]['scale'] + r.choice([0, .5]))]
    elif d[0] == 'choice':
        ws = [w for _v, w in d[1]]
        ws = ws[1:] + ws[:1]
        d = ['choice', [[v, w] for (v, _w), w in zip(d[1], ws)]]
    elif d[0] == 'poisson':
        d = ['poisson', {'mu': d[1]['mu'] + r.choice([0, 1])}]
    elif d[0] == 'bernoulli':
        d = ['bernoulli', {'p': r.choice([.25, .375, .625])}]
    elif d[0] == 'discrete':
        ws = [w for _v, w in d[1]]
        k = r.choice([0, 1])
        ws = ws[k:] + ws[:k]
        d = ['discrete', [[v, w] for (v, _w), w in zip(d[1], ws)]]
    elif d[0] == 'uniformd':
        vs = list(d[1])
        vs[-1] += r.choice([0, 1])
        d = ['uniformd', vs]
    elif d[0] == 'binom':
        d = ['binom', dict(d[1], p=r.choice([.25, d[1]['p']]))]
    elif d[0] == 'atomic':
        d = ['atomic', d[1] + r.choice([0, 1])]
    elif d[0] == 'mix' and r.random() < .8:
        cs = [[w, perturb_dist(r, c)] for w, c in d[1]]
        if r.random() < .5:
            ws = [w for w, _c in cs]
            ws = ws[1:] + ws[:1]
            cs = [[w, c] for w, (_w, c) in zip(ws, cs)]
        d = ['mix', cs]
    return d
