"""Independent reference semantics of SPPL programs (no code of SPPL is used).

A program is executed by enumerating its executions ("paths"): a path fixes the
branch taken at every if/switch and the component drawn from every mixture, so
within a path the base variables are independent and have an elementary
distribution (scipy) or are pinned to a value.  Conditions are kept as
constraints.  Probabilities are sums over paths and over cells: the real line of
each variable is cut at a superset of the points where any predicate can change,
and each predicate is evaluated by plain arithmetic at one point of each cell.

Statements, events and expressions are JSON values; see prog.py.
"""

import json
import math

from fractions import Fraction

import numpy
import scipy.stats

inf = math.inf

class RefError(Exception):
    """The program is outside of what the reference defines."""

class ZeroProb(Exception):
    """Conditioning on probability (or density) zero."""

# ----------------------------------------------------------------------------
# Distributions.

_frozen = {}
_cdfs = {}
_atoms = {}

CONT = {'norm', 'uniform', 'expon', 'gamma', 'beta', 'laplace', 'logistic',
    'cauchy', 'rayleigh', 'halfnorm', 'weibull_min', 'gumbel_r', 'triang', 't'}
DISC = {'poisson', 'binom', 'geom', 'bernoulli', 'randint', 'nbinom'}

def key_of(x):
    return json.dumps(x, sort_keys=True)

def frozen(d):
    k = key_of(d)
    if k not in _frozen:
        _frozen[k] = getattr(scipy.stats, d[0])(**d[1])
    return _frozen[k]

def dist_kind(d):
    if d[0] in CONT:
        return 'cont'
    if d[0] == 'choice':
        return 'nom'
    return 'disc'

def cont_bounds(d):
    f = frozen(d)
    (a, b) = (float(f.ppf(0)), float(f.ppf(1)))
    return (a, b)

def cont_mass(d, a, b):
    """Probability of (a, b)."""
    if b <= a:
        return 0.
    k = key_of(d)
    f = frozen(d)
    def look(x, which):
        kk = (k, x, which)
        if kk not in _cdfs:
            _cdfs[kk] = float(f.cdf(x) if which == 'c' else f.sf(x))
        return _cdfs[kk]
    if look(a, 'c') > 0.5:
        return max(0., look(a, 's') - look(b, 's'))
    return max(0., look(b, 'c') - look(a, 'c'))

def disc_atoms(d):
    """[(value, probability)] of a discrete or nominal distribution."""
    k = key_of(d)
    if k in _atoms:
        return _atoms[k]
    if d[0] == 'choice':
        s = sum(w for _v, w in d[1])
        r = [(v, w/s) for v, w in d[1]]
    elif d[0] == 'discrete':
        r = [(v, w) for v, w in d[1]]
    elif d[0] == 'uniformd':
        r = [(v, 1./len(d[1])) for v in d[1]]
    elif d[0] in ('atomic', 'atom'):
        r = [(d[1], 1.)]
    else:
        f = frozen(d)
        lo = int(f.ppf(1e-14)) - 1
        hi = int(f.ppf(1 - 1e-14)) + 2
        ks = list(range(lo, hi + 1))
        r = [(v, float(p)) for v, p in zip(ks, f.pmf(ks)) if p > 0]
    _atoms[k] = r
    return r

def dist_components(d):
    if d[0] == 'mix':
        r = []
        for w, c in d[1]:
            r.extend((w*w2, c2) for w2, c2 in dist_components(c))
        return r
    return [(1., d)]

def log_density(d, v):
    """(degree, log density) of the elementary distribution d at v."""
    if dist_kind(d) == 'cont':
        if isinstance(v, str):
            return (0, -inf)
        return (1, float(frozen(d).logpdf(v)))
    for x, p in disc_atoms(d):
        if x == v and isinstance(x, str) == isinstance(v, str):
            return (0, math.log(p) if p > 0 else -inf)
    return (0, -inf)

# ----------------------------------------------------------------------------
# Expressions.

def expr_var(e):
    while e[0] != 'v':
        if e[0] == 'pw':
            e = e[1][0][0]
        elif e[0] == 'expb':
            e = e[2]
        else:
            e = e[1]
    return e[1]

def eval_expr(e, look):
    """Value of an expression; nan where undefined, strings pass through."""
    t = e[0]
    if t == 'v':
        return look(e[1])
    if t == 'pw':
        for sub, ev in e[1]:
            if eval_event(ev, look):
                return eval_expr(sub, look)
        return math.nan
    x = eval_expr(e[2] if t == 'expb' else e[1], look)
    if isinstance(x, str) or x != x:
        return math.nan
    try:
        if t == 'poly':
            r = 0.
            if math.isinf(x):
                return math.nan
            for c in reversed(e[2]):
                r = r*x + c
            return r
        if t == 'abs':
            return abs(x)
        if t == 'exp':
            return math.exp(x)
        if t == 'expb':
            return float(e[1])**x
        if t == 'log':
            return math.log(x) if x > 0 else (-inf if x == 0 else math.nan)
        if t == 'sqrt':
            return math.sqrt(x) if x >= 0 else math.nan
        if t == 'recip':
            return 1./x if x != 0 else math.nan
    except OverflowError:
        return inf
    raise RefError('expr %r' % (e,))

def preimage(e, pts):
    """Superset of the points of the variable of e that e maps to pts."""
    t = e[0]
    if t == 'v':
        return list(pts)
    if t == 'pw':
        r = []
        for sub, _ev in e[1]:
            r.extend(preimage(sub, pts))
        return r
    sub = e[2] if t == 'expb' else e[1]
    xs = []
    for y in pts:
        if not math.isfinite(y):
            continue
        if t == 'poly':
            cs = [float(c) for c in e[2]]
            cs[0] -= y
            while len(cs) > 1 and cs[-1] == 0:
                cs.pop()
            if len(cs) == 2:
                xs.append(-cs[0]/cs[1])
            elif len(cs) == 3:
                (c, b, a) = cs
                D = b*b - 4*a*c
                scale = max(b*b, abs(4*a*c), 1e-300)
                if D >= 0:
                    s = math.sqrt(D)
                    q = -(b + (s if b >= 0 else -s))/2
                    if q != 0:
                        xs.extend([q/a, c/q])
                    else:
                        xs.extend([0., -b/a])
                elif D > -1e-9*scale:
                    xs.append(-b/(2*a))
            elif len(cs) > 3:
                xs.extend(poly_roots(cs))
        elif t == 'abs':
            xs.extend([y, -y])
        elif t == 'exp':
            if y > 0:
                xs.append(math.log(y))
        elif t == 'expb':
            if y > 0:
                xs.append(math.log(y)/math.log(e[1]))
        elif t == 'log':
            if y < 700:
                xs.append(math.exp(y))
        elif t == 'sqrt':
            if y >= 0:
                xs.append(y*y)
        elif t == 'recip':
            if y != 0:
                xs.append(1./y)
        else:
            raise RefError('expr %r' % (e,))
    return preimage(sub, xs)

def poly_divmod(a, b):
    a = list(a)
    q = [Fraction(0)]*max(len(a) - len(b) + 1, 1)
    while len(a) >= len(b):
        c = a[-1]/b[-1]
        q[len(a) - len(b)] = c
        for i, x in enumerate(b):
            a[len(a) - len(b) + i] -= c*x
        a.pop()
    while a and a[-1] == 0:
        a.pop()
    return q, a

def poly_roots(cs):
    """Real roots, each once (repeated ones are ill-conditioned), and points
    that may be ones."""
    p = [Fraction(c) for c in cs]
    d = [i*c for i, c in enumerate(p)][1:]
    (a, b) = (p, d)
    while b:
        (a, b) = (b, poly_divmod(a, b)[1])
    if len(a) > 1:
        p = poly_divmod(p, a)[0]
    d = [i*c for i, c in enumerate(p)][1:]
    value = lambda cs, x: sum(c*x**i for i, c in enumerate(cs))
    xs = []
    for r in numpy.roots([float(c) for c in p[::-1]]):
        if abs(r.imag) > 1e-4*(1 + abs(r.real)):
            continue
        x = float(r.real)
        for _ in range(3):
            slope = value(d, Fraction(x))
            if slope != 0:
                step = float(value(p, Fraction(x))/slope)
                if abs(step) < 1e-4*(1 + abs(x)):
                    x -= step
        y = round(x*64)/64
        xs.append(y if abs(x - y) < 1e-6 and value(p, Fraction(y)) == 0 else x)
    return xs

def breaks(e):
    """Points of the variable of e where e may jump or become undefined."""
    t = e[0]
    if t == 'v':
        return []
    if t == 'pw':
        r = []
        for sub, ev in e[1]:
            r.extend(breaks(sub))
            for leaf in event_leaves(ev):
                r.extend(breaks(leaf_expr(leaf)))
                r.extend(preimage(leaf_expr(leaf), leaf_points(leaf)))
        return r
    sub = e[2] if t == 'expb' else e[1]
    r = breaks(sub)
    if t in ('recip', 'log', 'sqrt'):
        r = r + preimage(sub, [0.])
    return r

# ----------------------------------------------------------------------------
# Events.

def event_leaves(ev):
    if ev[0] in ('and', 'or'):
        r = []
        for x in ev[1:]:
            r.extend(event_leaves(x))
        return r
    if ev[0] == 'not':
        return event_leaves(ev[1])
    return [ev]

def leaf_expr(leaf):
    return leaf[3] if leaf[0] == 'range' else leaf[1]

def leaf_points(leaf):
    if leaf[0] == 'cmp':
        return [leaf[3]]
    if leaf[0] == 'range':
        return [leaf[1], leaf[4]]
    if leaf[0] in ('in', 'notin'):
        return [v for v in leaf[2] if not isinstance(v, str)]
    raise RefError('leaf %r' % (leaf,))

def leaf_true(leaf, x):
    t = leaf[0]
    if t == 'in':
        return any(isinstance(v, str) == isinstance(x, str) and v == x
            for v in leaf[2])
    if t == 'notin':
        if x != x:
            return False
        return not any(isinstance(v, str) == isinstance(x, str) and v == x
            for v in leaf[2])
    if isinstance(x, str) or x != x:
        return False
    if t == 'cmp':
        (op, c) = (leaf[2], leaf[3])
        return (x < c if op == '<' else x <= c if op == '<='
            else x > c if op == '>' else x >= c)
    if t == 'range':
        (_r, lo, ls, _e, hi, hs) = leaf
        return (lo < x if ls else lo <= x) and (x < hi if hs else x <= hi)
    raise RefError('leaf %r' % (leaf,))

def eval_event(ev, look):
    if ev[0] == 'and':
        return all(eval_event(x, look) for x in ev[1:])
    if ev[0] == 'or':
        return any(eval_event(x, look) for x in ev[1:])
    if ev[0] == 'not':
        return not eval_event(ev[1], look)
    return leaf_true(ev, eval_expr(leaf_expr(ev), look))

def event_vars(ev):
    return sorted(set(expr_var(leaf_expr(l)) for l in event_leaves(ev)))

def eval_tree(ev, truth):
    """Truth of an event given truth of its leaves (a dict by key)."""
    if ev[0] == 'and':
        return all(eval_tree(x, truth) for x in ev[1:])
    if ev[0] == 'or':
        return any(eval_tree(x, truth) for x in ev[1:])
    if ev[0] == 'not':
        return not eval_tree(ev[1], truth)
    return truth[key_of(ev)]

# ----------------------------------------------------------------------------
# Paths.

class Path():
    __slots__ = ('base', 'derived', 'cons', 'logw', '_masses')
    def __init__(self, base, derived, cons, logw):
        self.base = base            # var -> elementary distribution
        self.derived = derived      # var -> expression over one variable
        self.cons = cons            # tuple of events that hold
        self.logw = logw
        self._masses = None

    def root(self, var):
        while var in self.derived:
            var = expr_var(self.derived[var])
        if var not in self.base:
            raise RefError('unknown variable %s' % (var,))
        return var

    def value(self, var, root, x):
        if var == root:
            return x
        return eval_expr(self.derived[var], lambda v: self.value(v, root, x))

    def cuts(self, var, pts):
        """Points of the root variable where var may cross pts."""
        pts = list(pts)
        while var in self.derived:
            e = self.derived[var]
            (pts, var) = (preimage(e, pts) + breaks(e), expr_var(e))
        return pts

    def components(self, events):
        """Group events that share root variables."""
        groups = []
        for ev in events:
            vs = set(self.root(v) for v in event_vars(ev))
            merged = ([ev], vs)
            rest = []
            for g in groups:
                if g[1] & vs:
                    merged = (g[0] + merged[0], g[1] | merged[1])
                    vs = merged[1]
                else:
                    rest.append(g)
            groups = rest + [merged]
        return groups

    def prob_component(self, events, roots):
        """Probability that all the events hold, over independent roots."""
        leaves = {}
        for ev in events:
            for l in event_leaves(ev):
                leaves[key_of(l)] = l
        tables = []
        for root in sorted(roots):
            mine = [(k, l) for k, l in sorted(leaves.items())
                if self.root(expr_var(leaf_expr(l))) == root]
            tables.append(self.truth_table(root, mine))
        return self._enumerate(events, tables, 0, {}, 1.)

    def _enumerate(self, events, tables, i, truth, p):
        if i == len(tables):
            return p if all(eval_tree(ev, truth) for ev in events) else 0.
        total = 0.
        (keys, rows) = tables[i]
        for vec, q in rows:
            truth.update(zip(keys, vec))
            total += self._enumerate(events, tables, i + 1, truth, p*q)
        return total

    def truth_table(self, root, leaves):
        d = self.base[root]
        keys = [k for k, _l in leaves]
        if dist_kind(d) == 'cont':
            (a, b) = cont_bounds(d)
            pts = set()
            for _k, l in leaves:
                e = leaf_expr(l)
                local = preimage(e, leaf_points(l)) + breaks(e)
                pts.update(self.cuts(expr_var(e), local))
            pts = sorted(x for x in pts if math.isfinite(x) and a < x < b)
            edges = [a] + pts + [b]
            cells = []
            for (l, r) in zip(edges, edges[1:]):
                if math.isinf(l) and math.isinf(r):
                    m = 0.1234
                elif math.isinf(l):
                    m = r - 0.7654*max(1., abs(r))
                elif math.isinf(r):
                    m = l + 0.7654*max(1., abs(l))
                else:
                    m = l + (r - l)*0.4987
                cells.append((m, cont_mass(d, l, r)))
        else:
            cells = disc_atoms(d)
        rows = {}
        for m, p in cells:
            if p == 0:
                continue
            vec = tuple(
                leaf_true(l, eval_expr(leaf_expr(l),
                    lambda v: self.value(v, root, m)))
                for _k, l in leaves)
            rows[vec] = rows.get(vec, 0.) + p
        return (keys, sorted(rows.items()))

    def mass(self, events=()):
        """Weight of the path jointly with the constraints and events."""
        if self._masses is None:
            self._masses = [(evs, roots, self.prob_component(evs, roots))
                for evs, roots in self.components(self.cons)]
        w = math.exp(self.logw)
        if not events:
            for _e, _r, p in self._masses:
                w *= p
            return w
        touched = set(self.root(v) for ev in events for v in event_vars(ev))
        again = list(events)
        for evs, roots, p in self._masses:
            if roots & touched:
                again.extend(evs)
            else:
                w *= p
        for evs, roots in self.components(again):
            w *= self.prob_component(evs, roots)
        return w

    def pin(self, assignment):
        """(degree, path with variables pinned and weight times density)."""
        base = dict(self.base)
        (degree, logw) = (0, self.logw)
        for v, x in assignment.items():
            if v not in base:
                raise RefError('not a base variable: %s' % (v,))
            (d, l) = log_density(base[v], x)
            degree += d
            logw += l
            base[v] = ['choice', [[x, 1.]]] if isinstance(x, str) else ['atom', x]
        return (degree, Path(base, self.derived, self.cons, logw))

class Ref():
    """State of the reference after some statements."""
    def __init__(self, paths=None):
        self.paths = paths if paths is not None else [Path({}, {}, (), 0.)]
        self._total = None

    # Queries.
    def total(self):
        if self._total is None:
            self._total = sum(p.mass() for p in self.paths)
        return self._total

    def prob(self, event):
        return sum(p.mass((event,)) for p in self.paths)/self.total()

    def logprob(self, event):
        p = self.prob(event)
        return math.log(p) if p > 0 else -inf

    def density(self, assignment):
        (_degree, lp, _paths) = self._density(assignment)
        return lp

    def _density(self, assignment):
        pins = []
        for p in self.paths:
            (degree, q) = p.pin(assignment)
            if q.logw == -inf:
                continue
            m = q.mass()
            if m > 0:
                pins.append((degree, m, q))
        if not pins:
            return (0, -inf, [])
        degree = min(d for d, _m, _q in pins)
        pins = [x for x in pins if x[0] == degree]
        lp = math.log(sum(m for _d, m, _q in pins)) - math.log(self.total())
        return (degree, lp, [q for _d, _m, q in pins])

    # Statements; each returns a new state.
    def variables(self):
        p = self.paths[0]
        return sorted(p.base) + sorted(p.derived)

    def sample(self, var, dist):
        paths = []
        for p in self.paths:
            if var in p.base or var in p.derived:
                raise RefError('variable exists: %s' % (var,))
            for w, c in dist_components(dist):
                base = dict(p.base)
                base[var] = c
                paths.append(Path(base, p.derived, p.cons, p.logw + math.log(w)))
        return Ref(paths)

    def transform(self, var, expr):
        paths = []
        for p in self.paths:
            if var in p.base or var in p.derived:
                raise RefError('variable exists: %s' % (var,))
            if dist_kind(p.base[p.root(expr_var(expr))]) == 'nom':
                raise RefError('nominal')
            derived = dict(p.derived)
            derived[var] = expr
            paths.append(Path(p.base, derived, p.cons, p.logw))
        return Ref(paths)

    def condition(self, event):
        paths = [Path(p.base, p.derived, p.cons + (event,), p.logw)
            for p in self.paths]
        paths = [p for p in paths if p.mass() > 0]
        if not paths:
            raise ZeroProb()
        return Ref(paths)

    def constrain(self, assignment):
        (_degree, _lp, paths) = self._density(assignment)
        if not paths:
            raise ZeroProb()
        return Ref(paths)

    def branch(self, tests, bodies):
        """tests: events (or True last); bodies: functions on a Ref."""
        paths = []
        previous = []
        for test, body in zip(tests, bodies):
            evs = [['not', e] for e in previous]
            if test is not True:
                evs.append(test)
                previous.append(test)
            sub = [Path(p.base, p.derived, p.cons + tuple(evs), p.logw)
                for p in self.paths]
            sub = [p for p in sub if p.mass() > 0]
            if sub:
                paths.extend(body(Ref(sub)).paths)
        if not paths:
            raise ZeroProb()
        return Ref(paths)
