"""Models and queries whose answers need polynomial conditions to be solved."""

import math

from . import prog
from . import ref
from . import work
from .ref import Ref, RefError, ZeroProb

inf = math.inf

CONT = [
    lambda r: ['norm', {'loc': r.choice([0, 0, 1, -.5]), 'scale': r.choice([1, 2, .5])}],
    lambda r: ['uniform', {'loc': r.choice([-2, -1, 0, -3]), 'scale': r.choice([3, 4, 6])}],
    lambda r: ['laplace', {'loc': 0, 'scale': 1}],
    lambda r: ['expon', {'scale': r.choice([1, 2])}],
    lambda r: ['gamma', {'a': 2, 'scale': 1}],
]
DISC = [
    lambda r: ['poisson', {'mu': r.choice([1, 2.5])}],
    lambda r: ['binom', {'n': r.choice([4, 6]), 'p': .5}],
    lambda r: ['randint', {'low': -3, 'high': 5}],
    lambda r: ['uniformd', sorted(r.sample(range(-3, 6), 4))],
    lambda r: ['discrete', [[v, w] for v, w in zip(r.sample(range(-2, 6), 3),
        [.25, .25, .5])]],
    lambda r: ['atomic', r.choice([-1, 0, 1, 2])],
]

def expand(roots, lead):
    cs = [lead]
    for x in roots:
        # Multiply by (X - x).
        new = [0]*(len(cs) + 1)
        for i, c in enumerate(cs):
            new[i + 1] += c
            new[i] -= c*x
        cs = new
    return cs

class PolyGen():
    def __init__(self, rng, degrees=(1, 2, 2, 2, 3, 3, 4, 5), discrete=.4):
        self.r = rng
        self.degrees = degrees
        self.top = 0
        self.ref = Ref()
        self.stmts = []
        self.bases = {}         # base variable -> has atoms
        self.vals = {}          # likely values
        self.discrete = discrete
    def base(self, name):
        r = self.r
        u = r.random()
        if u < .15:
            comps = [r.choice(CONT)(r), r.choice(DISC)(r)]
            d = ['mix', [[.5, comps[0]], [.5, comps[1]]]]
        elif u < .15 + self.discrete:
            d = r.choice(DISC)(r)
        else:
            d = r.choice(CONT)(r)
        self.put(['sample', name, d])
        xs = []
        atoms = False
        for _w, c in ref.dist_components(d):
            if ref.dist_kind(c) == 'cont':
                f = ref.frozen(c)
                xs.extend(float(f.ppf(q)) for q in (.05, .25, .5, .75, .95))
            else:
                atoms = True
                xs.extend(v for v, p in ref.disc_atoms(c) if p > .02)
        self.bases[name] = atoms
        self.vals[name] = sorted(set(xs))
    def put(self, s):
        self.ref = prog.ref_exec(self.ref, [s])
        self.stmts.append(s)
    def poly(self, name):
        """A polynomial of a variable and its degree."""
        r = self.r
        d = r.choice(self.degrees)
        self.top = max(self.top, d)
        xs = self.vals[name]
        style = r.random()
        if d >= 6:
            # Distinct real roots, and some complex ones.
            n = r.choice([2, 3, 4])
            n += (d - n) % 2
            cs = expand(r.sample(range(-3, 5), n), r.choice([1, 1, -1]))
            for _ in range((d - n)//2):
                (new, c) = ([0]*(len(cs) + 2), r.choice([1, 2, 3]))
                for i, a in enumerate(cs):
                    new[i] += a*c
                    new[i + 2] += a
                cs = new
            return ['poly', ['v', name], cs]
        if r.random() < .75:
            # Integers: SymPy solves it.
            return ['poly', ['v', name], self.integers(d, xs, style)]
        if style < .5:
            # With some rational roots, which may repeat.
            roots = [r.choice([-2, -1, 0, 1, 2, 3, .5, r.choice(xs)]) for _ in range(d)]
            roots = [round(x*2)/2 for x in roots]
            roots = [int(x) if x == int(x) else x for x in roots]
            if d > 1 and r.random() < .4:
                roots[1] = roots[0]
            if d > 2 and r.random() < .5:
                # Two of them irrational or complex.
                cs = expand(roots[:-2], r.choice([1, 1, -1, 2, .5]))
                q = [r.choice([-2, -1, 1, 2, -3]), r.choice([0, 0, 1, -1]), 1]
                new = [0]*(len(cs) + 2)
                for i, a in enumerate(cs):
                    for j, b in enumerate(q):
                        new[i + j] += a*b
                cs = new
            else:
                cs = expand(roots, r.choice([1, 1, -1, 2, .5]))
        else:
            cs = [round(r.uniform(-3, 3)*4)/4 for _ in range(d)]
            if r.random() < .4:
                cs = [c if r.random() < .5 else 0 for c in cs]
            cs = cs + [r.choice([1, 1, -1, 2, .5, -.25])]
        cs = [int(c) if c == int(c) else c for c in cs]
        return ['poly', ['v', name], cs]
    def integers(self, d, xs, style):
        r = self.r
        lead = r.choice([1, 1, 1, -1, 2, -2, 3])
        if style < .6:
            roots = [r.choice([-2, -1, 0, 1, 2, 3, 4, int(r.choice(xs))])
                for _ in range(d)]
            if d > 1 and r.random() < .5:
                roots[1] = roots[0]
            cs = expand(roots, lead)
            if r.random() < .5:
                cs[0] += r.randint(-5, 5)
            return cs
        cs = [r.randint(-5, 5) for _ in range(d)]
        if r.random() < .4:
            cs = [c if r.random() < .5 else 0 for c in cs]
        return cs + [lead]
    def at(self, e, name):
        """A threshold for an expression."""
        r = self.r
        x = r.choice(self.vals[name])
        y = ref.eval_expr(e, lambda _n: x)
        whole = e[0] == 'poly' and all(isinstance(c, int) for c in e[2])
        if whole and r.random() < .8:
            if r.random() < .5:
                # Where it is flat, perhaps.
                y = ref.eval_expr(e, lambda _n: round(x))
            y = round(y) + r.choice([0, 0, 0, 1, -1])
            ys = [ref.eval_expr(e, lambda _n, v=v: v) for v in self.vals[name]]
            if not any(0 < abs(y - z) < 1e-3 for z in ys):
                return y
        if self.bases[name]:
            # Exactly at an atom, or clearly between.
            if x == int(x) and r.random() < .5 and y == round(y*64)/64:
                return int(y) if y == int(y) else y
            y = round(y*2)/2 + .25 + 1/32
        else:
            y = round(y*4)/4
            if r.random() < .2:
                y = r.choice([0, 1, -1, 2])
        ys = [ref.eval_expr(e, lambda _n, v=v: v) for v in self.vals[name]]
        if any(0 < abs(y - z) < 1e-3 for z in ys):
            y += 1/16
        return int(y) if y == int(y) else y
    def leaf(self, name=None, plain=False):
        r = self.r
        name = name or r.choice(sorted(self.bases))
        e = ['v', name] if plain else self.poly(name)
        u = r.random()
        if u < .12:
            vals = sorted(set(self.at(e, name) for _ in range(r.choice([1, 1, 2, 3]))))
            return ['in' if r.random() < .7 else 'notin', e, vals]
        if u < .3:
            (a, b) = sorted([self.at(e, name), self.at(e, name)])
            if a < b:
                return ['range', a, r.random() < .5, e, b, r.random() < .5]
        return ['cmp', e, r.choice(['<', '<=', '>', '>=']), self.at(e, name)]
    def event(self):
        r = self.r
        ev = self.leaf()
        if r.random() < .35:
            ev = [r.choice(['and', 'or']), ev, self.leaf(plain=r.random() < .6)]
        return ['not', ev] if r.random() < .12 else ev
    def likely(self, lo=.03, hi=.995, tries=8):
        top = self.top
        for _ in range(tries):
            self.top = top
            ev = self.event()
            try:
                if lo <= self.ref.prob(ev) <= hi:
                    return ev
            except (RefError, ZeroProb):
                pass
        self.top = top
        return None
    def program(self, n=(1, 2)):
        r = self.r
        for i in range(r.randint(*n)):
            self.base('X%d' % (i + 1,))
        u = r.random()
        if u < .2:
            ev = self.likely()
            if ev:
                self.put(['condition', ev])
        elif u < .4:
            ev = self.likely(.05, .95)
            if ev:
                self.put(['if', [[ev, [['sample', 'W', ['choice', [['a', .25],
                    ['b', .75]]]]]], [True, [['sample', 'W', ['choice', [['a', .5],
                    ['b', .5]]]]]]]])
        elif u < .6:
            name = r.choice(sorted(self.bases))
            e = self.poly(name)
            self.put(['transform', 'Z', e])
            self.derived = ('Z', e, name)
        return {'arrays': {}, 'stmts': list(self.stmts)}
    def query(self):
        r = self.r
        u = r.random()
        try:
            if u < .2 and getattr(self, 'derived', None):
                (z, e, name) = self.derived
                return ['prob', ['cmp', ['v', z], r.choice(['<', '<=', '>', '>=']),
                    self.at(e, name)]]
            if u < .6:
                return ['prob', self.event()]
            if u < .85:
                ev = self.likely(.05)
                if ev:
                    return ['cond', ev, self.leaf(plain=r.random() < .7)]
            if u < .9:
                (a, b) = (self.likely(), self.likely())
                if a and b:
                    return ['mi', a, b]
            return ['set', self.leaf(), self.points()]
        except (RefError, ZeroProb):
            return ['prob', self.event()]
    def points(self):
        r = self.r
        return sorted(set([r.choice([-2, -1, 0, 1, 2, 3, .5, -.5]) for _ in range(4)]
            + [round(r.uniform(-4, 4), 2) for _ in range(4)]))

def expected(state, q):
    """Reference answer; None where it says nothing."""
    try:
        if q[0] == 'set':
            leaf = q[1]
            out = []
            for x in q[2]:
                y = ref.eval_expr(ref.leaf_expr(leaf), lambda _n: float(x))
                near = any(0 < abs(y - t) < 1e-6*(1 + abs(t))
                    for t in ref.leaf_points(leaf))
                out.append(None if near else ref.leaf_true(leaf, y))
            return out
        return prog.ref_answer(state, q)
    except (RefError, KeyError):
        return None
    except ZeroProb:
        return 'zero'

def answer(A, model, q, ns):
    if q[0] == 'set':
        s = A.event(q[1], ns).solve()
        return [bool(x in s) for x in q[2]]
    return A.answer(model, q, ns)

def agrees(got, exp):
    """Whether an answer (from attempt) is the expected one."""
    from . import api
    if exp is None:
        return True
    if exp == 'zero':
        return got[0] == 'error' and got[1] != 'TimeoutError'
    if got[0] != 'ok':
        return False
    if isinstance(exp, list):
        return all(e is None or bool(e) == g for e, g in zip(exp, got[1]))
    return api.close(float(got[1]), exp, 2e-6, 2e-7)

def warm():
    """A fixed workload that warms the polynomial solvers."""
    import os
    import random
    from sympy.core.cache import clear_cache
    from . import seams
    A = work.get_api()
    r = random.Random(7)
    for off in (True,)*8 + (False,)*2:
        if off:
            os.environ['SPPL_NO_SYMBOLIC'] = '1'
        try:
            g = PolyGen(r, degrees=(2, 3, 4, 5) if off else (1, 2, 2, 3))
            p = g.program((1, 1))
            ns = work.namespace(p)
            m = work.tolerant(A.run, p, ns)
            for _ in range(3 if m is not None else 0):
                try:
                    answer(A, m, g.query(), ns)
                except Exception:
                    pass
        finally:
            os.environ.pop('SPPL_NO_SYMBOLIC', None)
    clear_cache()
