"""Programs as JSON values: rendering to SPPL source and to commands, expansion
for the reference, and seeded generation of valid programs and queries.

Expressions  ['v',X] ['poly',e,[c0,c1,..]] ['abs',e] ['exp',e] ['expb',b,e]
             ['log',e] ['sqrt',e] ['recip',e] ['pw',[[e,event],..]]
Events       ['cmp',e,op,c] ['range',lo,strict,e,hi,strict] ['in',e,[..]]
             ['notin',e,[..]] ['and',..] ['or',..] ['not',ev]
Distributions [scipy name,{kwds}] ['choice',[[s,w],..]] ['discrete',[[v,w],..]]
             ['uniformd',[..]] ['atomic',v] ['mix',[[w,dist],..]]
Statements   ['sample',X,dist] ['transform',X,e] ['condition',ev]
             ['constrain',[[X,v],..]] ['if',[[ev|True,[stmts]],..]]
             ['switch',X,values,[stmts],enumerated] ['for',n0,n1,[stmts]]
In the body of for, names may contain [i] and [i-1]; in the bodies of for and
switch, numbers in distributions may be ['tab',[one per case]].
"""

import math

from . import ref
from .ref import Ref
from .ref import RefError
from .ref import ZeroProb

inf = math.inf

# ----------------------------------------------------------------------------
# Rendering.

def num(x):
    return repr(x)

def is_pow2(c):
    return c != 0 and math.frexp(c)[0] in (.5, -.5)

def is_xor(ev):
    return ev[0] == 'or' and len(ev) == 3 and ev[1][0] == ev[2][0] == 'and' \
        and len(ev[1]) == len(ev[2]) == 3 \
        and ev[1][2] == ['not', ev[2][2]] and ev[2][1] == ['not', ev[1][1]]

class Renderer():
    """Render to program text, as source or as commands."""
    def __init__(self, mode='cmd', style=0):
        self.mode = mode
        self.style = style
        self.count = 0
        self.tables = []        # constants: (name, text)
        self.case = None        # name used to index tables

    def pick(self, n):
        # Deterministic variation of equivalent spellings.
        self.count += 1
        return (self.style*7919 + self.count*104729 >> 3) % n

    def expr(self, e):
        t = e[0]
        if t == 'v':
            return e[1]
        if t == 'poly':
            s = '(%s)' % (self.expr(e[1]),) if e[1][0] != 'v' else e[1][1]
            terms = []
            cs = {i: c for i, c in enumerate(e[2]) if c != 0}
            i = max(cs, default=0)
            x = s if i == 1 else '%s**%d' % (s, i)
            if i and len(cs) == 1 and abs(cs[i]) < 1 and is_pow2(cs[i]) \
                    and self.pick(2):
                return '%s/%d' % (x, round(1/cs[i]))
            if i and len(cs) == 1 and cs[i] == -1 and self.pick(2):
                return '-(%s)' % (x,)
            if i and len(cs) == 2 and 0 in cs and self.pick(2):
                if cs[i] == -1:
                    return '%s - %s' % (num(cs[0]), x)
                if cs[0] < 0:
                    return '(%s)*%s - %s' % (num(cs[i]), x, num(-cs[0]))
            for i, c in enumerate(e[2]):
                if c == 0:
                    continue
                x = None if i == 0 else s if i == 1 else '%s**%d' % (s, i)
                if x is None:
                    terms.append(num(c))
                elif c == 1:
                    terms.append(x)
                else:
                    terms.append('(%s)*%s' % (num(c), x))
            if len(terms) > 1 and self.pick(2):
                terms = terms[1:] + terms[:1]
            return ' + '.join(terms)
        if t == 'pw':
            return ' + '.join('(%s)*(%s)' % (self.expr(sub), self.event(ev))
                if self.pick(2) else '(%s)*(%s)' % (self.event(ev), self.expr(sub))
                for sub, ev in e[1])
        if t == 'recip' and self.pick(2):
            x = e[1]
            if x[0] == 'sqrt':
                return '(%s)**(-1, 2)' % (self.expr(x[1]),)
            if x[0] == 'poly' and sum(c != 0 for c in x[2]) == 1 and x[2][-1] == 1:
                return '(%s)**(%d)' % (self.expr(x[1]), 1 - len(x[2]))
            return '(%s)**(-1)' % (self.expr(x),)
        s = self.expr(e[2] if t == 'expb' else e[1])
        return {
            'abs'   : 'abs(%s)' % (s,),
            'exp'   : 'Exp(%s)' % (s,),
            'expb'  : '%s**(%s)' % (num(e[1]), s),
            'log'   : 'Log(%s)' % (s,),
            'sqrt'  : ['Sqrt(%s)', '(%s)**(1, 2)'][self.pick(2)] % (s,),
            'recip' : '1/(%s)' % (s,),
        }[t]

    def values(self, vs):
        return '{%s}' % (', '.join(repr(v) for v in vs),)

    def event(self, ev, top=False):
        t = ev[0]
        if is_xor(ev) and self.pick(4):
            return '(%s) ^ (%s)' % (self.event(ev[1][1]), self.event(ev[2][2]))
        if t in ('and', 'or'):
            op = ' & ' if t == 'and' else ' | '
            return op.join('(%s)' % (self.event(x),) for x in ev[1:])
        if t == 'not':
            return '~(%s)' % (self.event(ev[1]),)
        e = ref.leaf_expr(ev)
        s = self.expr(e) if e[0] == 'v' else '(%s)' % (self.expr(e),)
        if t == 'cmp':
            if self.pick(4) == 0:
                flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
                return '%s %s %s' % (num(ev[3]), flip[ev[2]], s)
            return '%s %s %s' % (s, ev[2], num(ev[3]))
        if t == 'range' and self.pick(3) == 0:
            return '%s %s (%s %s %s)' % (num(ev[1]), '<' if ev[2] else '<=',
                s, '<' if ev[5] else '<=', num(ev[4]))
        if t == 'range':
            return '(%s %s %s) %s %s' % (num(ev[1]), '<' if ev[2] else '<=',
                s, '<' if ev[5] else '<=', num(ev[4]))
        if self.mode == 'src':
            if len(ev[2]) == 1 and self.pick(2):
                return '%s %s %r' % (s, '==' if t == 'in' else '!=', ev[2][0])
            return '%s %s %s' % (s, 'in' if t == 'in' else 'not in',
                self.values(ev[2]))
        r = '%s << %s' % (s, self.values(ev[2]))
        return r if t == 'in' else '~(%s)' % (r,)

    def param(self, x):
        if isinstance(x, list) and x and x[0] == 'tab':
            name = 'T%d' % (len(self.tables),)
            if isinstance(self.case, tuple):
                (idx, keys) = self.case
                text = '{%s}' % (', '.join('%r: %s' % (k, num(v))
                    for k, v in zip(keys, x[1])))
            else:
                idx = self.case
                text = '[%s]' % (', '.join(num(v) for v in x[1]),)
            self.tables.append((name, text))
            return '%s[%s]' % (name, idx)
        return num(x)

    def dist(self, d):
        t = d[0]
        if t == 'mix':
            return ' | '.join('%s*%s' % (num(w), self.dist(c)) for w, c in d[1])
        if t == 'choice':
            return 'choice({%s})' % (', '.join('%r: %s' % (v, self.param(w))
                for v, w in d[1]),)
        if t == 'discrete':
            return 'discrete({%s})' % (', '.join('%r: %s' % (v, self.param(w))
                for v, w in d[1]),)
        if t == 'uniformd':
            return 'uniformd(values=(%s,))' % (', '.join(num(v) for v in d[1]),)
        if t == 'atomic':
            return 'atomic(loc=%s)' % (self.param(d[1]),)
        return '%s(%s)' % (t, ', '.join('%s=%s' % (k, self.param(v))
            for k, v in sorted(d[1].items())))

    def switch_value(self, v):
        if isinstance(v, list) and v[0] == 'set':
            return '%s(%s)' % ('FiniteNominal' if isinstance(v[1][0], str)
                else 'FiniteReal', ', '.join(repr(x) for x in v[1]))
        if isinstance(v, list):
            (_iv, lo, hi, lo_open, hi_open) = v
            return 'Interval(%s, %s, left_open=%s, right_open=%s)' \
                % (num(lo), num(hi), lo_open, hi_open)
        return repr(v)

    # Source.
    def source(self, program):
        self.mode = 'src'
        lines = []
        for s in program['stmts']:
            self.src_stmt(s, 0, lines)
        head = ['from sppl.transforms import Exp, Log, Sqrt',
            'from sppl.sets import FiniteNominal, FiniteReal, Interval']
        head += ['inf = float(\'inf\')']
        head += ['%s = %s' % c for c in self.tables]
        for name, n in sorted(program.get('arrays', {}).items()):
            head.append('%s = array(%d)' % (name, n))
        return '\n'.join(head + lines) + '\n'

    def src_stmt(self, s, depth, out):
        pad = '    '*depth
        t = s[0]
        eq = '=' if self.pick(5) == 0 else '~='
        if t == 'sample':
            out.append('%s%s %s %s' % (pad, s[1], eq, self.dist(s[2])))
        elif t == 'transform':
            out.append('%s%s %s %s' % (pad, s[1], eq, self.expr(s[2])))
        elif t == 'condition':
            out.append('%scondition(%s)' % (pad, self.event(s[1])))
        elif t == 'constrain':
            out.append('%sconstrain({%s})' % (pad,
                ', '.join('%s: %r' % (v, x) for v, x in s[1])))
        elif t == 'if':
            simple = all(len(b) == 1 and b[0][0] == 'sample'
                and b[0][1] == s[1][0][1][0][1] for _t, b in s[1])
            if simple and s[1][-1][0] is True and self.pick(3) == 0 \
                    and not any(b[0][2][0] == 'mix' for _t, b in s[1]):
                parts = []
                for test, body in s[1]:
                    d = self.dist(body[0][2])
                    parts.append(d if test is True
                        else '%s if (%s) else' % (d, self.event(test)))
                out.append('%s%s %s %s' % (pad, s[1][0][1][0][1], eq, ' '.join(parts)))
                return
            for i, (test, body) in enumerate(s[1]):
                if test is True:
                    out.append('%selse:' % (pad,))
                else:
                    out.append('%s%s %s:' % (pad, 'elif' if i else 'if',
                        self.event(test)))
                for b in body:
                    self.src_stmt(b, depth + 1, out)
        elif t == 'switch':
            (_t, var, values, body, enumerated) = s
            vals = '[%s]' % (', '.join(self.switch_value(v) for v in values),)
            save = self.case
            if enumerated:
                out.append('%sswitch (%s) cases (k, c in enumerate(%s)):'
                    % (pad, var, vals))
                self.case = 'k'
            else:
                out.append('%sswitch (%s) cases (c in %s):' % (pad, var, vals))
                self.case = ('c', values)
            for b in body:
                self.src_stmt(b, depth + 1, out)
            self.case = save
        elif t == 'for':
            out.append('%sfor i in range(%d, %d):' % (pad, s[1], s[2])
                if s[1] else '%sfor i in range(%d):' % (pad, s[2]))
            save = self.case
            self.case = 'i'
            for b in s[3]:
                self.src_stmt(b, depth + 1, out)
            self.case = save
        else:
            raise ValueError(s)

    # Commands: expressions to evaluate where the names of SPPL are defined.
    def command(self, s):
        t = s[0]
        if t == 'sample':
            return 'Sample(%s, %s)' % (s[1], self.dist(s[2]))
        if t == 'transform':
            return 'Transform(%s, %s)' % (s[1], self.expr(s[2]))
        if t == 'condition':
            return 'Condition(%s)' % (self.event(s[1]),)
        if t == 'constrain':
            return 'Constrain({%s})' % (', '.join('%s: %r' % (v, x)
                for v, x in s[1]),)
        if t == 'if':
            return 'IfElse(%s)' % (', '.join('%s, %s' % (
                'True' if test is True else self.event(test), self.block(body))
                for test, body in s[1]),)
        if t == 'switch':
            (_t, var, values, body, enumerated) = s
            vals = '[%s]' % (', '.join(self.switch_value(v) for v in values),)
            save = self.case
            self.case = 'k' if enumerated else ('c', values)
            r = 'Switch(%s, %s, lambda %s: %s)' % (var,
                'enumerate(%s)' % (vals,) if enumerated else vals,
                'k, c' if enumerated else 'c', self.block(body))
            self.case = save
            return r
        if t == 'for':
            save = self.case
            self.case = 'i'
            r = 'For(%d, %d, lambda i: %s)' % (s[1], s[2], self.block(s[3]))
            self.case = save
            return r
        raise ValueError(s)

    def block(self, body):
        return 'Sequence(%s)' % (', '.join(self.command(b) for b in body),)

def stmt_command(stmt, style=0):
    """(constants, text) of one statement as a command."""
    r = Renderer('cmd', style)
    text = r.command(stmt)
    return (r.tables, text)

def event_text(ev, style=0):
    return Renderer('cmd', style).event(ev)

def program_source(program, style=0):
    return Renderer('src', style).source(program)

# ----------------------------------------------------------------------------
# Expansion and execution by the reference.

def subst(x, i, case):
    """Replace loop indexes in names and tables in numbers."""
    if isinstance(x, str):
        if i is not None and '[i' in x:
            return x.replace('[i]', '[%d]' % (i,)) \
                .replace('[i-1]', '[%d]' % (i - 1,))
        return x
    if isinstance(x, dict):
        return {k: subst(v, i, case) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and x[0] == 'tab' and isinstance(x[1], list):
            return x[1][case]
        return [subst(v, i, case) for v in x]
    return x

def norm_dist(d):
    if d[0] == 'mix':
        return ['mix', [[w, norm_dist(c)] for w, c in d[1]]]
    return d

def ref_exec(r, stmts):
    for s in stmts:
        r = ref_stmt(r, s)
    return r

def ref_stmt(r, s):
    t = s[0]
    if t == 'sample':
        return r.sample(s[1], norm_dist(s[2]))
    if t == 'transform':
        return r.transform(s[1], s[2])
    if t == 'condition':
        return r.condition(s[1])
    if t == 'constrain':
        return r.constrain({v: x for v, x in s[1]})
    if t == 'if':
        return r.branch([test for test, _b in s[1]],
            [lambda q, b=body: ref_exec(q, b) for _t, body in s[1]])
    if t == 'switch':
        (_t, var, values, body, _e) = s
        tests = [value_event(var, v) for v in values]
        return r.branch(tests, [
            lambda q, k=k: ref_exec(q, subst(body, None, k))
            for k in range(len(values))])
    if t == 'for':
        for i in range(s[1], s[2]):
            r = ref_exec(r, subst(s[3], i, i))
        return r
    raise ValueError(s)

def value_event(var, v):
    if isinstance(v, list) and v[0] == 'set':
        return ['in', ['v', var], v[1]]
    if isinstance(v, list):
        (_iv, lo, hi, lo_open, hi_open) = v
        return ['range', lo, lo_open, ['v', var], hi, hi_open]
    return ['in', ['v', var], [v]]

def stmt_targets(s):
    """Variables that a statement defines."""
    if s[0] in ('sample', 'transform'):
        return [s[1]]
    if s[0] == 'if':
        return [v for b in s[1][0][1] for v in stmt_targets(b)]
    if s[0] == 'switch':
        return [v for b in s[3] for v in stmt_targets(b)]
    if s[0] == 'for':
        return [subst(v, i, None) for i in range(s[1], s[2])
            for b in s[3] for v in stmt_targets(b)]
    return []

# ----------------------------------------------------------------------------
# Generation.

DEFAULTS = dict(
    stmts=(2, 6),           # number of statements
    max_base=5,
    p_transform=0.2,        # weight of statements
    p_condition=0.25,
    p_constrain=0.08,
    p_if=0.25,
    p_nest=0.3,            # ifs within ifs
    p_switch=0.12,
    p_for=0.06,
    p_mix=0.25,
    p_poly=0.12,            # chance for a predicate to be on a polynomial
    p_func=0.12,            # chance for a predicate to be on another transform
    max_degree=3,
    p_nominal=0.3,
    p_discrete=0.3,
    p_failing=0.0,          # statements that must fail
    max_paths=24,
    solves=4,               # budget of polynomial predicates
    min_prob=0.01,
    p_tiny=0.12,            # one of the weights is very small
    p_far=0.03,             # thresholds far out
    p_rare=0.08,            # conditions that are very improbable
)

LETTERS = ['a', 'b', 'c', 'd']

class Var():
    def __init__(self, kind, lo, hi, probes, base, vals=None, exact=True, depth=0,
            atoms=False):
        self.kind = kind        # 'real' or 'nom'
        self.lo = lo
        self.hi = hi
        self.probes = probes
        self.base = base
        self.vals = vals
        self.exact = exact      # atoms are computed exactly by everyone
        self.depth = depth
        self.atoms = atoms      # has atoms

class Gen():
    def __init__(self, rng, **opts):
        self.rng = rng
        self.o = dict(DEFAULTS)
        self.o.update(opts)
        self.ref = Ref()
        self.vars = {}
        self.stmts = []
        self.arrays = {}
        self.solves = self.o['solves']
        self.nnames = 0

    # Helpers.
    def chance(self, p):
        return self.rng.random() < p

    def fresh(self):
        self.nnames += 1
        stem = self.rng.choice(['X', 'Y', 'Z', 'GPA', 'W', 'n', 'height'])
        return '%s%d' % (stem, self.nnames)

    def quarter(self, lo, hi):
        x = round(self.rng.uniform(lo, hi)*4)/4
        return int(x) if x == int(x) and self.chance(.7) else x

    # Distributions.
    def gen_dist(self, kind=None, mix=True):
        r = self.rng
        if kind is None:
            u = r.random()
            kind = 'nom' if u < self.o['p_nominal'] \
                else 'disc' if u < self.o['p_nominal'] + self.o['p_discrete'] \
                else 'cont'
        if mix and self.chance(self.o['p_mix']):
            n = r.choice([2, 2, 3])
            ws = [r.randint(1, 6) for _ in range(n)]
            # Weights in powers of two add to one exactly.
            ws = {2: r.choice([[.5, .5], [.25, .75], [.125, .875]]),
                3: r.choice([[.25, .25, .5], [.125, .375, .5]])}[n]
            if self.chance(self.o['p_tiny']/2):
                tiny = 2.**-r.choice([12, 15, 18, 30])
                ws = [ws[0] + ws[-1] - tiny] + ws[1:-1] + [tiny]
            ks = [kind]*n
            if kind != 'nom' and self.chance(.3):
                ks[-1] = 'disc' if kind == 'cont' else 'cont'
            return ['mix', [[w, self.gen_dist(k, False)] for w, k in zip(ws, ks)]]
        if kind == 'nom':
            vals = r.sample(LETTERS, r.choice([2, 2, 3, 3, 4]))
            cuts = sorted(r.sample(range(1, 20), len(vals) - 1))
            ws = [b - a for a, b in zip([0] + cuts, cuts + [20])]
            if self.chance(self.o['p_tiny']):
                # Nearly certain: all but a small part of the weight.
                tiny = 2.**-r.choice([12, 15, 18, 20, 22, 24, 30, 36, 44])
                ws = {2: [1, 0], 3: [.25, .75, 0], 4: [.25, .5, .25, 0]}[len(vals)]
                ws[0] -= tiny
                ws[-1] += tiny
                return ['choice', [[v, w] for v, w in zip(vals, ws)]]
            return ['choice', [[v, w/20] for v, w in zip(vals, ws)]]
        if kind == 'disc':
            return r.choice([
                lambda: ['poisson', {'mu': r.choice([.5, 1, 2.5, 4])}],
                lambda: ['binom', {'n': r.choice([2, 4, 7]), 'p': r.choice([.2, .5, .75])}],
                lambda: ['geom', {'p': r.choice([.25, .5, .75])}],
                lambda: ['bernoulli', {'p': r.choice([.125, .5, .8])}],
                lambda: ['randint', {'low': r.choice([-2, 0, 1]), 'high': r.choice([3, 5, 8])}],
                lambda: ['uniformd', sorted(r.sample(range(-3, 8), r.choice([2, 3, 4])))],
                lambda: ['discrete', [[v, w] for v, w in zip(
                    r.sample(range(-2, 7), 3), r.choice([[.25, .25, .5], [.125, .5, .375]]))]],
                lambda: ['atomic', r.choice([-1, 0, 2, 3])],
            ])()
        return r.choice([
            lambda: ['norm', {'loc': self.quarter(-2, 3), 'scale': r.choice([.5, 1, 2, 3])}],
            lambda: ['norm', {'loc': 0, 'scale': 1}],
            lambda: ['uniform', {'loc': self.quarter(-2, 2), 'scale': r.choice([1, 2, 4.5])}],
            lambda: ['uniform', {'loc': 0, 'scale': 1}],
            lambda: ['expon', {'scale': r.choice([.5, 1, 3])}],
            lambda: ['gamma', {'a': r.choice([1, 2, 3.5]), 'scale': r.choice([.5, 1, 2])}],
            lambda: ['beta', {'a': r.choice([1, 2, 3]), 'b': r.choice([1, 2, 4])}],
            lambda: ['beta', {'a': 2, 'b': 3, 'scale': r.choice([2, 10])}],
            lambda: ['laplace', {'loc': self.quarter(-1, 1), 'scale': 1}],
            lambda: ['logistic', {'loc': 0, 'scale': r.choice([.5, 1])}],
            lambda: ['expon', {'loc': self.quarter(-1, 2), 'scale': 2}],
        ])()

    def dist_var(self, d):
        """Description of a variable with distribution d."""
        comps = [c for _w, c in ref.dist_components(d)]
        kinds = set(ref.dist_kind(c) for c in comps)
        if kinds == {'nom'}:
            vals = sorted(set(v for c in comps for v, _w in c[1]))
            return Var('nom', None, None, [], True, vals)
        (lo, hi, probes) = (inf, -inf, [])
        for c in comps:
            if ref.dist_kind(c) == 'cont':
                (a, b) = ref.cont_bounds(c)
                f = ref.frozen(c)
                probes.extend(float(f.ppf(q)) for q in (.02, .2, .4, .6, .8, .98))
            else:
                xs = [v for v, p in ref.disc_atoms(c)]
                big = [v for v, p in ref.disc_atoms(c) if p > .01]
                (a, b) = (min(xs), max(xs))
                probes.extend(big)
            lo = min(lo, a)
            hi = max(hi, b)
        return Var('real', lo, hi, sorted(set(probes)), True, atoms='disc' in kinds)

    def merge_vars(self, vs):
        """Description of a variable defined differently in branches."""
        if all(v.kind == 'nom' for v in vs):
            return Var('nom', None, None, [], all(v.base for v in vs),
                sorted(set(x for v in vs for x in v.vals)))
        assert all(v.kind == 'real' for v in vs)
        return Var('real', min(v.lo for v in vs), max(v.hi for v in vs),
            sorted(set(x for v in vs for x in v.probes)),
            all(v.base for v in vs), exact=all(v.exact for v in vs),
            depth=max(v.depth for v in vs), atoms=any(v.atoms for v in vs))

    # Expressions.
    def gen_expr(self, name, must=False):
        """A transform of a variable: (expr, description)."""
        v = self.vars[name]
        e = ['v', name]
        (lo, hi, exact) = (v.lo, v.hi, v.exact)
        r = self.rng
        options = ['poly1', 'poly1', 'poly2', 'abs', 'expb', 'exp', 'recip', 'pw']
        if self.o['max_degree'] > 2:
            options.append('poly3')
        if lo > 0 or (lo >= 0 and not v.atoms):
            options += ['sqrt', 'log', 'sqrt']
        if lo < 0 or hi > 12 or v.depth:
            options = [o for o in options if o not in ('exp',)]
        if v.atoms and lo <= 0 <= hi:
            options = [o for o in options if o not in ('recip',)]
        if v.depth:
            options = [o for o in options if o not in ('poly2', 'poly3', 'pw')]
        if v.probes and max(abs(x) for x in v.probes) > 40:
            options = [o for o in options if o not in ('expb', 'exp', 'poly3')]
        t = r.choice(options)
        if t.startswith('poly'):
            k = int(t[4])
            cs = [self.quarter(-3, 3) for _ in range(k)] + [r.choice([1, 1, -1, 2, .5])]
            if k == 1 and cs == [0, 1]:
                cs = [1, 2]
            e = ['poly', e, cs]
            if r.random() < .1 and k == 1:
                e = ['abs', e]
        elif t == 'abs':
            e = ['abs', e]
        elif t == 'exp':
            (e, exact) = (['exp', e], False)
        elif t == 'expb':
            (e, exact) = (['expb', r.choice([2, 3]), e], False)
        elif t == 'log':
            (e, exact) = (['log', e], False)
        elif t == 'sqrt':
            e = ['sqrt', e]   # the square roots of squares are exact
        elif t == 'recip':
            (e, exact) = (['recip', e], False)
        elif t == 'pw':
            c = self.threshold(v)
            (e1, e2) = r.choice([
                (['poly', e, [0, -1]], ['v', name]),
                (['abs', e], ['poly', e, [1, 2]]),
                (['v', name], ['poly', e, [self.quarter(-2, 2), .5]]),
            ])
            e = ['pw', [[e1, ['cmp', ['v', name], '<', c]],
                        [e2, ['cmp', ['v', name], '>=', c]]]]
        look = lambda x: (lambda _n: x)
        probes = sorted(set(y for y in (ref.eval_expr(e, look(x)) for x in v.probes)
            if not isinstance(y, str) and math.isfinite(y)))
        if not probes:
            return None
        # Range of the transform, from a grid of the support.
        grid = list(v.probes)
        for x in (lo, hi):
            if math.isfinite(x):
                grid.append(x)
        (a, b) = (-inf, inf)
        if t in ('expb', 'exp'):
            (a, b) = (0, inf)
        if t in ('abs', 'sqrt'):
            a = 0
        if t == 'recip' and lo >= 0:
            a = 0
        return (e, Var('real', a, b, probes, False, exact=exact, depth=v.depth + 1,
            atoms=v.atoms))

    # Events.
    def threshold(self, v):
        r = self.rng
        ps = v.probes
        if len(ps) == 1:
            x = ps[0] + r.choice([-1, 0, 0, 1])*r.choice([.5, 1])
        elif self.chance(self.o['p_far']):
            # All but a small part of the probability on one side.
            d = r.choice([.4, .7, 1])*(ps[-1] - ps[0])
            x = r.choice([ps[0] - d, ps[-1] + d])
        else:
            i = r.randrange(len(ps) - 1)
            x = r.uniform(ps[i], ps[i + 1])
        if v.atoms and not v.exact:
            # Not on an atom, whose image is computed in floating point.
            x = round(x*8)/8 + .0625 + 1/512
            if any(abs(x - p) < 1e-3 for p in ps):
                x += 1/64
            return x
        if v.atoms and r.random() < .6:
            return int(round(x))
        spread = ps[-1] - ps[0] if len(ps) > 1 else 1
        step = 4 if spread > 1.5 else 16
        x = round(x*step)/step
        return int(x) if x == int(x) else x

    def gen_leaf(self, names, plain=False):
        r = self.rng
        name = r.choice(names)
        v = self.vars[name]
        if v.kind == 'nom':
            n = r.randint(1, max(1, len(v.vals) - 1))
            vals = r.sample(v.vals, n)
            if r.random() < .08:
                vals.append('zz')
            return ['in' if r.random() < .7 else 'notin', ['v', name], vals]
        e = ['v', name]
        if not plain:
            u = r.random()
            if u < self.o['p_poly'] and self.solves > 0 and v.depth < 2:
                k = r.choice([1, 2, 2, self.o['max_degree']])
                cs = [self.quarter(-3, 3) for _ in range(k)] + [r.choice([1, 1, -1, 2, .5])]
                e = ['poly', e, cs]
                probes = sorted(set(ref.eval_expr(e, lambda _n, x=x: x) for x in v.probes))
                v = Var('real', -inf, inf, probes, False, exact=v.exact,
                    depth=v.depth + 1, atoms=v.atoms)
                self.solves -= 1
            elif u < self.o['p_poly'] + self.o['p_func'] and self.solves > 0:
                got = self.gen_expr(name)
                if got:
                    (e, v) = got
                    self.solves -= 1
        if v.atoms and v.exact and r.random() < .35:
            ints = [int(x) for x in v.probes if x == int(x)] or [0]
            vals = sorted(set(r.choice(ints) for _ in range(r.choice([1, 2, 3]))))
            return ['in' if r.random() < .7 else 'notin', e, vals]
        if r.random() < .25:
            (a, b) = (self.threshold(v), self.threshold(v))
            if a > b:
                (a, b) = (b, a)
            if a < b:
                return ['range', a, r.random() < .5, e, b, r.random() < .5]
        return ['cmp', e, r.choice(['<', '<=', '>', '>=']), self.threshold(v)]

    def gen_event(self, names=None, n=None, plain=False):
        r = self.rng
        names = names or sorted(self.vars)
        n = n or r.choice([1, 1, 2, 2, 3])
        if n == 1:
            leaf = self.gen_leaf(names, plain)
            return ['not', leaf] if r.random() < .1 else leaf
        if n == 2 and r.random() < .08:
            # Exclusive or, cf. is_xor.
            a = self.gen_leaf(names, True)
            b = self.gen_leaf(names, True)
            return ['or', ['and', a, ['not', b]], ['and', ['not', a], b]]
        k = r.randint(1, n - 1)
        ev = [r.choice(['and', 'or', 'and']), self.gen_event(names, k, plain),
            self.gen_event(names, n - k, plain)]
        return ['not', ev] if r.random() < .1 else ev

    def likely_event(self, lo=None, hi=1., tries=12, state=None, **kw):
        """An event with probability in [lo, hi], or None."""
        lo = self.o['min_prob'] if lo is None else lo
        save = self.solves
        for _ in range(tries):
            self.solves = save
            ev = self.gen_event(**kw)
            p = (state or self.ref).prob(ev)
            if lo <= p <= hi:
                return ev
        return None

    def rare_event(self, state=None):
        """An event of very small probability that is computed accurately: a
        nominal value, or far to the left, or a short interval."""
        r = self.rng
        state = state or self.ref
        names = sorted(n for n, v in self.vars.items() if v.base)
        for _ in range(6 if names else 0):
            name = r.choice(names)
            v = self.vars[name]
            if v.kind == 'nom':
                ps = [state.prob(['in', ['v', name], [x]]) for x in v.vals]
                vals = [x for x, p in zip(v.vals, ps) if 0 < p < 1e-3]
                if not vals:
                    continue
                ev = ['in', ['v', name], vals]
            elif not v.atoms and len(v.probes) > 1 and self.chance(.3):
                x = round(r.choice(v.probes[1:-1] or v.probes)*4)/4
                ev = ['range', x, r.random() < .5, ['v', name],
                    x + 2.**-r.choice([12, 16, 18, 19]), r.random() < .5]
            elif v.lo == -inf and not v.atoms and len(v.probes) > 1:
                d = r.choice([1, 1.5, 2])*(v.probes[-1] - v.probes[0])
                x = round(v.probes[0] - d)
                ev = ['cmp', ['v', name], r.choice(['<', '<=']), x]
            else:
                continue
            if 1e-60 < state.prob(ev) < self.o['min_prob']:
                return ev
        return None

    # Statements.
    def gen_body(self, names, depth):
        """Statements that define the same variables, for each of n branches."""

    def gen_sample(self):
        name = self.fresh()
        d = self.gen_dist()
        return (['sample', name, d], {name: self.dist_var(d)})

    def gen_transform(self):
        names = [n for n, v in self.vars.items() if v.kind == 'real' and v.depth < 2]
        if not names or self.solves <= 0:
            return None
        src = self.rng.choice(sorted(names))
        got = self.gen_expr(src)
        if got is None:
            return None
        self.solves -= 1
        name = self.fresh()
        return (['transform', name, got[0]], {name: got[1]})

    def gen_if(self, depth=0, newvars=None, kinds=None, pool=None):
        r = self.rng
        n = r.choice([2, 2, 2, 3]) if depth or r.random() < .65 else r.choice([3, 4, 5, 5])
        tests = []
        rest = self.ref
        for _ in range(n - 1):
            if n >= 4:
                # None may exhaust the others.
                ev = self.likely_event(lo=.1, hi=.7, plain=True, n=1, state=rest)
                if ev is not None:
                    rest = rest.condition(['not', ev])
            elif depth == 0:
                ev = self.likely_event(hi=.99, plain=False)
            else:
                ev = self.likely_event(hi=.99, plain=True, n=1)
            if ev is None:
                return None
            tests.append(ev)
        tests.append(True)
        if n == 2 and r.random() < .15:
            tests[1] = ['not', tests[0]]
        if newvars is None:
            newvars = [self.fresh() for _ in
                range(r.choice([1, 1, 2, 2, 3]) if n < 4 else 1)]
            kinds = {v: 'nom' if r.random() < self.o['p_nominal'] else
                r.choice(['cont', 'disc', 'cont']) for v in newvars}
            pool = {v: [self.gen_dist(kinds[v], r.random() < .3)] for v in newvars}
        if n >= 4:
            depth += 1     # no more of them inside
        (bodies, descs) = ([], {v: [] for v in newvars})
        state = self.ref
        for i, t in enumerate(tests):
            last = t is True or i == n - 1
            try:
                here = state if last else state.condition(t)
                if not last:
                    state = state.condition(['not', t])
            except (RefError, ZeroProb):
                return None
            got = self.gen_branch(here, newvars, kinds, pool, depth)
            if got is None:
                return None
            bodies.append(got[0])
            for v in newvars:
                descs[v].append(got[1][v])
        return (['if', [[t, b] for t, b in zip(tests, bodies)]],
            {v: self.merge_vars(ds) for v, ds in descs.items()})

    def gen_branch(self, state, newvars, kinds, pool, depth):
        """Statements of a branch, which define the new variables."""
        r = self.rng
        g = Gen(r, **self.o)
        g.ref = state
        g.vars = dict(self.vars)
        g.arrays = self.arrays
        g.solves = self.solves
        todo = list(newvars)
        if r.random() < .2:
            r.shuffle(todo)
        while todo:
            v = todo[0]
            if depth < 2 and r.random() < self.o['p_nest']*(1 if depth == 0 else .4):
                # Nested, with or without something before or after it.
                k = r.randint(1, len(todo))
                got = g.gen_if(depth + 1, todo[:k], kinds, pool)
                if got is not None and g.try_add([got[0]], got[1]):
                    todo = todo[k:]
                    continue
            names = sorted(k for k, x in g.vars.items()
                if x.kind == 'real' and x.depth == 0)
            if kinds[v] != 'nom' and names and g.solves > 0 and r.random() < .12:
                got = g.gen_expr(r.choice(names))
                if got is not None and g.try_add([['transform', v, got[0]]], {v: got[1]}):
                    g.solves -= 1
                    todo.pop(0)
                    continue
            if r.random() < .35:
                d = r.choice(pool[v])
            else:
                d = self.gen_dist(kinds[v], r.random() < .2)
                pool[v].append(d)
            if not g.try_add([['sample', v, d]], {v: self.dist_var(d)}):
                return None
            todo.pop(0)
        self.solves = g.solves
        return (g.stmts, {v: g.vars[v] for v in newvars})

    def tab(self, n, choices):
        return ['tab', [self.rng.choice(choices) for _ in range(n)]]

    def gen_switch(self):
        r = self.rng
        names = sorted(n for n, v in self.vars.items() if v.depth == 0)
        if not names:
            return None
        var = r.choice(names)
        v = self.vars[var]
        if v.kind == 'nom':
            values = list(v.vals)
            r.shuffle(values)
            enumerated = r.random() < .4
            if r.random() < .3:
                (values, enumerated) = (self.overlapping(values), True)
        elif v.atoms and math.isfinite(v.lo) and math.isfinite(v.hi) \
                and v.hi - v.lo <= 4 and self.only_atoms(var):
            values = list(range(int(v.lo), int(v.hi) + 1))
            enumerated = r.random() < .4
            if r.random() < .3:
                (values, enumerated) = (self.overlapping(values), True)
        elif r.random() < .25:
            # Any intervals, and one for the rest: the first one counts.
            values = []
            for _ in range(r.choice([1, 2, 2, 3])):
                (a, b) = sorted((self.threshold(v), self.threshold(v)))
                if r.random() < .3:
                    a = -inf
                if a < b:
                    values.append(['iv', a, b, a == -inf or r.random() < .5,
                        r.random() < .5])
            values.append(['iv', -inf, inf, True, True])
            enumerated = True
        else:
            cuts = sorted(set(self.threshold(v) for _ in range(r.choice([1, 2]))))
            edges = [-inf] + cuts + [inf]
            values = [['iv', a, b, a == -inf or r.random() < .3, True]
                for a, b in zip(edges, edges[1:])]
            # Close the intervals so that nothing is left out.
            for a, b in zip(values, values[1:]):
                a[4] = not b[3]
            if r.random() < .3:
                values[0][4] = False    # overlapping: the first one counts
            enumerated = True
        n = len(values)
        if n < 2:
            return None
        new = self.fresh()
        d = r.choice([
            lambda: ['norm', {'loc': self.tab(n, [-1, 0, 1, 2]), 'scale': 1}],
            lambda: ['bernoulli', {'p': self.tab(n, [.125, .25, .5, .75])}],
            lambda: ['uniform', {'loc': 0, 'scale': self.tab(n, [1, 2, 3])}],
            lambda: ['poisson', {'mu': self.tab(n, [.5, 1, 3])}],
        ])()
        stmt = ['switch', var, values, [['sample', new, d]], enumerated]
        desc = self.merge_vars([self.dist_var(subst(d, None, k)) for k in range(n)])
        return (stmt, {new: desc})

    def overlapping(self, values):
        """Sets that cover the values and overlap: the first one counts."""
        r = self.rng
        n = r.choice([2, 3, 3, 4])
        sets = [[x for x in values if r.random() < .5] for _ in range(n)]
        sets[-1] += [x for x in values if not any(x in t for t in sets)]
        return [['set', t] for t in sets if t]

    def only_atoms(self, var):
        return all(var in p.base and ref.dist_kind(p.base[var]) == 'disc'
            for p in self.ref.paths)

    def gen_for(self):
        r = self.rng
        if self.arrays:
            return None
        n = r.choice([2, 3])
        self.arrays = {'A': n}
        first = self.gen_dist(r.choice(['cont', 'disc', 'nom']), False)
        v = self.dist_var(first)
        d1 = r.choice([['norm', {'loc': self.tab(n, [0, 1, 2]), 'scale': 1}],
            ['bernoulli', {'p': self.tab(n, [.25, .5])}]])
        if r.random() < .5:
            # Independent array.
            body = [['sample', 'A[i]', d1]]
            descs = {'A[%d]' % (i,): self.dist_var(subst(d1, i, i)) for i in range(n)}
            return ([['for', 0, n, body]], descs)
        # A chain.
        d2 = self.gen_dist('cont' if d1[0] == 'norm' else 'disc', False)
        if v.kind == 'nom' and ref.dist_kind(d2) != 'nom':
            first = self.gen_dist('disc' if d1[0] != 'norm' else 'cont', False)
        both = [subst(d1, i, i) for i in range(n)] + [d2, first]
        m = self.merge_vars([self.dist_var(d) for d in both])
        c = self.threshold(m)
        body = [['if', [[['cmp', ['v', 'A[i-1]'], '>', c], [['sample', 'A[i]', d1]]],
            [True, [['sample', 'A[i]', d2]]]]]]
        return ([['sample', 'A[0]', first], ['for', 1, n, body]],
            {'A[%d]' % (i,): m for i in range(n)})

    def gen_assignment(self, names=None):
        r = self.rng
        names = sorted(n for n in (names or self.vars) if self.vars[n].base)
        if not names:
            return None
        chosen = r.sample(names, min(len(names), r.choice([1, 1, 2, 3])))
        return [[n, self.gen_point(n)] for n in chosen]

    def gen_point(self, name):
        r = self.rng
        v = self.vars[name]
        if v.kind == 'nom':
            return r.choice(v.vals)
        if v.base and not v.atoms and self.chance(.2):
            x = self.edge(name)
            if x is not None:
                return x
        if v.atoms and (r.random() < .7):
            ints = [int(x) for x in v.probes if x == int(x)] or [0]
            return r.choice(ints)
        if len(v.probes) < 2:
            return v.probes[0]
        i = r.randrange(len(v.probes) - 1)
        x = r.uniform(v.probes[i], v.probes[i + 1])
        return round(x*16)/16 + 1/128

    def edge(self, name):
        """A point where a condition on a variable begins or ends to hold."""
        pts = set()
        for p in self.ref.paths:
            for ev in p.cons:
                for l in ref.event_leaves(ev):
                    if ref.leaf_expr(l) == ['v', name]:
                        pts.update(ref.leaf_points(l))
        pts = [x for x in sorted(pts) if abs(x) < 1e6 and x == round(x*64)/64]
        self.rng.shuffle(pts)
        for x in pts[:4]:
            # With the points of one side, so that it is not on its own.
            sides = [self.ref.density({name: x + d}) > -inf
                for d in (-2.**-20, 2.**-20)]
            if sum(sides) == 1:
                return x
        return None

    def try_add(self, stmts, descs):
        """Append statements if the reference accepts them."""
        try:
            state = ref_exec(self.ref, stmts)
        except (RefError, ZeroProb):
            return False
        if len(state.paths) > self.o['max_paths']:
            return False
        self.ref = state
        self.stmts.extend(stmts)
        self.vars.update(descs)
        return True

    def step(self):
        o = self.o
        r = self.rng
        nbase = len([v for v in self.vars.values() if v.base])
        if not self.vars:
            kinds = ['sample']
            weights = [1.]
        else:
            kinds = ['sample', 'transform', 'condition', 'constrain', 'if', 'switch', 'for']
            weights = [.35 if nbase < o['max_base'] else 0, o['p_transform'],
                o['p_condition'], o['p_constrain'],
                o['p_if'] if nbase < o['max_base'] else 0,
                o['p_switch'] if nbase < o['max_base'] else 0,
                o['p_for'] if nbase < o['max_base'] else 0]
        kind = r.choices(kinds, weights)[0]
        save = (self.solves, dict(self.arrays))
        got = None
        if kind == 'condition':
            ev = self.rare_event() if self.chance(self.o['p_rare']) else None
            ev = self.likely_event() if ev is None else ev
            got = (['condition', ev], {}) if ev is not None else None
        elif kind == 'constrain':
            a = self.gen_assignment()
            if a is not None:
                a = a[:2]
                if self.ref.density(dict(map(tuple, a))) > -7:
                    got = (['constrain', a], {})
        else:
            got = getattr(self, 'gen_' + kind)()
        ok = False
        if got is not None:
            (s, descs) = got
            ok = self.try_add(s if isinstance(s[0], list) else [s], descs)
        if not ok:
            (self.solves, self.arrays) = save
        return ok

    def run(self):
        n = self.rng.randint(*self.o['stmts'])
        tries = 0
        while len(self.stmts) < n and tries < 8*n:
            tries += 1
            self.step()
        return self.program()

    def program(self):
        return {'arrays': self.arrays, 'stmts': self.stmts}

    # Queries with answers by the reference.
    def gen_query(self, kinds=('prob', 'prob', 'logpdf', 'cond', 'cons')):
        r = self.rng
        kind = r.choice(kinds)
        if kind == 'prob':
            return ['prob', self.gen_event()]
        if kind == 'logpdf':
            a = self.gen_assignment()
            return ['logpdf', a] if a else ['prob', self.gen_event()]
        if kind == 'cons':
            a = self.gen_assignment()
            if a is not None and self.ref.density(dict(map(tuple, a))) > -7:
                return ['cons', a, self.gen_event()]
            return ['prob', self.gen_event()]
        if kind == 'cond':
            ev = self.rare_event() if self.chance(2*self.o['p_rare']) else None
            ev = self.likely_event(tries=6) if ev is None else ev
            if ev is None:
                return ['prob', self.gen_event()]
            return ['cond', ev, self.gen_event()]
        if kind == 'mi':
            return ['mi', self.gen_event(n=1), self.gen_event(n=1)]
        raise ValueError(kind)

def ref_answer(state, q):
    if q[0] == 'prob':
        return state.prob(q[1])
    if q[0] == 'logpdf':
        return state.density({v: x for v, x in q[1]})
    if q[0] == 'cond':
        return state.condition(q[1]).prob(q[2])
    if q[0] == 'cons':
        return state.constrain({v: x for v, x in q[1]}).prob(q[2])
    if q[0] == 'mi':
        (A, B) = (q[1], q[2])
        m = 0.
        for a, ea in ((1, A), (0, ['not', A])):
            for b, eb in ((1, B), (0, ['not', B])):
                p = state.prob(['and', ea, eb])
                if p > 0:
                    m += p*(math.log(p) - math.log(state.prob(ea))
                        - math.log(state.prob(eb)))
        return m
    raise ValueError(q)
