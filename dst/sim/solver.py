"""Simulated behaviour of symbolic solving (a hook for seams.SOLVE).

Modes of one call of SymPy's solver:
  ['real']          it returns, in no time
  ['slow', dt]      it returns after dt simulated seconds
  ['cut', u]        time runs out at its step number S**u, where 0 <= u < 1
  ['late']          time runs out when it is about to return
  ['stall']         it makes no progress at all
  ['stuck', u]      it makes no progress from that step on
  ['unsolved', how] it returns a set that is not explicit
  ['fails', how]    it gives up with an exception
  ['interrupt', u]  the user interrupts at that step"""

import sys

from . import core
from . import seams

LONG = 1e5                  # seconds after which any limit has passed
FOREVER = 2e6

class Solver():
    def __init__(self, ctx, world, modes=(), default=('real',), steps=6000,
            long=LONG, forever=FOREVER):
        self.ctx = ctx
        self.world = world
        self.modes = list(modes)
        self.default = list(default)
        self.steps = steps
        self.long = long
        self.forever = forever
        self.known = {}
        self.calls = []         # [mode, outcome, start, end, armed]
    def __call__(self, name, call, args, kwargs):
        i = len(self.calls)
        mode = self.modes[i] if i < len(self.modes) else self.default
        w = self.world
        entry = [mode[0], 'raised', w.now, None, w.deadline]
        self.calls.append(entry)
        old = sys.gettrace()
        sys.settrace(None)
        try:
            r = self.perform(mode, name, call, args, kwargs)
            entry[1] = 'returned'
            return r
        except BaseException as e:
            entry[1] = type(e).__name__
            raise
        finally:
            entry[3] = w.now
            sys.settrace(old)
            self.ctx.state('solve', mode[0], entry[1])
    def perform(self, mode, name, call, args, kwargs):
        w = self.world
        t = mode[0]
        if seams.MEMO is not None and t not in ('cut', 'stuck', 'interrupt'):
            really = call
            call = lambda: seams.remembered(name, really, args, kwargs)
        if t != 'real':
            self.ctx.fault('solve_' + t)
        if t == 'real':
            # The same solve again gives the same, unless one was cut meanwhile.
            key = (name, tuple(str(a) for a in args))
            if key not in self.known:
                self.known[key] = call()
            return self.known[key]
        self.known.clear()
        if t == 'slow':
            r = call()
            w.advance(mode[1], sys._getframe())
            return r
        if t == 'late':
            r = call()
            w.advance(self.long, sys._getframe())
            return r
        if t == 'stall':
            return self.stall(sys._getframe())
        if t in ('cut', 'stuck', 'interrupt'):
            return self.cut(mode, call)
        if t == 'fails':
            if mode[1] == 'notimplemented':
                raise NotImplementedError('injected')
            from mpmath.libmp.libhyper import NoConvergence
            raise NoConvergence('injected')
        if t == 'unsolved':
            return unsolved(name, mode[1], call, args)
        raise ValueError(mode)
    def stall(self, frame):
        w = self.world
        start = w.now
        while True:
            # Nothing else happens until an alarm ends it.
            w.advance(.25 if w.now - start < 60 else 100., frame)
            if w.now - start > self.forever:
                raise seams.StallForever('a solve that makes no progress was '
                    'never abandoned')
    def cut(self, mode, call):
        w = self.world
        k = int(self.steps**mode[1])
        begun = []
        def act(j, frame):
            begun.append(w.now)
            if mode[0] == 'interrupt':
                t.targets.clear()
                raise KeyboardInterrupt('injected')
            if mode[0] == 'cut':
                t.targets.clear()
                w.advance(self.long, frame)
            else:
                # Every later step takes long, too.
                t.targets[j + 1] = None
                w.advance(1. if len(begun) < 50 else 500., frame)
                if w.now - begun[0] > self.forever or len(begun) > 3000:
                    raise seams.StallForever('a solve that makes no progress was '
                        'never abandoned')
        t = core.Tracer(lines=(), calls=('sympy',), targets={k: None}, act=act)
        r = t.run(call)
        if not begun:
            # It has fewer steps: the last one.
            if mode[0] == 'interrupt':
                raise KeyboardInterrupt('injected')
            w.advance(self.long, sys._getframe())
        return r

class Ticker(core.Tracer):
    """Lets time pass at every period-th line of the package outside solving, or
    of those of its lines that follow one where it used a clock or a timer."""
    def __init__(self, world, period, phase, dt, start=0, near=False, most=12):
        super().__init__(lines=('sppl',))
        self.world = world
        self.period = period
        self.phase = phase
        self.start_at = start
        self.dt = dt
        self.left = most
        self.spent = 0.
        self.busy = False
        self.near = near
        self.ops = None
        self.window = 0
    def hit(self, frame):
        if self.busy:
            return
        if self.near:
            if self.world.ops != self.ops:
                self.ops = self.world.ops
                self.window = 3
            if not self.window:
                self.world.poll(frame)
                return
            self.window -= 1
        k = self.k
        self.k = k + 1
        if not self.left or k % self.period != self.phase or k < self.start_at:
            # An alarm may be due.
            self.world.poll(frame)
            return
        self.left -= 1
        self.spent += self.dt
        self.busy = True
        try:
            self.world.advance(self.dt, frame)
        finally:
            self.busy = False
            if self.window:
                self.ops = self.world.ops

def unsolved(name, how, call, args):
    import sympy
    if name == 'function_range':
        # It gives up on a derivative it cannot solve.
        raise NotImplementedError('injected')
    rel = sympy.sympify(args[0])
    if not rel.free_symbols:
        return call()
    x = sorted(rel.free_symbols, key=str)[0]
    R = sympy.S.Reals
    half = sympy.Interval(-sympy.oo, 0)
    rest = sympy.Interval.open(0, sympy.oo)
    if not rel.is_Relational:
        # What SymPy gives for an equation.
        return sympy.ConditionSet(x, sympy.Eq(rel, 0), R)
    if how == 'condition':
        return sympy.ConditionSet(x, rel, R)
    if how == 'union':
        r = call()
        return sympy.Union(sympy.Intersection(r, half),
            sympy.ConditionSet(x, rel, rest), evaluate=False)
    if how == 'intersection':
        r = call()
        return sympy.Intersection(r, sympy.ConditionSet(x, rel, R), evaluate=False)
    if how == 'complement':
        r = call()
        return sympy.Complement(R, sympy.Complement(R, r, evaluate=False),
            evaluate=False)
    raise ValueError(how)

def gen_mode(rng, weights):
    kinds = sorted(weights)
    t = rng.choices(kinds, [weights[k] for k in kinds])[0]
    if t in ('cut', 'stuck', 'interrupt'):
        return [t, rng.random()]
    if t == 'fails':
        return [t, rng.choice(['notimplemented', 'noconvergence'])]
    if t == 'unsolved':
        return [t, rng.choice(['condition', 'condition', 'union', 'intersection',
            'complement'])]
    if t == 'slow':
        return [t, rng.choice([.1, 1., 2.])]
    return [t]
