"""Scripted sources of randomness for samplers."""

import numpy

TOP = 1 - 2.**-53
EDGES = [0., 2.**-53, 2.**-30, .5, 1 - 2.**-30, TOP]
# For models with transforms that are undefined at single points, which have
# probability zero but are the images of edges: numbers next to the edges.
NEAR = [2.**-30, .5 - 2.**-29, .5 + 2.**-30, 1 - 2.**-30]

class Scripted(numpy.random.RandomState):
    """A RandomState whose uniform numbers come from a script.

    All draws that can be expressed by uniform numbers in the way numpy does
    are; other draws come from the seeded generator behind it."""
    def __init__(self, seed, p_edge=.4, zero=True, calls=None):
        super().__init__(seed)
        self.script = numpy.random.RandomState(seed + 1)
        self.p_edge = p_edge
        self.edges = EDGES if zero else NEAR
        self.calls = calls if calls is not None else {}
        self.extreme = 0
    def _count(self, name):
        self.calls[name] = self.calls.get(name, 0) + 1
    def _u(self, size=None):
        n = 1 if size is None else int(numpy.prod(size))
        r = self.script
        us = numpy.empty(n)
        # Runs of equal numbers, edges, and others.
        same = r.random_sample() < .1
        for i in range(n):
            if r.random_sample() < self.p_edge:
                us[i] = self.edges[r.randint(len(self.edges))]
                self.extreme += 1
            else:
                us[i] = r.random_sample()
            if same and i:
                us[i] = us[0]
        return us[0] if size is None else us.reshape(size)
    def random_sample(self, size=None):
        self._count('random_sample')
        return self._u(size)
    random = random_sample
    def rand(self, *shape):
        self._count('rand')
        return self._u(shape or None)
    def uniform(self, low=0., high=1., size=None):
        self._count('uniform')
        if size is None:
            size = numpy.broadcast(low, high).shape or None
        return low + (numpy.asarray(high) - low)*self._u(size)
    def choice(self, a, size=None, replace=True, p=None):
        self._count('choice')
        a = numpy.arange(a) if isinstance(a, (int, numpy.integer)) else numpy.asarray(a)
        if not replace:
            return super().choice(a, size, replace, p)
        n = len(a)
        p = numpy.full(n, 1./n) if p is None else numpy.asarray(p, dtype=float)
        if len(p) != n or abs(p.sum() - 1) > 1e-6 or (p < 0).any():
            raise ValueError('probabilities do not fit')
        cdf = p.cumsum()
        cdf /= cdf[-1]
        idx = cdf.searchsorted(self._u(size), side='right')
        return a[idx]
    def shuffle(self, x):
        self._count('shuffle')
        for i in range(len(x) - 1, 0, -1):
            j = min(int(self._u()*(i + 1)), i)
            (x[i], x[j]) = (x[j], x[i])
    def permutation(self, x):
        self._count('permutation')
        r = numpy.arange(x) if isinstance(x, (int, numpy.integer)) else numpy.array(x)
        self.shuffle(r)
        return r
    def randint(self, low, high=None, size=None, dtype=int):
        self._count('randint')
        if high is None:
            (low, high) = (0, low)
        return numpy.minimum(low + numpy.floor((high - low)*self._u(size)),
            high - 1).astype(dtype)
    def exponential(self, scale=1., size=None):
        self._count('exponential')
        return -scale*numpy.log1p(-self._u(size))
    def standard_exponential(self, size=None):
        self._count('standard_exponential')
        return -numpy.log1p(-self._u(size))
