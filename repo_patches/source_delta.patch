From 61117a3294a68b63fc81a5cea551f8a17e2dd631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 01/51] fix: group equal components by equality, not by hash

hash(-1.0) == hash(-2.0), so simplifying a mixture of, e.g., norm(loc=-1) and
norm(loc=-2) merged two different distributions.
---
 src/sym_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/sym_util.py b/src/sym_util.py
index 05d809a..9903ac2 100644
--- a/src/sym_util.py
+++ b/src/sym_util.py
@@ -45,10 +45,9 @@ def powerset(values, start=0):
 def partition_list_blocks(values):
     partition = OrderedDict([])
     for i, v in enumerate(values):
-        x = hash(v)
-        if x not in partition:
-            partition[x] = []
-        partition[x].append(i)
+        if v not in partition:
+            partition[v] = []
+        partition[v].append(i)
     return list(partition.values())
 
 def partition_finite_real_contiguous(x):
-- 
2.43.0


From 084c601e3981c239fdc8f9fd9e454dbe57e1a081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 02/51] fix: pass the argument, not a function, when
 memoization is disabled

Any query on a mixture or product with memo=False crashed.
---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index d5f0856..cfd4532 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -51,7 +51,7 @@ def memoize(f):
     def f_(*args):
         (spe, event_factor, memo) = args
         if memo is False:
-            return f(spe, event_factor_to_event, memo)
+            return f(spe, event_factor, memo)
         m = getattr(memo, table)
         key = spe.get_memo_key(event_factor)
         if key not in m:
-- 
2.43.0


From fd68d915f416f4bc0cc017436dcd7173b60f2f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 03/51] fix: shuffle the samples of a mixture, not its blocks

The samples of each component stayed contiguous, so the samples of a product
of mixtures were strongly correlated across independent parts.
---
 src/spe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index cfd4532..89733bf 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -241,9 +241,10 @@ class SumSPE(BranchSPE):
     def sample_many(self, func, N, prng=None):
         selections = logflip(self.weights, self.indexes, N, prng)
         counts = Counter(selections)
-        samples = [func(i, counts[i]) for i in counts]
+        blocks = [func(i, counts[i]) for i in counts]
+        samples = list(chain.from_iterable(blocks))
         random(prng).shuffle(samples)
-        return list(chain.from_iterable(samples))
+        return samples
 
     def transform(self, symbol, expr):
         children = [spe.transform(symbol, expr) for spe in self.children]
-- 
2.43.0


From a733a144b510b2321638e6a68d8330f8e35a28f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 04/51] fix: keep the derived variables of a constrained leaf

Constraining a leaf with transformed variables dropped them from the model.
---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 89733bf..cd3847c 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -819,7 +819,7 @@ class RealLeaf(LeafSPE):
 
     def constrain__(self, x):
         assert not isinf_neg(self.logpdf__(x))
-        return AtomicLeaf(self.symbol, x)
+        return AtomicLeaf(self.symbol, x, env=self.env)
 
     def __hash__(self):
         d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
-- 
2.43.0


From bf21d9e16705e660176d48e11f3982876cd13e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 05/51] fix: support logpdf and constrain on atomic leaves

A constrained model could not be queried for densities or constrained again.
---
 src/spe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index cd3847c..9d7f00a 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -954,6 +954,11 @@ class AtomicLeaf(LeafSPE):
         interval = event.solve()
         assert self.value in interval, 'Measure zero condition %s' % (event,)
         return self
+    def logpdf__(self, x):
+        return 0 if x in self.support else -inf
+    def constrain__(self, x):
+        assert not isinf_neg(self.logpdf__(x))
+        return self
 
     def __hash__(self):
         x = (self.__class__, self.symbol, self.value)
-- 
2.43.0


From f3e23b2db391dff4e5ed4c4ad4986169a22e04d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 06/51] fix: compare the derived variables of atomic leaves

Atomic leaves with different transforms of the same value were equal, and
merging duplicate subtrees replaced one by the other.
---
 src/spe.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 9d7f00a..93c59e3 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -961,12 +961,13 @@ class AtomicLeaf(LeafSPE):
         return self
 
     def __hash__(self):
-        x = (self.__class__, self.symbol, self.value)
+        x = (self.__class__, self.symbol, self.value, tuple(self.env.items()))
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.value == x.value
+            and self.value == x.value \
+            and self.env == x.env
 
 # ==============================================================================
 # Nominal distribution.
-- 
2.43.0


From c0822463a3c63280e55e7d1acb85530819627c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 07/51] fix: return separate samples from an atomic leaf

All N samples were one dictionary, so changing one changed them all.
---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 93c59e3..f84582b 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -946,7 +946,7 @@ class AtomicLeaf(LeafSPE):
         return AtomicLeaf(self.symbol, self.value, env=env)
 
     def sample__(self, N, prng):
-        return [{self.symbol : self.value}] * N
+        return [{self.symbol : self.value} for _i in range(N)]
     def logprob__(self, event):
         interval = event.solve()
         return 0 if self.value in interval else -inf
-- 
2.43.0


From 025548ceb818f6e29d1c4708754a491258b2b669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 08/51] fix: replace the children of a deduplicated model in
 one step

The children were temporarily a list, so an interrupt in the middle left the
model unhashable for good, and other threads could see it that way.
---
 src/spe.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index f84582b..eb20c55 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -1056,11 +1056,10 @@ def spe_cache_duplicate_subtrees(spe, memo):
         return memo[spe]
     if isinstance(spe, BranchSPE):
         if spe not in memo:
+            spe.children = tuple([
+                spe_cache_duplicate_subtrees(c, memo) for c in spe.children
+            ])
             memo[spe] = spe
-            spe.children = list(spe.children)
-            for i, c in enumerate(spe.children):
-                spe.children[i] = spe_cache_duplicate_subtrees(c, memo)
-            spe.children = tuple(spe.children)
         return memo[spe]
     assert False, '%s is not an spe' % (spe,)
 
-- 
2.43.0


From f2ca2252a7e3e15c994c9dad0475c2c1077d97ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 09/51] fix: sample the parts of a product in a fixed order

sample_subset consumed the generator in the iteration order of the caller's
set of symbols, so seeded samples depended on the hash seed.
---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index eb20c55..067ec4f 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -450,7 +450,7 @@ class ProductSPE(BranchSPE):
         # Obtain the samples.
         samples = [
             self.children[i].sample_subset(symbols_i, N, prng=prng)
-            for i, symbols_i in index_to_symbols.items()
+            for i, symbols_i in sorted(index_to_symbols.items())
         ]
         # Merge the samples.
         return merge_samples(samples)
-- 
2.43.0


From 3b4f858c5bfcfbba5dc2365e8ccf40ca3cbca917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 10/51] fix: evaluate a logarithm to a number, not to a set

Samples of logarithms were sets, and any transform of them crashed.
---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 686c074..151e599 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -501,7 +501,7 @@ class Logarithm(Injective):
         return self.ffwd(x)
     def ffwd(self, x):
         assert x in self.domain()
-        return {sympy.log(x, self.base) if x > 0 else -oo}
+        return sympy.log(x, self.base) if x > 0 else -oo
     def finv(self, y):
         if not y in self.range():
             return EmptySet
-- 
2.43.0


From 8f47efedc5f10aabf22df67538ca5f684ba6c3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 11/51] fix: evaluate piecewise transforms

Sampling a model with a piecewise transform raised NotImplementedError.
---
 src/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 151e599..83aaa07 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -719,7 +719,10 @@ class Piecewise(Transform):
         events_prime = [event.subs(env) for event in self.events]
         return Piecewise(subexprs_prime, events_prime)
     def evaluate(self, assignment):
-        raise NotImplementedError()
+        for subexpr, event in zip(self.subexprs, self.events):
+            if event.evaluate(assignment):
+                return subexpr.evaluate(assignment)
+        raise ValueError('Cannot evaluate %s on %s' % (str(self), assignment))
     def ffwd(self, x):
         index = next(i for i, domain in enumerate(self.domains) if x in domain)
         return self.subexprs[index].ffwd(x)
-- 
2.43.0


From 8e22feba36bc942597a25963b10b72b6dbc270ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 12/51] fix: make piecewise transforms hashable

Simplifying a mixture of leaves with a piecewise transform, or merging its
duplicate subtrees, raised TypeError.
---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 83aaa07..accd363 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -758,7 +758,7 @@ class Piecewise(Transform):
         ]
         return ' + '.join(strings)
     def __hash__(self):
-        x = (self.__class__, self.subexprs, self.events)
+        x = (self.__class__, tuple(self.subexprs), tuple(self.events))
         return hash(x)
 
 def get_piecewise_symbol(subexprs, events):
-- 
2.43.0


From d5c15571607a80091665bef690edf540a9555d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 13/51] fix: subtract a transform from a number

1 - X evaluated to X - 1.
---
 src/transforms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index accd363..51f4085 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -203,7 +203,7 @@ class Transform():
     def __sub__(self, x):
         return self + (-1 * x)
     def __rsub__(self, x):
-        return self - x
+        return (-1 * self) + x
     # Negation.
     def __neg__(self):
         return -1 * self
-- 
2.43.0


From 0c86a1e1f6db2c7e3b48e69a35129ca1d98b8763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 14/51] fix: keep memoized models alive

Memo tables were keyed by the id of a model without holding a reference to
it.  Once the model was discarded, a new model at the same address was given
the answers of the old one.
---
 src/spe.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 067ec4f..73b87f6 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -140,7 +140,8 @@ class SPE():
         return NotImplemented
 
     def get_memo_key(self, event_factor):
-        x = id(self)
+        # The key keeps self alive, so that its id is not reused.
+        x = SPERef(self)
         y = tuple(event_factor.items()) \
                 if isinstance(event_factor, dict) \
                 else tuple(tuple(d.items()) for d in event_factor)
@@ -1042,6 +1043,15 @@ class NominalLeaf(LeafSPE):
 # ==============================================================================
 # Utilities.
 
+class SPERef():
+    """Reference to an SPE, compared by identity."""
+    def __init__(self, spe):
+        self.spe = spe
+    def __eq__(self, x):
+        return isinstance(x, SPERef) and self.spe is x.spe
+    def __hash__(self):
+        return id(self.spe)
+
 class Memo():
     def __init__(self):
         self.logprob = {}
-- 
2.43.0


From 69414e439ade7e977c7a334ef1088f99150f317b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 15/51] fix: round the bounds of discrete intervals towards the
 interval

Negative fractional bounds were truncated towards zero, e.g.,
randint(low=-5, high=5) had prob(X > -1.5) = 0.5 instead of 0.6.
---
 src/spe.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 73b87f6..4c1e0eb 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -8,7 +8,9 @@ from fractions import Fraction
 from functools import reduce
 from inspect import getfullargspec
 from itertools import chain
+from math import ceil
 from math import exp
+from math import floor
 from math import log
 
 from .dnf import dnf_factor
@@ -21,6 +23,7 @@ from .math_util import float_to_int
 from .math_util import int_or_isinf_neg
 from .math_util import int_or_isinf_pos
 from .math_util import isinf_neg
+from .math_util import isinf_pos
 from .math_util import logdiffexp
 from .math_util import logflip
 from .math_util import lognorm
@@ -919,14 +922,22 @@ class DiscreteLeaf(RealLeaf):
         logps = [self.logpdf__(x) for x in values]
         return logps[0] if len(logps) == 1 else logsumexp(logps)
     def logprob_interval__(self, values):
-        offsetl = not values.left_open and int_or_isinf_neg(values.left)
-        offsetr = values.right_open and int_or_isinf_pos(values.right)
-        xl = float_to_int(values.left) - offsetl
-        xu = float_to_int(values.right) - offsetr
-        logFl = self.logcdf(xl)
+        (xl, xu) = integers_in_interval(values)
+        if xu < xl:
+            return -inf
+        logFl = self.logcdf(xl - 1)
         logFu = self.logcdf(xu)
         return logdiffexp(logFu, logFl)
 
+def integers_in_interval(interval):
+    # Return smallest and largest integers in the interval.
+    (xl, xu) = (interval.left, interval.right)
+    if not isinf_neg(xl):
+        xl = int(floor(xl)) + 1 if interval.left_open else int(ceil(xl))
+    if not isinf_pos(xu):
+        xu = int(ceil(xu)) - 1 if interval.right_open else int(floor(xu))
+    return (xl, xu)
+
 # ==============================================================================
 # Atomic RealLeaf.
 
-- 
2.43.0


From 37afba9e125fba38ea626a5afa7691c5edaad1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 16/51] fix: condition discrete variables on sets with
 fractional bounds

Conditioning, e.g., a Poisson variable X on X < 2.5 or X**2 < 5 failed with an
AssertionError.
---
 src/spe.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index 4c1e0eb..9154f49 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -918,6 +918,19 @@ class DiscreteLeaf(RealLeaf):
             return -inf
         return self.dist.logpmf(xf) - self.logZ
 
+    def flatten_values_contiguous(self, values):
+        # Restrict to integers.
+        if isinstance(values, FiniteReal):
+            integers = [x for x in values if float(x) == int(x)]
+            return super().flatten_values_contiguous(FiniteReal(*integers)) \
+                if integers else []
+        if isinstance(values, Interval):
+            if int_or_isinf_neg(values.left) and int_or_isinf_pos(values.right):
+                return [values]
+            (xl, xu) = integers_in_interval(values)
+            return [Range(xl, xu)] if xl <= xu else []
+        return super().flatten_values_contiguous(values)
+
     def logprob_finite__(self, values):
         logps = [self.logpdf__(x) for x in values]
         return logps[0] if len(logps) == 1 else logsumexp(logps)
-- 
2.43.0


From 04eaef8315778e9a77900e44beb347bc380639c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 17/51] fix: name graph nodes by a counter, not by the clock

Two nodes created within the resolution of the clock, or after it was set
back, were given the same name and merged in the graph.
---
 magics/render.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index 98944fe..1aaa32f 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -1,9 +1,9 @@
 # Copyright 2020 MIT Probabilistic Computing Project.
 # See LICENSE.txt
 
+import itertools
 import os
 import tempfile
-import time
 
 from math import exp
 
@@ -16,7 +16,8 @@ from sppl.spe import ProductSPE
 from sppl.spe import RealLeaf
 from sppl.spe import SumSPE
 
-gensym = lambda: 'r%s' % (str(time.time()).replace('.', ''),)
+counter = itertools.count()
+gensym = lambda: 'r%d' % (next(counter),)
 
 def render_networkx_graph(spe):
     if isinstance(spe, NominalLeaf):
-- 
2.43.0


From a8c1122c1a43770ff2f385a29e26519d66f1f8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 18/51] fix: restore the caller's alarm and handler after a
 timeout

Any query on a polynomial replaced the caller's SIGALRM handler for good and
cancelled the caller's pending alarm.
---
 src/timeout.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/timeout.py b/src/timeout.py
index 7ac7d70..a9c600d 100644
--- a/src/timeout.py
+++ b/src/timeout.py
@@ -2,16 +2,37 @@
 # See LICENSE.txt
 
 import signal
+import time
 
 class timeout:
     # Adapted from https://stackoverflow.com/a/22348885
     def __init__(self, seconds=1, error_message='Timeout'):
         self.seconds = seconds
         self.error_message = error_message
+        self.active = False
     def handle_timeout(self, signum, frame):
+        # Restore first, since the error may be raised outside the with block.
+        self.restore()
         raise TimeoutError(self.error_message)
+    def restore(self):
+        # Restore the handler and the alarm that were pending on entry, which
+        # is due now if it fell due meanwhile.
+        if not self.active:
+            return
+        signal.setitimer(signal.ITIMER_REAL, 0)
+        (remaining, interval) = self.pending
+        signal.signal(signal.SIGALRM, self.handler)
+        self.active = False
+        if remaining:
+            elapsed = time.monotonic() - self.start
+            remaining = max(remaining - elapsed, 1e-6)
+            signal.setitimer(signal.ITIMER_REAL, remaining, interval)
     def __enter__(self):
+        self.start = time.monotonic()
+        self.pending = signal.setitimer(signal.ITIMER_REAL, 0)
+        self.handler = signal.getsignal(signal.SIGALRM)
+        self.active = True
         signal.signal(signal.SIGALRM, self.handle_timeout)
-        signal.alarm(self.seconds)
+        signal.setitimer(signal.ITIMER_REAL, self.seconds)
     def __exit__(self, type, value, traceback):
-        signal.alarm(0)
+        self.restore()
-- 
2.43.0


From 647bf2f31bd79c0b1a969a7094efc0e9491fbade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 19/51] fix: answer queries on polynomials from any thread

Outside the main thread setting the time limit raised ValueError; solve
without a limit there.
---
 src/timeout.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/timeout.py b/src/timeout.py
index a9c600d..f014c80 100644
--- a/src/timeout.py
+++ b/src/timeout.py
@@ -2,6 +2,7 @@
 # See LICENSE.txt
 
 import signal
+import threading
 import time
 
 class timeout:
@@ -28,6 +29,9 @@ class timeout:
             remaining = max(remaining - elapsed, 1e-6)
             signal.setitimer(signal.ITIMER_REAL, remaining, interval)
     def __enter__(self):
+        # Signals are only available, and only delivered, in the main thread.
+        if threading.current_thread() is not threading.main_thread():
+            return
         self.start = time.monotonic()
         self.pending = signal.setitimer(signal.ITIMER_REAL, 0)
         self.handler = signal.getsignal(signal.SIGALRM)
-- 
2.43.0


From d2c6b660bb51ecaf097278300014088b5ee0c639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 20/51] fix: solve polynomials numerically when roots are
 repeated or missing

The numerical fallback returned a SymPy set when there are no real roots (even
if every value is a solution), failed when roots are repeated or when an
equality has no solution, and missed isolated solutions.
---
 src/poly.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index df634cd..93c3e46 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -28,6 +28,19 @@ def get_poly_symbol(expr):
     assert len(symbols) == 1
     return symbols[0]
 
+def get_poly_zeros(expr, symX):
+    # Distinct real zeros, in increasing order; rational ones are exact.
+    # Repeated zeros are removed first, since they are ill-conditioned.
+    poly = sympy.Poly(sympy.nsimplify(expr, rational=True), symX).sqf_part()
+    zeros = []
+    for factor, _multiplicity in poly.factor_list()[1]:
+        if factor.degree() == 1:
+            (a, b) = factor.all_coeffs()
+            zeros.append(-b/a)
+        else:
+            zeros.extend([r for r in factor.nroots() if r.is_real])
+    return sorted(zeros)
+
 # ==============================================================================
 # Solving inequalities.
 
@@ -58,10 +71,9 @@ def solve_poly_inequality_numerically(expr, b, strict):
     poly = expr - b
     symX = get_poly_symbol(expr)
     # Obtain numerical roots.
-    roots = sympy.nroots(poly)
-    zeros = sorted([r for r in roots if r.is_real])
+    zeros = get_poly_zeros(poly, symX)
     if not zeros:
-        return sympy.EmptySet
+        return Reals if poly.subs(symX, 0) < 0 else EmptySet
     # Construct intervals around roots.
     mk_intvl = lambda a, b: \
         Interval(a, b, left_open=strict, right_open=strict)
@@ -79,7 +91,9 @@ def solve_poly_inequality_numerically(expr, b, strict):
     f_xs_probe = [poly.subs(symX, x) for x in xs_probe]
     # Return intervals where poly is less than zero.
     idxs = [i for i, fx in enumerate(f_xs_probe) if fx < 0]
-    return make_union(*[intervals[i] for i in idxs])
+    solutions = [intervals[i] for i in idxs]
+    # The roots themselves are solutions unless the inequality is strict.
+    return make_union(EmptySet if strict else FiniteReal(*zeros), *solutions)
 
 def solve_poly_inequality_inf(expr, b, strict, extended=None):
     # Minimum value of polynomial is negative infinity.
@@ -126,9 +140,8 @@ def solve_poly_equality_symbolically(expr, b):
     return sympy.Intersection(soln_lt, soln_gt)
 
 def solve_poly_equality_numerically(expr, b):
-    roots = sympy.nroots(expr-b)
-    zeros = [r for r in roots if r.is_real]
-    return FiniteReal(*zeros)
+    zeros = get_poly_zeros(expr - b, get_poly_symbol(expr))
+    return FiniteReal(*zeros) if zeros else EmptySet
 
 def solve_poly_equality_inf(expr, b):
     assert isinf(b)
-- 
2.43.0


From a9367527035418d0c0178174df1fc197706e1b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 21/51] fix: solve numerically whenever the symbolic solution
 is not explicit

Only a ConditionSet or Intersection at the top of the result led to the
numerical solver, one inside a Union failed.  This includes results that are
inconclusive because an earlier solve was cut off by the time limit while
SymPy was filling its caches, so discard these.
---
 src/poly.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index 93c3e46..7c67011 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -9,6 +9,7 @@ from math import isinf
 import sympy
 
 from sympy.calculus.util import limit
+from sympy.core.cache import clear_cache
 
 from .sets import EmptySet
 from .sets import ExtReals
@@ -41,6 +42,13 @@ def get_poly_zeros(expr, symX):
             zeros.extend([r for r in factor.nroots() if r.is_real])
     return sorted(zeros)
 
+def is_explicit(result):
+    # Whether the set can be converted, e.g., has no ConditionSet inside.
+    if isinstance(result, sympy.Union):
+        return all(is_explicit(x) for x in result.args)
+    return result is sympy.S.EmptySet \
+        or isinstance(result, (sympy.Interval, sympy.FiniteSet))
+
 # ==============================================================================
 # Solving inequalities.
 
@@ -56,9 +64,11 @@ def solve_poly_inequality(expr, b, strict, extended=None):
         with timeout(seconds=TIMEOUT_SYMBOLIC):
             result_symbolic = solve_poly_inequality_symbolically(expr, b, strict)
     except TimeoutError:
+        # Discard partial results that SymPy cached when interrupted.
+        clear_cache()
         result_symbolic = None
     if result_symbolic is not None:
-        if not isinstance(result_symbolic, (sympy.ConditionSet, sympy.Intersection)):
+        if is_explicit(result_symbolic):
             return convert_sympy(result_symbolic)
     # Solve numerically.
     return solve_poly_inequality_numerically(expr, b, strict)
@@ -127,9 +137,11 @@ def solve_poly_equality(expr, b):
         with timeout(seconds=TIMEOUT_SYMBOLIC):
             result_symbolic = solve_poly_equality_symbolically(expr, b)
     except TimeoutError:
+        # Discard partial results that SymPy cached when interrupted.
+        clear_cache()
         result_symbolic = None
     if result_symbolic is not None:
-        if not isinstance(result_symbolic, (sympy.ConditionSet, sympy.Intersection)):
+        if is_explicit(result_symbolic):
             return convert_sympy(result_symbolic)
     # Solve numerically.
     return solve_poly_equality_numerically(expr, b)
-- 
2.43.0


From fff290e3698044dd427481cf1a78914b3e3a7e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 22/51] fix: sample without changing the shared distribution
 object

While sampling SciPy stores the generator in the distribution.  Concurrent
samples from one model could thus draw from one another's generator, and a
sample that was interrupted left its generator behind for later samples that
use the global one.
---
 src/spe.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 9154f49..ed2992d 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -739,7 +739,12 @@ class RealLeaf(LeafSPE):
             xs = self.dist.ppf(u_interval)
         else:
             # Simulation by vanilla inversion sampling.
-            xs = self.dist.rvs(size=N, random_state=prng)
+            # SciPy keeps the generator and the size in the distribution while
+            # sampling, so use a private copy.
+            dist = object.__new__(type(self.dist.dist))
+            dist.__dict__.update(self.dist.dist.__dict__)
+            xs = dist.rvs(*self.dist.args, size=N, random_state=prng,
+                **self.dist.kwds)
         # Wrap result in a dictionary.
         return [{self.symbol : x} for x in xs]
 
-- 
2.43.0


From e342ea05e32fb1ae0f7d20107b5cbcbb147b54cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:11 +0000
Subject: [PATCH 23/51] fix: allow to interpret a switch more than once

The values of switch(X, enumerate(...)) were consumed when first interpreted,
so interpreting the program again, e.g., after an interrupt, failed.
---
 src/compilers/ast_to_spe.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/compilers/ast_to_spe.py b/src/compilers/ast_to_spe.py
index 858e419..439298a 100644
--- a/src/compilers/ast_to_spe.py
+++ b/src/compilers/ast_to_spe.py
@@ -106,12 +106,12 @@ class Switch(Command):
     def __init__(self, symbol, values, f):
         self.symbol = symbol
         self.f = f
-        self.values = values
+        self.enumerated = isinstance(values, enumerate)
+        self.values = list(values)
     def interpret(self, spe=None):
-        if isinstance(self.values, enumerate):
-            values = list(self.values)
-            sets = [self.value_to_set(v[1]) for v in values]
-            subcommands = [self.f(*v) for v in values]
+        if self.enumerated:
+            sets = [self.value_to_set(v[1]) for v in self.values]
+            subcommands = [self.f(*v) for v in self.values]
         else:
             sets = [self.value_to_set(v) for v in self.values]
             subcommands = [self.f(v) for v in self.values]
-- 
2.43.0


From 2c62714bd109224ae7a88154291ab4097debbe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 24/51] fix: add polynomials with irrational coefficients

X**2 + sqrt(2)*X raised PolynomialError since sqrt(2) was taken as a variable.
---
 src/transforms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/transforms.py b/src/transforms.py
index 51f4085..23bd490 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -102,8 +102,8 @@ class Transform():
         if poly_x.subexpr != poly_self.subexpr:
             raise ValueError('Incompatible subexpressions in "%s + %s"'
                 % (str(self), x))
-        sym_poly_a = sympy.Poly(poly_self.symexpr)
-        sym_poly_b = sympy.Poly(poly_x.symexpr)
+        sym_poly_a = sympy.Poly(poly_self.symexpr, symX)
+        sym_poly_b = sympy.Poly(poly_x.symexpr, symX)
         sym_poly_c = sym_poly_a + sym_poly_b
         coeffs = sym_poly_c.all_coeffs()[::-1]
         return Poly(poly_self.subexpr, coeffs)
-- 
2.43.0


From 9050229794f5fadef01d7bb22e1cc41d52c61d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 25/51] fix: compare the tables of discrete distributions

All distributions made by discrete, uniformd or rv_discrete over the same
range of values were equal, so simplifying a mixture merged different ones.
---
 src/spe.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index ed2992d..7c770ae 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -830,17 +830,22 @@ class RealLeaf(LeafSPE):
         assert not isinf_neg(self.logpdf__(x))
         return AtomicLeaf(self.symbol, x, env=self.env)
 
+    def get_dist_key(self):
+        # Distributions made from a table of values have no other arguments.
+        dist = self.dist.dist
+        xk = tuple(getattr(dist, 'xk', ()))
+        pk = tuple(getattr(dist, 'pk', ()))
+        kwds = frozenset(self.dist.kwds.items())
+        return (dist.name, self.dist.args, kwds, xk, pk)
     def __hash__(self):
-        d = (self.dist.dist.name, self.dist.args, tuple(self.dist.kwds.items()))
+        d = self.get_dist_key()
         e = tuple(self.env.items())
         x = (self.__class__, self.symbol, d, self.support, self.conditioned, e)
         return hash(x)
     def __eq__(self, x):
         return isinstance(x, type(self)) \
             and self.symbol == x.symbol \
-            and self.dist.dist.name == x.dist.dist.name \
-            and self.dist.args == x.dist.args \
-            and self.dist.kwds == x.dist.kwds \
+            and self.get_dist_key() == x.get_dist_key() \
             and self.support == x.support \
             and self.conditioned == x.conditioned \
             and self.env == x.env
-- 
2.43.0


From 5e18daf1c6dd3c8e18a04ce55b853895928c65d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 26/51] fix: restore models with symbolic numbers

Restoring a saved model failed on, e.g., a support bounded by log(3) or pi/4,
or a transform with coefficient pi.
---
 src/compilers/spe_to_dict.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 671648b..247ce39 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -6,8 +6,10 @@
 from fractions import Fraction
 
 import scipy.stats
-from sympy import E
-from sympy import sqrt
+import sympy
+
+# Free symbol in the textual form of a root of a polynomial.
+from sympy.abc import x
 
 from ..spe import AtomicLeaf
 from ..spe import ContinuousLeaf
@@ -36,8 +38,11 @@ from ..transforms import EventAnd
 def env_from_dict(env):
     if env is None:
         return None
-    # Used in eval.
-    return {eval(k): eval(v) for k, v in env.items()}
+    return {eval_repr(k): eval_repr(v) for k, v in env.items()}
+
+def eval_repr(string):
+    # Numbers may be arbitrary SymPy expressions, e.g., log(3) or pi/4.
+    return eval(string, dict(vars(sympy)), globals())
 
 def env_to_dict(env):
     if len(env) == 1:
@@ -68,14 +73,14 @@ def spe_from_dict(metadata):
     if metadata['class'] == 'ContinuousLeaf':
         symbol = Id(metadata['symbol'])
         dist = scipy_dist_from_dict(metadata['dist'])
-        support = eval(metadata['support'])
+        support = eval_repr(metadata['support'])
         conditioned = metadata['conditioned']
         env = env_from_dict(metadata['env'])
         return ContinuousLeaf(symbol, dist, support, conditioned, env=env)
     if metadata['class'] == 'DiscreteLeaf':
         symbol = Id(metadata['symbol'])
         dist = scipy_dist_from_dict(metadata['dist'])
-        support = eval(metadata['support'])
+        support = eval_repr(metadata['support'])
         conditioned = metadata['conditioned']
         env = env_from_dict(metadata['env'])
         return DiscreteLeaf(symbol, dist, support, conditioned, env=env)
-- 
2.43.0


From 08acc0a0ffdc500a7506ecf211ae5f5dfb09e963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 27/51] fix: save the value of an atomic leaf as a float

The value of a constrained variable may be a SymPy or NumPy number, which
cannot be encoded in JSON; it is restored as a float already.
---
 src/compilers/spe_to_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 247ce39..2852c56 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -109,7 +109,7 @@ def spe_to_dict(spe):
         return {
             'class'        : 'AtomicLeaf',
             'symbol'       : spe.symbol.token,
-            'value'        : spe.value,
+            'value'        : float(spe.value),
             'env'          : env_to_dict(spe.env),
         }
     if isinstance(spe, ContinuousLeaf):
-- 
2.43.0


From 99dc1bc89527a1215622bc3c5281c94235dbbe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 28/51] fix: save the tables of discrete distributions

Models with distributions made by discrete, uniformd or rv_discrete could not
be restored.
---
 src/compilers/spe_to_dict.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 2852c56..68f237a 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -50,10 +50,16 @@ def env_to_dict(env):
     return {repr(k): repr(v) for k, v in env.items()}
 
 def scipy_dist_from_dict(dist):
+    if 'values' in dist:
+        return scipy.stats.rv_discrete(values=dist['values']).freeze()
     constructor = getattr(scipy.stats, dist['name'])
     return constructor(*dist['args'], **dist['kwds'])
 
 def scipy_dist_to_dict(dist):
+    if hasattr(dist.dist, 'xk'):
+        xk = tuple(float(v) for v in dist.dist.xk)
+        pk = tuple(float(v) for v in dist.dist.pk)
+        return {'name': dist.dist.name, 'values': (xk, pk)}
     return {
         'name': dist.dist.name,
         'args': dist.args,
-- 
2.43.0


From 70f25a77ce7ab442d32d95b44b8a1ae851258c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:23 +0000
Subject: [PATCH 29/51] fix: copy the parameters of a distribution when saving
 it

Changing the saved dictionary changed the model.
---
 src/compilers/spe_to_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compilers/spe_to_dict.py b/src/compilers/spe_to_dict.py
index 68f237a..993c76f 100644
--- a/src/compilers/spe_to_dict.py
+++ b/src/compilers/spe_to_dict.py
@@ -63,7 +63,7 @@ def scipy_dist_to_dict(dist):
     return {
         'name': dist.dist.name,
         'args': dist.args,
-        'kwds': dist.kwds
+        'kwds': dict(dist.kwds),
     }
 
 def spe_from_dict(metadata):
-- 
2.43.0


From 4fe4e170889f52565aeee3a7d99c3c6ffc6c9a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 30/51] fix: sample conditioned variables within their support

Samples in the right tail, e.g., of a standard normal X given X > 9, were all
infinite, and rounding errors could lead to a value just outside the support.
---
 src/spe.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index 7c770ae..1c38539 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -13,6 +13,8 @@ from math import exp
 from math import floor
 from math import log
 
+import numpy
+
 from .dnf import dnf_factor
 from .dnf import dnf_normalize
 from .dnf import dnf_to_disjoint_union
@@ -716,6 +718,8 @@ class RealLeaf(LeafSPE):
         self.xu = None
         self.Fl = None
         self.Fu = None
+        self.Sl = None
+        self.Su = None
         self.logFl = None
         self.logFu = None
         self.logZ = None
@@ -732,11 +736,17 @@ class RealLeaf(LeafSPE):
         if self.conditioned:
             # XXX Method not guaranteed to be numerically stable, see e.g,.
             # https://www.iro.umontreal.ca/~lecuyer/myftp/papers/truncated-normal-book-chapter.pdf
-            # Also consider using CDF for left tail and SF for right tail.
-            # Example: X ~ N(0,1) can sample X | (X < -10) but not X | (X > 10).
+            # Use CDF for left tail and SF for right tail.
+            # Example: X ~ N(0,1) can sample X | (X < -10) and X | (X > 10).
             u = random(prng).uniform(size=N)
-            u_interval = u*self.Fl + (1-u) * self.Fu
-            xs = self.dist.ppf(u_interval)
+            if self.Fl < 0.5:
+                u_interval = u*self.Fl + (1-u) * self.Fu
+                xs = self.dist.ppf(u_interval)
+            else:
+                u_interval = u*self.Sl + (1-u) * self.Su
+                xs = self.dist.isf(u_interval)
+            # Rounding errors may lead out of the support.
+            xs = numpy.clip(xs, *self.get_sample_bounds())
         else:
             # Simulation by vanilla inversion sampling.
             # SciPy keeps the generator and the size in the distribution while
@@ -863,6 +873,8 @@ class ContinuousLeaf(RealLeaf):
         if conditioned:
             self.Fl = self.dist.cdf(self.xl)
             self.Fu = self.dist.cdf(self.xu)
+            self.Sl = self.dist.sf(self.xl)
+            self.Su = self.dist.sf(self.xu)
             self.logFl = self.dist.logcdf(self.xl)
             self.logFu = self.dist.logcdf(self.xu)
             self.logZ = logdiffexp(self.logFu, self.logFl)
@@ -873,6 +885,9 @@ class ContinuousLeaf(RealLeaf):
             self.Fu = 1
             self.logZ = 1
 
+    def get_sample_bounds(self):
+        return (numpy.nextafter(self.xl, inf), numpy.nextafter(self.xu, -inf))
+
     def logpdf__(self, x):
         if isinstance(x, str):
             return -float('inf')
@@ -908,6 +923,8 @@ class DiscreteLeaf(RealLeaf):
         if conditioned:
             self.Fl = self.dist.cdf(self.xl - 1)
             self.Fu = self.dist.cdf(self.xu)
+            self.Sl = self.dist.sf(self.xl - 1)
+            self.Su = self.dist.sf(self.xu)
             self.logFl = self.dist.logcdf(self.xl - 1)
             self.logFu = self.dist.logcdf(self.xu)
             self.logZ = logdiffexp(self.logFu, self.logFl)
@@ -918,6 +935,9 @@ class DiscreteLeaf(RealLeaf):
             self.Fu = 1
             self.logZ = 1
 
+    def get_sample_bounds(self):
+        return (self.xl, self.xu)
+
     def logpdf__(self, x):
         if isinstance(x, str):
             return -float('inf')
-- 
2.43.0


From df93e3ae18dee06ec56db2617a649abf8d30f991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 31/51] fix: leave no stray files when rendering fails

If writing the graph or running dot failed, temporary files and partial
outputs were left behind.  Moreover, a file named like the requested outputs
but without the extension was overwritten and removed.
---
 magics/render.py | 35 ++++++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index 1aaa32f..ab33860 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -3,6 +3,7 @@
 
 import itertools
 import os
+import shutil
 import tempfile
 
 from math import exp
@@ -70,18 +71,30 @@ def render_networkx_graph(spe):
     assert False, 'Unknown SPE type: %s' % (spe,)
 
 def render_graphviz(spe, filename=None, ext=None, show=None):
-    fname = filename
-    if filename is None:
-        f = tempfile.NamedTemporaryFile(delete=False)
-        fname = f.name
     G = render_networkx_graph(spe)
     ext = ext or 'png'
     assert ext in ['png', 'pdf'], 'Extension must be .pdf or .png'
-    fname_dot = '%s.dot' % (fname,)
-    # nx.set_edge_attributes(G, 'serif', 'fontname')
-    # nx.set_node_attributes(G, 'serif', 'fontname')
-    nx.nx_agraph.write_dot(G, fname_dot)
-    source = graphviz.Source.from_file(fname_dot, format=ext)
-    source.render(filename=fname, view=show)
-    os.unlink(fname)
+    # Prepare the files in a fresh directory, then move them to filename.
+    dirname = tempfile.mkdtemp()
+    complete = False
+    try:
+        fname = os.path.join(dirname, 'graph')
+        fname_dot = '%s.dot' % (fname,)
+        # nx.set_edge_attributes(G, 'serif', 'fontname')
+        # nx.set_node_attributes(G, 'serif', 'fontname')
+        nx.nx_agraph.write_dot(G, fname_dot)
+        source = graphviz.Source.from_file(fname_dot, format=ext)
+        source.render(filename=fname)
+        os.unlink(fname)
+        if filename is not None:
+            for x in ['dot', ext]:
+                shutil.move('%s.%s' % (fname, x), '%s.%s' % (filename, x))
+            fname = filename
+        source.filename = fname
+        complete = True
+    finally:
+        if filename is not None or not complete:
+            shutil.rmtree(dirname, ignore_errors=True)
+    if show:
+        graphviz.view('%s.%s' % (fname, ext))
     return source
-- 
2.43.0


From edf1206b45dfd5da3e69027d50da228af2bf40c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 32/51] fix: give impossible outcomes of a nominal density zero

NominalLeaf.logpdf raised 'math domain error' for an outcome with weight zero,
such as one that was conditioned away.
---
 src/spe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 1c38539..21ccdbe 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -1043,7 +1043,7 @@ class NominalLeaf(LeafSPE):
         assert allclose(float(sum(self.weights)),  1)
 
     def logpdf__(self, x):
-        if x not in self.dist:
+        if x not in self.dist or self.dist[x] == 0:
             return -inf
         w = self.dist[x]
         return log(w.numerator) - log(w.denominator)
-- 
2.43.0


From d981984d81db5900ead682a662696eb031d38e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 33/51] fix: negate contradictory events on nominal variables

The conjunction of disjoint nominal events was rewritten to an event on real
numbers, whose negation does not hold for any string.
---
 src/transforms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transforms.py b/src/transforms.py
index 23bd490..6e47829 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -870,6 +870,9 @@ class EventBasic(Event):
             if event.subexpr == self.subexpr:
                 intersection = self.values & event.values
                 if intersection is EmptySet:
+                    if isinstance(self, EventFiniteNominal) \
+                            and isinstance(event, EventFiniteNominal):
+                        return EventFiniteNominal(self.subexpr, EmptySet)
                     return EventFiniteReal(self.subexpr, EmptySet)
                 if isinstance(intersection, FiniteReal):
                     return EventFiniteReal(self.subexpr, intersection)
@@ -1074,7 +1077,7 @@ class EventFiniteNominal(EventBasic):
     def __str__(self):
         return '%s << %s' % (str(self.subexpr), str(self.values))
     def __invert__(self):
-        values_not = ~self.values
+        values_not = Strings if self.values is EmptySet else ~self.values
         return EventFiniteNominal(self.subexpr, values_not)
 
 class EventCompound(Event):
-- 
2.43.0


From 891b0a37b0e66b6e7da0e4e7dd5405879e10fbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 34/51] fix: join intervals that were made by SymPy

Their bounds are open or closed by SymPy's booleans, which cannot be ordered
with Python's.
---
 src/sets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index c15833f..63241e6 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -178,8 +178,8 @@ class Interval(Set):
         assert a < b
         self.a = a
         self.b = b
-        self.left_open = left_open or isinf_neg(self.a)
-        self.right_open = right_open or isinf_pos(self.b)
+        self.left_open = bool(left_open or isinf_neg(self.a))
+        self.right_open = bool(right_open or isinf_pos(self.b))
         # SymPy compatibility.
         (self.left, self.right) = (a, b)
     def __contains__(self, x):
-- 
2.43.0


From 2e35417cc2cc7bcf6bd96e84595b8eccdab80a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 35/51] fix: solve numerically when SymPy fails to solve

Symbolic solving may raise NoConvergence, e.g., for 2*X**2 - 2.75*X + 1.5 <= 5.5.
---
 src/poly.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/poly.py b/src/poly.py
index 7c67011..8ff056a 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -8,6 +8,7 @@ from math import isinf
 
 import sympy
 
+from mpmath.libmp.libhyper import NoConvergence
 from sympy.calculus.util import limit
 from sympy.core.cache import clear_cache
 
@@ -39,7 +40,7 @@ def get_poly_zeros(expr, symX):
             (a, b) = factor.all_coeffs()
             zeros.append(-b/a)
         else:
-            zeros.extend([r for r in factor.nroots() if r.is_real])
+            zeros.extend([r for r in factor.nroots(maxsteps=500) if r.is_real])
     return sorted(zeros)
 
 def is_explicit(result):
@@ -67,6 +68,9 @@ def solve_poly_inequality(expr, b, strict, extended=None):
         # Discard partial results that SymPy cached when interrupted.
         clear_cache()
         result_symbolic = None
+    except (NoConvergence, NotImplementedError):
+        # SymPy cannot solve it.
+        result_symbolic = None
     if result_symbolic is not None:
         if is_explicit(result_symbolic):
             return convert_sympy(result_symbolic)
@@ -140,6 +144,9 @@ def solve_poly_equality(expr, b):
         # Discard partial results that SymPy cached when interrupted.
         clear_cache()
         result_symbolic = None
+    except (NoConvergence, NotImplementedError):
+        # SymPy cannot solve it.
+        result_symbolic = None
     if result_symbolic is not None:
         if is_explicit(result_symbolic):
             return convert_sympy(result_symbolic)
-- 
2.43.0


From 76331ed4dec3a43409021834151b1f234c782b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 36/51] fix: condition discrete variables on a solution of a
 polynomial

Range raised a TypeError on a single number that is a sympy.Float.
---
 src/sets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sets.py b/src/sets.py
index 63241e6..2865be3 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -420,7 +420,7 @@ def Range(start, stop):
     assert int_or_isinf_neg(start)
     assert int_or_isinf_pos(stop)
     right_open = start == stop
-    return Interval(start, stop + right_open, right_open=(start == stop))
+    return Interval(start, stop + int(right_open), right_open=right_open)
 
 # TODO: Expunge.
 def convert_sympy(x):
-- 
2.43.0


From c6591648599e86bf31ad9e5912e47e3b261608fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 37/51] fix: condition continuous variables on intervals and
 points

Conditioning on, e.g., (X < 0) | (X << {1}) failed with an AssertionError.
---
 src/spe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 21ccdbe..1d23ac1 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -794,7 +794,9 @@ class RealLeaf(LeafSPE):
         if isinstance(values, Interval):
             return [values]
         if isinstance(values, FiniteReal):
-            assert isinstance(self, DiscreteLeaf)
+            # Points have probability zero under a continuous distribution.
+            if not isinstance(self, DiscreteLeaf):
+                return []
             blocks = partition_finite_real_contiguous(values)
             return [Range(min(v), max(v)) for v in blocks]
         if isinstance(values, Union):
-- 
2.43.0


From 838403493ea2f0dcfdf7d8a10839c793871a5901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:59 +0000
Subject: [PATCH 38/51] fix: simplify mixtures of leaves and products

If a variable is a transform in the first branch and sampled in the second,
the mixture of a leaf and a product failed with an AssertionError.
---
 src/spe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spe.py b/src/spe.py
index 1d23ac1..df5d472 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -371,7 +371,9 @@ def spe_simplify_sum(spe):
     assert False, 'Invalid children of SumSPE: %s' % (spe.children,)
 
 def spe_simplify_sum_leaf(spe):
-    assert all(isinstance(c, LeafSPE) for c in spe.children)
+    # The other children may be products, cf. spe_simplify_sum_product.
+    if not all(isinstance(c, LeafSPE) for c in spe.children):
+        return spe
     partition = partition_list_blocks(spe.children)
     if len(partition) == len(spe.children):
         return spe
-- 
2.43.0


From 30d013bfdab0f976abccb28d59eafeb5b2471f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:41 +0000
Subject: [PATCH 39/51] fix: intersect a union and an interval that touch in a
 point

---
 src/sets.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 2865be3..bbcd1c9 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -321,16 +321,9 @@ class Union(Set):
             return self.nominals & x
         if isinstance(x, (FiniteReal, Interval)):
             atoms = self.atoms & x
+            # An intersection with an interval may be a single point.
             intervals = [i & x for i in self.intervals]
-            intervalsne = [i for i in intervals if i is not EmptySet]
-            if atoms is EmptySet:
-                if not intervalsne:
-                    return EmptySet
-                if len(intervalsne) == 1:
-                    return intervalsne[0]
-            if not intervalsne:
-                return atoms
-            return Union(atoms, *intervalsne)
+            return reduce(lambda a,b: a | b, intervals, atoms)
         if isinstance(x, Union):
             terms = [self & v for v in x.values]
             return reduce(lambda a,b: a |b, terms)
-- 
2.43.0


From b08463e6ca21c5b2f6e527bbe995030b036ced28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 40/51] fix: sample distributions that have counts as
 parameters

---
 src/distributions.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/distributions.py b/src/distributions.py
index d1816f0..5c1837c 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -600,8 +600,15 @@ from .sets import IntegersPos0
 from .sets import Range
 from .spe import DiscreteLeaf
 
+def integerify(x):
+    return int(x) if isinstance(x, float) and x.is_integer() else x
+
 class DiscreteReal(RealDistribution):
     constructor = DiscreteLeaf
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        # NumPy rejects arrays of floats as counts, when sampling.
+        self.kwargs = {k: integerify(v) for k, v in self.kwargs.items()}
 
 class bernoulli(DiscreteReal):
     """A Bernoulli discrete random variable."""
-- 
2.43.0


From 14603ac493c33c3bdc3b9284e5217e264510cd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 41/51] fix: support of a hypergeometric variable

---
 src/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distributions.py b/src/distributions.py
index 5c1837c..1773825 100644
--- a/src/distributions.py
+++ b/src/distributions.py
@@ -644,7 +644,7 @@ class hypergeom(DiscreteReal):
     """A hypergeometric discrete random variable."""
     dist = scipy.stats.hypergeom
     def get_domain(self):
-        low = max(0, self.kwargs['N'], self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
+        low = max(0, self.kwargs['N']-self.kwargs['M']+self.kwargs['n'])
         high = min(self.kwargs['n'], self.kwargs['N'])
         return Range(low, high)
 
-- 
2.43.0


From 821521ddeb91d913bfa94bb7fe8aa3db3817cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 42/51] fix: mutual information when an event has probability
 one

---
 src/spe.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/spe.py b/src/spe.py
index df5d472..b4f268b 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -101,11 +101,14 @@ class SPE():
         lp01 = self.logprob(~A & B, memo)
         # lp00 = self.logprob(~A & ~B, memo)
         lp00 = logdiffexp(0, logsumexp([lp11, lp10, lp01]))
-        m11 = exp(lp11) * (lp11 - (lpA1 + lpB1)) if not isinf_neg(lp11) else 0
-        m10 = exp(lp10) * (lp10 - (lpA1 + lpB0)) if not isinf_neg(lp10) else 0
-        m01 = exp(lp01) * (lp01 - (lpA0 + lpB1)) if not isinf_neg(lp01) else 0
-        m00 = exp(lp00) * (lp00 - (lpA0 + lpB0)) if not isinf_neg(lp00) else 0
-        return m11 + m10 + m01 + m00
+        def term(lp, lpA, lpB):
+            # A joint probability is zero whenever a marginal is zero, even if
+            # rounding errors leave a tiny remainder.
+            if isinf_neg(lp) or isinf_neg(lpA) or isinf_neg(lpB):
+                return 0
+            return exp(lp) * (lp - (lpA + lpB))
+        return term(lp11, lpA1, lpB1) + term(lp10, lpA1, lpB0) \
+            + term(lp01, lpA0, lpB1) + term(lp00, lpA0, lpB0)
     def prob(self, event):
         lp = self.logprob(event)
         return exp(lp)
-- 
2.43.0


From de93b36e9d9e6fd3fad3c96a8e28884df2e8b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:54 +0000
Subject: [PATCH 43/51] fix: conditioned samples at the ends of the interval

---
 src/spe.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index b4f268b..d010f7c 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -746,9 +746,19 @@ class RealLeaf(LeafSPE):
             u = random(prng).uniform(size=N)
             if self.Fl < 0.5:
                 u_interval = u*self.Fl + (1-u) * self.Fu
+                # Stay inside of (Fl, 1): the inverse of Fl may be below the
+                # support and the inverse of one may be infinite.
+                u_interval = numpy.clip(u_interval,
+                    numpy.nextafter(self.Fl, 1), numpy.nextafter(1, 0))
                 xs = self.dist.ppf(u_interval)
             else:
                 u_interval = u*self.Sl + (1-u) * self.Su
+                # Stay inside of (0, Sl), as above; for discrete distributions
+                # isf(q) is obtained from ppf(1-q).
+                finfo = numpy.finfo(float)
+                eps = finfo.epsneg if self.atomic else 0
+                u_interval = numpy.minimum(u_interval, self.Sl - eps)
+                u_interval = numpy.maximum(u_interval, max(eps, finfo.tiny))
                 xs = self.dist.isf(u_interval)
             # Rounding errors may lead out of the support.
             xs = numpy.clip(xs, *self.get_sample_bounds())
-- 
2.43.0


From 9fd3cf114899dc288659d421cead389b1e629c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 44/51] fix: show the variables derived from an atom in graphs

---
 magics/render.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index ab33860..168fa9c 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -20,6 +20,14 @@ from sppl.spe import SumSPE
 counter = itertools.count()
 gensym = lambda: 'r%d' % (next(counter),)
 
+def render_derived(G, root, spe):
+    # Add a node for each variable derived from that of a leaf.
+    for k, v in spe.env.items():
+        if k != spe.symbol:
+            roott = gensym()
+            G.add_node(roott, label=str(v), style='filled')
+            G.add_edge(root, roott, label=' %s' % (str(k),), style='dashed')
+
 def render_networkx_graph(spe):
     if isinstance(spe, NominalLeaf):
         G = nx.DiGraph()
@@ -31,18 +39,14 @@ def render_networkx_graph(spe):
         root = gensym()
         G.add_node(root, label='%s\n%s(%s)'
             % (spe.symbol.token, 'Atomic', str(spe.value)))
+        render_derived(G, root, spe)
         return G
     if isinstance(spe, RealLeaf):
         G = nx.DiGraph()
         root = gensym()
         kwds = '\n%s' % (tuple(spe.dist.kwds.values()),) if spe.dist.kwds else ''
         G.add_node(root, label='%s\n%s%s' % (spe.symbol.token, spe.dist.dist.name, kwds))
-        if len(spe.env) > 1:
-            for k, v in spe.env.items():
-                if k != spe.symbol:
-                    roott = gensym()
-                    G.add_node(roott, label=str(v), style='filled')
-                    G.add_edge(root, roott, label=' %s' % (str(k),), style='dashed')
+        render_derived(G, root, spe)
         return G
     if isinstance(spe, SumSPE):
         G = nx.DiGraph()
-- 
2.43.0


From c6fbadebeb883f9cc5e3b55e8c240d5db9aaeff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 45/51] fix: leave no stray files when viewing a rendering
 fails

---
 magics/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/magics/render.py b/magics/render.py
index 168fa9c..736a05d 100644
--- a/magics/render.py
+++ b/magics/render.py
@@ -95,10 +95,10 @@ def render_graphviz(spe, filename=None, ext=None, show=None):
                 shutil.move('%s.%s' % (fname, x), '%s.%s' % (filename, x))
             fname = filename
         source.filename = fname
+        if show:
+            graphviz.view('%s.%s' % (fname, ext))
         complete = True
     finally:
         if filename is not None or not complete:
             shutil.rmtree(dirname, ignore_errors=True)
-    if show:
-        graphviz.view('%s.%s' % (fname, ext))
     return source
-- 
2.43.0


From 84add7183b6f52274212395eb53e6e790ccce37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 46/51] fix: bound the time and handle failures of solving for
 the range of a polynomial

---
 src/poly.py       | 32 ++++++++++++++++++++++++++++++--
 src/transforms.py | 10 +++++-----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index 8ff056a..2072af2 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -9,6 +9,7 @@ from math import isinf
 import sympy
 
 from mpmath.libmp.libhyper import NoConvergence
+from sympy.calculus.util import function_range
 from sympy.calculus.util import limit
 from sympy.core.cache import clear_cache
 
@@ -25,6 +26,9 @@ from .timeout import timeout
 
 TIMEOUT_SYMBOLIC = 5
 
+# Raised by SymPy when it cannot solve, or chokes on irrational coefficients.
+SOLVER_ERRORS = (NoConvergence, NotImplementedError, ValueError)
+
 def get_poly_symbol(expr):
     symbols = tuple(get_symbols(expr))
     assert len(symbols) == 1
@@ -68,7 +72,7 @@ def solve_poly_inequality(expr, b, strict, extended=None):
         # Discard partial results that SymPy cached when interrupted.
         clear_cache()
         result_symbolic = None
-    except (NoConvergence, NotImplementedError):
+    except SOLVER_ERRORS:
         # SymPy cannot solve it.
         result_symbolic = None
     if result_symbolic is not None:
@@ -144,7 +148,7 @@ def solve_poly_equality(expr, b):
         # Discard partial results that SymPy cached when interrupted.
         clear_cache()
         result_symbolic = None
-    except (NoConvergence, NotImplementedError):
+    except SOLVER_ERRORS:
         # SymPy cannot solve it.
         result_symbolic = None
     if result_symbolic is not None:
@@ -175,3 +179,27 @@ def solve_poly_equality_inf(expr, b):
     if check_equal(val_neg_inf):
         return FiniteReal(-oo)
     return EmptySet
+
+# ==============================================================================
+# Solving for the range.
+
+def solve_poly_range(expr, symX):
+    # A superset of the range suffices for solving, since values outside of the
+    # range have no solutions.  Approximate bounds would exclude some values.
+    if os.environ.get('SPPL_NO_SYMBOLIC'):
+        return Reals
+    # Solve symbolically, if possible.
+    try:
+        with timeout(seconds=TIMEOUT_SYMBOLIC):
+            result_symbolic = function_range(expr, symX, sympy.Reals)
+    except TimeoutError:
+        # Discard partial results that SymPy cached when interrupted.
+        clear_cache()
+        result_symbolic = None
+    except SOLVER_ERRORS:
+        # SymPy cannot solve it.
+        result_symbolic = None
+    if result_symbolic is not None:
+        if is_explicit(result_symbolic):
+            return convert_sympy(result_symbolic)
+    return Reals
diff --git a/src/transforms.py b/src/transforms.py
index 6e47829..3dfbde4 100644
--- a/src/transforms.py
+++ b/src/transforms.py
@@ -11,7 +11,6 @@ import sympy
 
 from sympy.abc import X as symX
 
-from sympy.calculus.util import function_range
 from sympy.calculus.util import limit
 
 from .math_util import isinf_neg
@@ -19,6 +18,7 @@ from .math_util import isinf_pos
 
 from .poly import solve_poly_equality
 from .poly import solve_poly_inequality
+from .poly import solve_poly_range
 
 from .sets import EmptySet
 from .sets import ExtReals
@@ -636,12 +636,12 @@ class Poly(Transform):
     def domain(self):
         return ExtReals
     def range(self):
-        result = function_range(self.symexpr, symX, sympy.Reals)
-        if isinstance(result, sympy.FiniteSet):
-            return FiniteReal(*[float(x) for x in result.args])
+        result = solve_poly_range(self.symexpr, symX)
+        if isinstance(result, FiniteReal):
+            return FiniteReal(*[float(x) for x in result])
         pos_inf = FiniteReal(oo) if result.right == oo else EmptySet
         neg_inf = FiniteReal(-oo) if result.left == -oo else EmptySet
-        return make_union(convert_sympy(result), pos_inf, neg_inf)
+        return make_union(result, pos_inf, neg_inf)
     def subs(self, env):
         if not expr_in_env(self, env):
             return self
-- 
2.43.0


From 09e316423cddddc25334b0100f2a165d8b50d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:20 +0000
Subject: [PATCH 47/51] fix: keep infinity in a union with an unbounded
 interval

---
 src/sets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index bbcd1c9..6c59535 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -138,15 +138,17 @@ class FiniteReal(Set):
             values = self.values | x.values
             return FiniteReal(*values)
         if isinstance(x, Interval):
-            # Merge endpoints.
+            # Merge finite endpoints.
             values = set(self.values)
             interval = x
-            if interval.a in values and interval.left_open:
+            if interval.a in values and not isinf_neg(interval.a) \
+                    and interval.left_open:
                 values.remove(interval.a)
                 interval = Interval(interval.a, interval.b,
                     left_open=None,
                     right_open=interval.right_open)
-            if interval.b in values and interval.right_open:
+            if interval.b in values and not isinf_pos(interval.b) \
+                    and interval.right_open:
                 values.remove(interval.b)
                 interval = Interval(interval.a, interval.b,
                     left_open=interval.left_open,
-- 
2.43.0


From 6441b24042e70e0bd3e2b601bfc527d7c1a3a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 48/51] fix: solve polynomials with floats numerically

---
 src/poly.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/poly.py b/src/poly.py
index 2072af2..da62230 100644
--- a/src/poly.py
+++ b/src/poly.py
@@ -54,6 +54,10 @@ def is_explicit(result):
     return result is sympy.S.EmptySet \
         or isinstance(result, (sympy.Interval, sympy.FiniteSet))
 
+def use_symbolic(expr):
+    # SymPy solves inexactly with floats, e.g., it may split a repeated root.
+    return not os.environ.get('SPPL_NO_SYMBOLIC') and not expr.has(sympy.Float)
+
 # ==============================================================================
 # Solving inequalities.
 
@@ -62,7 +66,7 @@ def solve_poly_inequality(expr, b, strict, extended=None):
     if isinf(b):
         return solve_poly_inequality_inf(expr, b, strict, extended=extended)
     # Bypass symbolic inference.
-    if os.environ.get('SPPL_NO_SYMBOLIC'):
+    if not use_symbolic(expr - b):
         return solve_poly_inequality_numerically(expr, b, strict)
     # Solve symbolically, if possible.
     try:
@@ -138,7 +142,7 @@ def solve_poly_equality(expr, b):
     if isinf(b):
         return solve_poly_equality_inf(expr, b)
     # Bypass symbolic inference.
-    if os.environ.get('SPPL_NO_SYMBOLIC'):
+    if not use_symbolic(expr - b):
         return solve_poly_equality_numerically(expr, b)
     # Solve symbolically, if possible.
     try:
@@ -186,7 +190,7 @@ def solve_poly_equality_inf(expr, b):
 def solve_poly_range(expr, symX):
     # A superset of the range suffices for solving, since values outside of the
     # range have no solutions.  Approximate bounds would exclude some values.
-    if os.environ.get('SPPL_NO_SYMBOLIC'):
+    if not use_symbolic(expr):
         return Reals
     # Solve symbolically, if possible.
     try:
-- 
2.43.0


From 64bd4d34573467d61f1504cd7ec6087ce729a322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 49/51] fix: do not bring a pending alarm forward by the time
 taken to stop it

---
 src/timeout.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/timeout.py b/src/timeout.py
index f014c80..dbf9611 100644
--- a/src/timeout.py
+++ b/src/timeout.py
@@ -32,8 +32,9 @@ class timeout:
         # Signals are only available, and only delivered, in the main thread.
         if threading.current_thread() is not threading.main_thread():
             return
-        self.start = time.monotonic()
+        # Read the clock last, since a pending alarm may be late but not early.
         self.pending = signal.setitimer(signal.ITIMER_REAL, 0)
+        self.start = time.monotonic()
         self.handler = signal.getsignal(signal.SIGALRM)
         self.active = True
         signal.signal(signal.SIGALRM, self.handle_timeout)
-- 
2.43.0


From 9b1e0688089eac9b37fa64bfacd12fc87176e975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 50/51] fix: iterate over the parts of a union in order

---
 src/sets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sets.py b/src/sets.py
index 6c59535..5a68735 100644
--- a/src/sets.py
+++ b/src/sets.py
@@ -291,7 +291,9 @@ class Union(Set):
         assert len(atoms) <= 1
         self.nominals = nominals[0] if nominals else EmptySet
         self.atoms = atoms[0] if atoms else EmptySet
-        self.intervals = frozenset(x for x in valuesne if isinstance(x, Interval))
+        intervals = sorted(
+            [x for x in valuesne if isinstance(x, Interval)], key=lambda i: i.a)
+        self.intervals = frozenset(intervals)
         # Build the values.
         vals = []
         if nominals:
@@ -302,8 +304,8 @@ class Union(Set):
             vals.append(i)
         self.values = frozenset(vals)
         assert 2 <= len(self.values)
-        # SymPy compatibility
-        self.args = valuesne
+        # SymPy compatibility (in order, not in that of the hashes).
+        self.args = nominals + atoms + intervals
     def __contains__(self, x):
         return any(x in v for v in self.values)
     def __eq__(self, x):
-- 
2.43.0


From fd32d3496ac3c413bf810383260fd067c74419c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 51/51] fix: sample integers from discrete distributions

---
 src/spe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spe.py b/src/spe.py
index d010f7c..1217bf9 100644
--- a/src/spe.py
+++ b/src/spe.py
@@ -955,6 +955,12 @@ class DiscreteLeaf(RealLeaf):
     def get_sample_bounds(self):
         return (self.xl, self.xu)
 
+    def sample__(self, N, prng):
+        # SciPy returns floats for the inverse of the distribution function,
+        # use integers so that the values of derived variables are exact.
+        samples = super().sample__(N, prng)
+        return [{self.symbol: float_to_int(s[self.symbol])} for s in samples]
+
     def logpdf__(self, x):
         if isinstance(x, str):
             return -float('inf')
-- 
2.43.0

