"""Names injected in the modules of the package under test: hash, id, set and
frozenset, which decide addresses, collisions and iteration order."""

import builtins
import gc
import sys
import weakref

def modules(package='sppl'):
    return [m for n, m in sorted(sys.modules.items())
        if m is not None and (n == package or n.startswith(package + '.'))
        and '.tests' not in n]

def inject(**names):
    """Set names in all modules; a module that defines the name keeps its own."""
    old = []
    for m in modules():
        d = vars(m)
        for k, v in names.items():
            if k in d and not getattr(d[k], '_injected', False) \
                    and d[k] is not getattr(builtins, k, None):
                continue
            old.append((d, k, d.get(k)))
            d[k] = v
    return old

class Collide():
    """hash() with many collisions, consistent with equality."""
    _injected = True
    def __init__(self, modulus):
        self.modulus = modulus
        self.calls = 0
    def __call__(self, x):
        self.calls += 1
        h = builtins.hash(x)
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return h
        return h % self.modulus

class Addresses():
    """id() with a simulated allocator, which reuses the addresses of objects
    that are gone as soon as possible."""
    _injected = True
    def __init__(self):
        self.table = {}         # real id -> (weak reference, address, type)
        self.free = {}          # type -> addresses
        self.next = 0x7f0000
        self.reused = 0
        self.calls = 0
    def __call__(self, x):
        self.calls += 1
        key = builtins.id(x)
        got = self.table.get(key)
        if got is not None and got[0]() is x:
            return got[1]
        try:
            w = weakref.ref(x)
        except TypeError:
            return key
        if got is not None:
            # The object is gone and the interpreter reused its identity.
            self.free.setdefault(got[2], []).append(got[1])
        # Like allocators with size classes: first the places of objects of
        # the same type, in the order in which they were taken.
        t = type(x).__name__
        if self.free.get(t):
            a = self.free[t].pop(0)
            self.reused += 1
        else:
            a = self.next
            self.next += 16
        self.table[key] = (w, a, t)
        return a
    def collect(self):
        gc.collect()
        gc.collect()
        for key in sorted(self.table, key=lambda k: self.table[k][1]):
            (w, a, t) = self.table[key]
            if w() is None:
                del self.table[key]
                self.free.setdefault(t, []).append(a)
