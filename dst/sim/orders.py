"""Seeded iteration order of sets in the package under test.

The package is compiled from a tree in which sets are made by, and iterated
through, functions of this module: displays, comprehensions and calls of set and
frozenset give sets with a seeded order, and every place that iterates (loops,
comprehensions, starred arguments, arguments of builtins) sees sets from
elsewhere in a seeded order."""

import ast
import builtins
import importlib.abc
import importlib.machinery
import random
import sys

SEED = None                 # None: the order of the interpreter
SALT = 0                    # of hashes
COUNT = 0
PERMUTED = 0

_set = builtins.set
_frozenset = builtins.frozenset

def activate(seed, salt):
    global SEED, SALT, COUNT, PERMUTED
    (SEED, SALT, COUNT, PERMUTED) = (seed, salt, 0, 0)

def _order(xs, salt):
    global PERMUTED
    if SEED is None or len(xs) < 2:
        return xs
    PERMUTED += 1
    random.Random('%s %s' % (SEED, salt)).shuffle(xs)
    return xs

class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.__mro__[-2])
    def __subclasscheck__(cls, c):
        return issubclass(c, cls.__mro__[-2])

def _wrap(cls, base, name):
    real = getattr(base, name, None)
    if real is None:
        return
    def f(self, *args):
        r = real(self, *args)
        return cls(r) if type(r) is base else r
    f.__name__ = name
    setattr(cls, name, f)

def _make(base, name):
    def __iter__(self):
        global COUNT
        xs = list(base.__iter__(self))
        if SEED is None:
            return iter(xs)
        s = self.__dict__.get('_salt')
        if s is None:
            COUNT += 1
            s = self.__dict__['_salt'] = COUNT
        return iter(_order(xs, s))
    def __repr__(self):
        xs = ', '.join(repr(x) for x in self)
        if not xs:
            return '%s()' % (name,)
        return '{%s}' % (xs,) if base is _set else 'frozenset({%s})' % (xs,)
    cls = _Meta(name, (base,), {'__iter__': __iter__, '__repr__': __repr__,
        '__str__': __repr__, '__reduce__': lambda self: (base, (list(self),))})
    for n in ('__or__', '__ror__', '__and__', '__rand__', '__sub__', '__rsub__',
            '__xor__', '__rxor__', 'union', 'intersection', 'difference',
            'symmetric_difference', 'copy'):
        _wrap(cls, base, n)
    if base is _set:
        def pop(self):
            for x in self:
                self.discard(x)
                return x
            return base.pop(self)
        cls.pop = pop
    return cls

Set = _make(_set, 'set')
Frozenset = _make(_frozenset, 'frozenset')

def through(x):
    """What an iteration over x iterates over."""
    if SEED is not None and (type(x) is _set or type(x) is _frozenset):
        return _order(list(x), len(x))
    return x

def salted(x):
    h = builtins.hash(x)
    if not SALT or isinstance(x, (int, float, complex)):
        return h
    return hash((SALT, h))

ITERATE = _frozenset(['list', 'tuple', 'sorted', 'enumerate', 'zip', 'map', 'filter',
    'iter', 'min', 'max', 'sum', 'any', 'all', 'reversed', 'dict', 'OrderedDict',
    'chain', 'product', 'combinations', 'permutations', 'reduce', 'join', 'array',
    'fromkeys', 'from_iterable', 'extend', 'groupby'])
NAMES = {'set': '__dst_set__', 'frozenset': '__dst_frozenset__', 'hash': '__dst_hash__'}

class Rewrite(ast.NodeTransformer):
    def through(self, node):
        return ast.copy_location(ast.Call(ast.copy_location(
            ast.Name('__dst_through__', ast.Load()), node), [node], []), node)
    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in NAMES:
            return ast.copy_location(ast.Name(NAMES[node.id], ast.Load()), node)
        return node
    def visit_Set(self, node):
        self.generic_visit(node)
        return self.make(node, ast.List(node.elts, ast.Load()))
    def visit_SetComp(self, node):
        self.generic_visit(node)
        return self.make(node, ast.ListComp(node.elt, node.generators))
    def make(self, node, arg):
        f = ast.copy_location(ast.Name('__dst_set__', ast.Load()), node)
        return ast.copy_location(ast.Call(f, [ast.copy_location(arg, node)], []), node)
    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = self.through(node.iter)
        return node
    def visit_comprehension(self, node):
        self.generic_visit(node)
        node.iter = self.through(node.iter)
        return node
    def visit_Starred(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            node.value = self.through(node.value)
        return node
    def visit_Assign(self, node):
        self.generic_visit(node)
        if any(isinstance(t, (ast.Tuple, ast.List)) for t in node.targets):
            node.value = self.through(node.value)
        return node
    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        name = f.id if isinstance(f, ast.Name) else f.attr \
            if isinstance(f, ast.Attribute) else None
        if name in ITERATE:
            node.args = [a if isinstance(a, ast.Starred) else self.through(a)
                for a in node.args]
        return node

class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, **kw):
        tree = ast.parse(data, path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        return compile(tree, path, 'exec', dont_inherit=True)
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] != 'sppl':
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader,
                importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec

def install():
    """Before the package is imported."""
    assert 'sppl' not in sys.modules
    builtins.__dst_set__ = Set
    builtins.__dst_frozenset__ = Frozenset
    builtins.__dst_through__ = through
    builtins.__dst_hash__ = salted
    sys.meta_path.insert(0, Finder())
