"""Smaller programs, events and lists, for minimisation."""

def lists(xs, least=0):
    n = len(xs)
    for size in (128, 64, 32, 16, 8, 4, 2, 1):
        if size > n:
            continue
        for i in range(0, n, size):
            r = xs[:i] + xs[i+size:]
            if len(r) >= least:
                yield r

def events(ev):
    if ev is True:
        return
    if ev[0] in ('and', 'or'):
        for x in ev[1:]:
            yield x
        for i, x in enumerate(ev[1:]):
            for y in events(x):
                yield ev[:1+i] + [y] + ev[2+i:]
    elif ev[0] == 'not':
        yield ev[1]
        for y in events(ev[1]):
            yield ['not', y]
    elif ev[0] in ('in', 'notin'):
        if len(ev[2]) > 1:
            for i in range(len(ev[2])):
                yield [ev[0], ev[1], ev[2][:i] + ev[2][i+1:]]
        for e in exprs(ev[1]):
            yield [ev[0], e, ev[2]]
    elif ev[0] == 'cmp':
        for e in exprs(ev[1]):
            yield ['cmp', e, ev[2], ev[3]]
    elif ev[0] == 'range':
        yield ['cmp', ev[3], '<', ev[4]]
        yield ['cmp', ev[3], '>', ev[1]]

def exprs(e):
    if e[0] == 'v':
        return
    if e[0] == 'pw':
        for sub, _ev in e[1]:
            yield sub
    else:
        yield e[2] if e[0] == 'expb' else e[1]
    if e[0] == 'poly':
        for i, c in enumerate(e[2]):
            if c not in (0, 1):
                cs = list(e[2])
                cs[i] = 1 if i == len(cs) - 1 else 0
                yield ['poly', e[1], cs]

def dists(d):
    if d[0] == 'mix':
        for _w, c in d[1]:
            yield c
    elif d[0] not in ('choice', 'norm'):
        yield ['norm', {'loc': 0, 'scale': 1}]

def statements(s):
    t = s[0]
    if t == 'sample':
        for d in dists(s[2]):
            yield ['sample', s[1], d]
    elif t == 'transform':
        for e in exprs(s[2]):
            yield ['transform', s[1], e]
    elif t == 'condition':
        for ev in events(s[1]):
            yield ['condition', ev]
    elif t == 'constrain':
        if len(s[1]) > 1:
            for i in range(len(s[1])):
                yield ['constrain', s[1][:i] + s[1][i+1:]]
    elif t == 'if':
        branches = s[1]
        if len(branches) > 2:
            for i in range(len(branches) - 1):
                yield ['if', branches[:i] + branches[i+1:]]
        for i, (test, body) in enumerate(branches):
            for ev in events(test):
                yield ['if', branches[:i] + [[ev, body]] + branches[i+1:]]
            for j, b in enumerate(body):
                for c in statements(b):
                    yield ['if', branches[:i] + [[test, body[:j] + [c] + body[j+1:]]]
                        + branches[i+1:]]
        n = min(len(b) for _t, b in branches)
        if n > 1:
            for j in range(n):
                yield ['if', [[test, b[:j] + b[j+1:]] for test, b in branches]]

def programs(p):
    st = p['stmts']
    for r in lists(st, 1):
        yield dict(p, stmts=r)
    for i, s in enumerate(st):
        if s[0] == 'if':
            for _t, body in s[1]:
                yield dict(p, stmts=st[:i] + body + st[i+1:])
    for i, s in enumerate(st):
        for c in statements(s):
            yield dict(p, stmts=st[:i] + [c] + st[i+1:])

def ops(ops_):
    """Histories (see work.py)."""
    yield from lists(ops_)
    for i, op in enumerate(ops_):
        if op[0] == 'build':
            for p in programs(op[1]):
                yield ops_[:i] + [['build', p] + op[2:]] + ops_[i+1:]
        elif op[0] in ('prob', 'cond'):
            for ev in events(op[2]):
                yield ops_[:i] + [[op[0], op[1], ev] + op[3:]] + ops_[i+1:]
        elif op[0] in ('logpdf', 'cons') and len(op[2]) > 1:
            for j in range(len(op[2])):
                yield ops_[:i] + [[op[0], op[1], op[2][:j] + op[2][j+1:]]
                    + op[3:]] + ops_[i+1:]
        elif op[0] == 'mi':
            for ev in events(op[2]):
                yield ops_[:i] + [op[:2] + [ev] + op[3:]] + ops_[i+1:]
            for ev in events(op[3]):
                yield ops_[:i] + [op[:3] + [ev] + op[4:]] + ops_[i+1:]

def queries(qs):
    yield from lists(qs, 1)
    for i, q in enumerate(qs):
        for j in (1, 2):
            if len(q) > j and q[0] != 'logpdf' and not (q[0] == 'cons' and j == 1):
                for ev in events(q[j]):
                    yield qs[:i] + [q[:j] + [ev] + q[j+1:]] + qs[i+1:]
