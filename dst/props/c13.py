"""C13: the notebook session tracks the last definition of each model.

A history of cells is run in a real IPython shell with the extension loaded:
definitions, redefinitions, cells that fail at any stage, interrupted cells,
look-ups and displays.  A reference session keeps the program of each name."""

import builtins
import contextlib
import io
import math
import os

from sim import api as api_
from sim import core
from sim import drawtool
from sim import prog
from sim import shrink as shrink_
from sim import work
from sim.abort import KINDS
from sim.core import Tracer
from sim.core import twin

RUNS = {'quick': 480, 'thorough': 6000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded history of 6 to 16 notebook cells over 1 to 4 names. It is '
    'non-trivial when a cell failed or was interrupted, or a name was redefined.')
MEASURE = 'distinct (kind of cell, state of the name before it, outcome) and abort sites'
REAL = ['sppl (all modules)', 'sppl.magics', 'IPython', 'sympy', 'scipy', 'numpy']
STUB = ['pygraphviz and dot (a textual stand-in)', 'interrupts (raised at trace points)']
ASSUMPTIONS = ['Interrupts strike once the compiler or interpreter of programs has begun.']

_SHELL = None

def warm():
    global _SHELL
    work.warm()
    from IPython.core.interactiveshell import InteractiveShell
    from traitlets.config import Config
    c = Config()
    c.HistoryManager.enabled = False
    c.HistoryAccessor.enabled = False
    with contextlib.redirect_stdout(io.StringIO()):
        _SHELL = InteractiveShell(config=c)
        _SHELL.showtraceback = lambda *a, **k: None
        _SHELL.showsyntaxerror = lambda *a, **k: None
        _SHELL.run_line_magic('load_ext', 'sppl.magics')
        drawtool.install()
        cell('%%sppl warm\nX ~= norm(loc=0, scale=1)\n')
        cell('_w = %sppl_get_spe warm')
        cell('%sppl_to_graph warm')

def cell(text):
    """('ok', result) or ('error', class name)."""
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
        r = _SHELL.run_cell(text, store_history=False, silent=False)
    e = r.error_before_exec or r.error_in_exec
    if e is not None:
        return ('error', type(e).__name__, str(e)[:200])
    return ('ok', r.result, out.getvalue())

NAMES = ['model', 'm', 'A', 'posterior', 'norm', 'command', 'Id', 'spe', 'X1', 'Sequence']
BAD = ['syntax', 'name', 'dist', 'zero', 'indent', 'noelse', 'twice', 'constant',
    'import', 'raise', 'event', 'late', 'foreign', 'foreign', 'foreign',
    'foreignconst', 'foreignpy', 'foreignname', 'foreignown', 'foreignown']

ALIKE = [['model', 'Model', 'MODEL'], ['A', 'a', 'A_'], ['m', 'm1', 'm10'],
    ['X1', 'x1', 'X_1'], ['spe', 'spes', '_spe']]

def gen(rng, tier):
    names = rng.sample(NAMES, rng.choice([1, 2, 2, 3, 4]))
    if rng.random() < .3:
        names = rng.sample(rng.choice(ALIKE), rng.choice([2, 2, 3]))
    progs = []
    for _ in range(rng.randint(2, 4)):
        h = work.Hist(rng, **rng.choice([dict(), dict(p_if=.5), dict(p_condition=.4),
            dict(p_switch=.4), dict(p_transform=.4)]))
        h.build()
        p = h.programs[0]
        qs = [h.op_prob(None, m) for m in h.slots for _ in range(2)]
        progs.append([p, rng.randint(0, 9), [q[2] for q in qs]])
        if rng.random() < .5:
            # Another program over the same variables.
            try:
                m = work.variant(h)
            except Exception:
                m = None
            if m:
                qs = [h.op_prob(None, m) for _ in range(2)]
                progs.append([h.ops[-1][1], rng.randint(0, 9), [q[2] for q in qs]])
    cells = []
    for _ in range(rng.randint(6, 16)):
        u = rng.random()
        name = rng.choice(names)
        k = rng.randrange(len(progs))
        if u < .38:
            cells.append(['def', name, k])
        elif u < .56:
            cells.append(['bad', name, k, rng.choice(BAD), rng.randrange(len(progs))])
        elif u < .68:
            cells.append(['int', name, k, core.gen_point(rng),
                rng.choice(['interrupt', 'interrupt', 'memory'])])
        elif u < .74:
            cells.append(['py', name])
        elif u < .80:
            cells.append(['ns', name])
        elif u < .86:
            cells.append(['graph', name])
        elif u < .90:
            cells.append(['local', name, k, rng.choice(['py', 'get', 'graph', 'ns'])])
        elif u < .95:
            cells.append(['get', name])
        else:
            cells.append(['nameless', k])
    return {'names': names, 'progs': progs, 'cells': cells}

def bad_source(case, k, how, other):
    """Source of a cell that cannot define a model."""
    (p, style, _q) = case['progs'][k]
    src = prog.program_source(p, style)
    lines = [l for l in src.split('\n')]
    if how == 'syntax':
        return src + '\nX = = 3\n'
    if how == 'name':
        return src + '\ncondition(Undefined9 > 0)\n'
    if how == 'dist':
        return src + '\nQ9 ~= nodist(loc=0)\n'
    if how == 'zero':
        return src + '\nQ9 ~= norm(loc=0, scale=1)\ncondition((Q9 > 3) & (Q9 < 2))\n'
    if how == 'indent':
        return src + '\n   Q9 ~= norm(loc=0, scale=1)\n'
    if how == 'noelse':
        return src + '\nQ9 ~= norm(loc=0, scale=1)\nif Q9 > 0:\n' \
            '    Q8 ~= norm(loc=0, scale=1)\n'
    if how == 'twice':
        return src + '\nQ9 ~= norm(loc=0, scale=1)\nQ9 ~= norm(loc=0, scale=1)\n'
    if how == 'constant':
        return 'c9 = 1/0\n' + src
    if how == 'import':
        return 'import no_such_module_\n' + src
    if how == 'raise':
        return src + '\nQ9 ~= norm(loc=0, scale=-1/0)\n'
    if how == 'event':
        return src + '\ncondition(Q9 > 0)\n'
    if how == 'late':
        return src + '\nQ9 ~= choice({\'a\': .5, \'b\': .5})\ncondition(Q9 > 0 > )\n'
    # What other cells define must not be seen.
    q = case['progs'][other][0]
    mine = set(api_.walk_names(p['stmts'])) | set(p['arrays'])
    theirs = [v for v in api_.walk_names(q['stmts'])
        if v not in mine and '[' not in v]
    if how == 'foreign' and theirs:
        return src + '\ncondition(%s > 0)\n' % (theirs[0],)
    if how == 'foreignname':
        # A name of a model is not a variable of other programs.
        free = [n for n in case['names'] if n not in ('norm', 'command', 'Id', 'Sequence')
            and n not in mine]
        if free:
            return src + '\ncondition(%s > 0)\n' % (free[0],)
    if how == 'foreignown' and other != k:
        return src + '\nQ9 ~= norm(loc=own%d, scale=1)\n' % (other,)
    if how == 'foreignpy':
        return src + '\ncondition(user_variable > 0)\n'
    return src + '\ncondition(c8 > 0)\n'

def source(case, k):
    """The source of a program, which has a constant of its own."""
    (p, style, _q) = case['progs'][k]
    return 'own%d = %d\n%s' % (k, k, prog.program_source(p, style))

def refs(case):
    return [prog.ref_exec(work.Ref(), p['stmts']) for p, _s, _q in case['progs']]

def reserved(case, k, name):
    """Whether the name of a model is one that its program uses itself."""
    return name in api_.walk_names(case['progs'][k][0]['stmts'])

def verify(ctx, case, state, i, c, name):
    """What the session says about a name is what it should."""
    k = state.get(name)
    r = cell('_m = %%sppl_get_spe %s' % (name,))
    ns = cell('_n = %%sppl_get_namespace %s' % (name,))
    user = _SHELL.user_ns
    if k is None:
        for x in (r, ns):
            ctx.expect(x[0] == 'error', 'stale', lambda: 'after cell %d %r, %s is '
                'known, but its last definition failed or was never made' % (i, c, name))
        return
    for x in (r, ns):
        ctx.expect(x[0] == 'ok', 'lost', lambda: 'after cell %d %r, %s is unknown: %r, '
            'but its last definition succeeded' % (i, c, name, x))
    answers(ctx, case, k, user['_m'], i, c, name)
    ctx.expect(getattr(user['_n'], name, None) is user['_m'], 'namespace', lambda:
        'after cell %d %r, the namespace of %s has another model' % (i, c, name))
    own = [j for j in range(len(case['progs'])) if hasattr(user['_n'], 'own%d' % (j,))]
    ctx.expect(own == [k], 'namespace', lambda: 'after cell %d %r, the namespace of '
        '%s has the constants of the programs %r instead of %r' % (i, c, name, own, k))

def answers(ctx, case, k, model, i, c, name):
    (p, _s, qs) = case['progs'][k]
    exp = case['refs'][k]
    A = work.get_api()
    vs = set(api_.walk_names(p['stmts']))
    ctx.expect(set(map(str, model.get_symbols())) == case['vars'][k], 'model', lambda:
        'after cell %d %r, the model of %s is over %s' % (i, c, name,
        sorted(map(str, model.get_symbols()))))
    ns = case['ns']
    for ev, x in zip(qs, exp):
        got = math.exp(model.logprob(A.event(ev, ns)))
        if x is not None:
            ctx.expect(api_.close(got, x, 2e-6, 1e-7), 'model', lambda: 'after cell '
                '%d %r, the model of %s gives %r the probability %r instead of %r'
                % (i, c, name, ev, got, x))

def sites(ctx, text):
    t = Tracer(lines=('sppl',), calls=('scipy',), record=True, limit=400000)
    t.run(cell, text)
    return [core.site_name(s) for s in t.sites], t.sites

def point(ctx, text, spec):
    (_names, s) = sites(ctx, text)
    s = [tuple(x) for x in s]
    k = core.pick_point(s, spec)
    return [k, k is not None and core.site_name(s[k]), len(s)]

def interrupted(ctx, text, spec, kind):
    (k, site, n) = twin(ctx, point, text, spec)
    if k is None:
        return cell(text), False
    hit = []
    def act(j, frame):
        t.targets.clear()
        hit.append(j)
        raise KINDS[kind]('injected')
    t = Tracer(lines=('sppl',), calls=('scipy',), targets={k: None}, act=act)
    r = t.run(cell, text)
    ctx.fault(kind)
    ctx.log('abort', kind, 'at', site, k, 'of', n)
    ctx.state('abort', kind, site)
    return r, True

def run(case, ctx):
    # Answers of the reference.
    case = dict(case)
    A = work.get_api()
    case['refs'] = [[ref_prob(r, ev) for ev in qs]
        for r, (_p, _s, qs) in zip(refs(case), case['progs'])]
    stmts = [s for p, _s, _q in case['progs'] for s in p['stmts']]
    arrays = {}
    for p, _s, _q in case['progs']:
        arrays.update(p['arrays'])
    case['ns'] = work.namespace({'arrays': arrays, 'stmts': stmts})
    # Variables of the programs, as built directly.
    case['vars'] = []
    for p, s, _q in case['progs']:
        try:
            m = A.run_source(p, s)
        except Exception:
            raise core.Skip('a program does not compile')
        case['vars'].append(set(map(str, m.get_symbols())))
    del m
    cell('user_variable = 3')
    cell('c8 = 4')
    cell('from sppl.transforms import Id as _Id\nQ9 = _Id("Q9")')
    state = {n: None for n in case['names']}
    trace = []
    for i, c in enumerate(case['cells']):
        kind = c[0]
        before = state.get(c[1]) is not None if kind != 'nameless' else None
        outcome = None
        if kind in ('def', 'int'):
            (_t, name, k) = c[:3]
            if reserved(case, k, name):
                continue
            (p, style, _q) = case['progs'][k]
            text = '%%%%sppl %s\n%s' % (name, source(case, k))
            old = state[name]
            if kind == 'def':
                r = cell(text)
                ctx.expect(r[0] == 'ok', 'define', lambda: 'cell %d, which defines '
                    '%s, fails: %r' % (i, name, r))
                state[name] = k
                if before:
                    ctx.stat('redefined')
                    ctx.nontrivial = True
            else:
                (r, aborted) = interrupted(ctx, text, c[3], c[4])
                if r[0] == 'ok':
                    state[name] = k
                else:
                    state[name] = None
                    # Interrupted when all was done: the new definition, or none.
                    m = cell('_m = %%sppl_get_spe %s' % (name,))
                    if m[0] == 'ok':
                        answers(ctx, case, k, _SHELL.user_ns['_m'], i, c, name)
                        state[name] = k
            outcome = r[0]
        elif kind == 'bad':
            (_t, name, k, how, other) = c
            text = '%%%%sppl %s\n%s' % (name, bad_source(case, k, how, other))
            r = cell(text)
            ctx.expect(r[0] == 'error', 'accepted', lambda: 'cell %d %r is accepted '
                'although it is wrong:\n%s' % (i, c, text))
            state[name] = None
            ctx.fault('failing_cell_' + how)
            outcome = r[0]
        elif kind == 'nameless':
            (p, style, _q) = case['progs'][c[1]]
            cell('%%%%sppl\n%s' % (source(case, c[1]),))
        elif kind == 'py':
            r = cell('%%sppl_to_python %s' % (c[1],))
            known = state[c[1]] is not None
            ctx.expect((r[0] == 'ok') == known, 'show', lambda: 'cell %d %r: %r, but '
                'the name is %sknown' % (i, c, r, '' if known else 'un'))
            if known:
                # The translation is a program for the same model.
                d = {}
                exec(r[2], d)
                answers(ctx, case, state[c[1]], d[c[1]], i, c, c[1])
            outcome = r[0]
        elif kind == 'ns':
            r = cell('%%sppl_get_namespace %s' % (c[1],))
            outcome = r[0]
        elif kind == 'graph':
            n = c[1]
            cell('%s_ = 1' % (n,))
            tool = drawtool.Tool()
            with drawtool.active(tool):
                r = cell('%%sppl_to_graph %s' % (n,))
            known = state[n] is not None
            ctx.expect((r[0] == 'ok') == known, 'show', lambda: 'cell %d %r: %r, but '
                'the name is %sknown' % (i, c, r, '' if known else 'un'))
            outcome = r[0]
        elif kind == 'local':
            # A model in a variable of the notebook, with the name of a program.
            (p, style, _q) = case['progs'][c[2]]
            if c[1] in ('X1',):
                continue
            _SHELL.user_ns[c[1] + 'v'] = A.run_source(p, style)
            with drawtool.active(drawtool.Tool()):
                r = cell('%%sppl_to_graph %sv' % (c[1],))
            ctx.expect(r[0] == 'ok', 'show', lambda: 'cell %d %r: %r' % (i, c, r))
            r = cell('%%sppl_get_spe %sv' % (c[1],))
            ctx.expect(r[0] == 'error', 'stale', lambda: 'cell %d %r: a variable of the '
                'notebook is taken for a program' % (i, c))
        elif kind == 'get':
            pass
        ctx.log(i, c[0], c[1], outcome)
        ctx.state(kind, before, outcome, c[3] if kind == 'bad' else '')
        for n in case['names']:
            verify(ctx, case, state, i, c, n)

def ref_prob(r, ev):
    try:
        return r.prob(ev)
    except (work.RefError, work.ZeroProb):
        return None

def shrink(case):
    for x in shrink_.lists(case['cells'], 1):
        yield dict(case, cells=x)
    for i, (p, s, q) in enumerate(case['progs']):
        if len(q) > 1:
            for x in q:
                yield dict(case, progs=case['progs'][:i] + [[p, s, [x]]]
                    + case['progs'][i+1:])
        for p2 in shrink_.programs(p):
            yield dict(case, progs=case['progs'][:i] + [[p2, s, q]]
                + case['progs'][i+1:])
