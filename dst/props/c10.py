"""C10: executing a program statement by statement is exact.

A generated program runs from source, from commands at once, or statement by
statement, with failing statements, aborted and retried statements, statements
tried on intermediate models and queries in between.  Probabilities, densities
and posteriors are compared with the enumeration of executions."""

import math

from sim import abort
from sim import api
from sim import core
from sim import prog
from sim import ref
from sim import shrink as shrink_
from sim import work
from sim.prog import Gen
from sim.ref import Ref, RefError, ZeroProb

RUNS = {'quick': 480, 'thorough': 6000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a seeded program of 2 to 7 statements (sample, transform, '
    'condition, constrain, if/elif/else, switch, for) with a way to execute it, '
    'a history of failing, aborted and speculative statements and queries '
    'between its statements, and 3 to 6 final queries. It is non-trivial when '
    'a statement failed or was aborted, or the program has at least two '
    'executions.')
MEASURE = 'distinct (statement kinds, way of execution, abort site) triples'
REAL = ['sppl (all modules)', 'sympy', 'scipy', 'numpy']
STUB = ['interrupts and allocation failures (raised at trace points)',
    'symbolic solver results (real, remembered between runs)']
ASSUMPTIONS = ['Answers agree when they differ by at most 1e-7 + 1e-6 relative.',
    'Densities are of the constrained base variables.',
    'Programs are in the fragment where the reference defines all values '
    '(DESIGN.md lists what is left out).']

warm = work.warm

OPTS = [dict(), dict(stmts=(3, 7), p_transform=.35), dict(p_mix=.5, p_condition=.4),
    dict(stmts=(2, 4), p_transform=.4), dict(p_constrain=.25), dict(p_switch=.35, p_if=.35),
    dict(p_nominal=.6), dict(p_for=.3), dict(p_if=.8, p_nest=.6, stmts=(2, 4)),
    dict(p_if=.6, p_nest=.5, p_mix=.1, max_base=8)]

def gen(rng, tier):
    opts = dict(solves=rng.choice([0, 1, 1, 2]), max_paths=16)
    opts.update(rng.choice(OPTS))
    g = Gen(rng, **opts)
    program = g.run()
    queries = [g.gen_query(('prob', 'prob', 'logpdf', 'cond', 'cons', 'mi'))
        for _ in range(rng.randint(3, 5))]
    mode = 'src' if opts.get('p_nest') and rng.random() < .6 \
        else rng.choice(['src', 'src', 'cmd', 'step', 'step', 'step'])
    case = {'program': program, 'mode': mode, 'style': rng.randint(0, 99),
        'queries': queries, 'acts': []}
    if mode == 'step':
        for i in range(len(program['stmts']) + 1):
            for _ in range(rng.choice([0, 1, 1, 2])):
                case['acts'].append([i, gen_act(rng, program, i)])
    elif rng.random() < .7:
        for _ in range(rng.choice([1, 1, 2])):
            case['acts'].append([0, ['abort', core.gen_point(rng),
                rng.choice(['interrupt', 'memory'])]])
    return case

def gen_act(rng, program, i):
    u = rng.random()
    stmts = program['stmts']
    if i < len(stmts) and u < .45:
        return ['abort', core.gen_point(rng), rng.choice(['interrupt', 'memory'])]
    if u < .6:
        return ['fail', rng.randint(0, 999)]
    if u < .75 and len(stmts) > 1:
        # Something else tried on the intermediate model.
        return ['try', rng.randrange(len(stmts))]
    return ['query', rng.randint(0, 10**6)]

def answers(ctx, A, model, state, queries, ns, style, where):
    for q in queries:
        try:
            e = prog.ref_answer(state, q)
        except ZeroProb:
            e = 'zero'
        except RefError:
            continue
        try:
            a = A.answer(model, q, ns, style=style)
        except Exception as ex:
            a = '%s: %s' % (type(ex).__name__, str(ex)[:200])
        ctx.log(where, q[0], a, e)
        if e == 'zero':
            ctx.expect(isinstance(a, str), 'zero', lambda: '%s: query %r has '
                'evidence of probability zero but returns %r' % (where, q, a))
            continue
        ctx.expect(not isinstance(a, str) and agree(a, e), 'answer', lambda: '%s: '
            'query %r returns %r; the executions of the program give %r'
            % (where, q, a, e))

def agree(a, e):
    return api.close(a, e)

def quick_queries(seed, state, vars_):
    import random
    r = random.Random(seed)
    g = Gen(r, solves=0)
    g.ref = state
    g.vars = {k: v for k, v in vars_.items()}
    if not g.vars:
        return []
    return [g.gen_query(('prob', 'logpdf', 'cond'))]

def describe(program, n):
    """Variables after n statements, as far as they are needed for queries."""
    g = Gen(None)
    for s in program['stmts'][:n]:
        if s[0] == 'sample':
            g.vars[s[1]] = g.dist_var(s[2])
    return g.vars

def failing(seed, state, names):
    """A statement that must be rejected in this state, or None."""
    vs = state.variables()
    if not vs:
        return ['condition', ['cmp', ['v', 'X1'], '<', 0]]
    v = vs[seed % len(vs)]
    base = state.paths[0].base
    opts = [
        ['sample', v, ['norm', {'loc': 0, 'scale': 1}]],
        ['condition', ['and', ['in', ['v', v], ['zz']], ['in', ['v', v], ['yy']]]],
        ['transform', v, ['poly', ['v', v], [1, 2]]],
    ]
    if v in base:
        opts.append(['constrain', [[v, 'zz']]])
    return opts[seed // 7 % len(opts)]

def run(case, ctx):
    A = work.get_api()
    program = case['program']
    style = case['style']
    try:
        ns = A.namespace(program)
        final = prog.ref_exec(Ref(), program['stmts'])
    except (RefError, ZeroProb, KeyError, IndexError):
        raise core.Skip('not a program')
    if len(final.paths) > 1:
        ctx.nontrivial = True
    ctx.state(case['mode'], [s[0] for s in program['stmts']])
    try:
        model = execute(case, ctx, A, ns)
    except (core.Violation, core.HarnessError, core.Skip):
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        ctx.fail('rejected', 'the program is rejected: %s: %s (%s:%d)\n%s' % (
            type(e).__name__, str(e)[:200], tb.filename[-30:], tb.lineno,
            prog.program_source(program, style)))
    ctx.stat('mode_' + case['mode'])
    answers(ctx, A, model, final, case['queries'], ns, style, 'final')
    names = sorted(str(v) for v in model.get_symbols())
    ctx.expect(names == sorted(final.variables()), 'variables', lambda:
        'the model has variables %r instead of %r' % (names, final.variables()))

def execute(case, ctx, A, ns):
    program = case['program']
    style = case['style']
    if case['mode'] == 'src':
        source = prog.program_source(program, style)
        objs = {}
        def go():
            if 'c' not in objs:
                objs['c'] = A.to_python.SPPL_Compiler(source)
            return objs['c'].execute_module().model
        for _i, act in case['acts']:
            abort.aborted(ctx, go, act[1], act[2])
        return go()
    if case['mode'] == 'cmd':
        commands = [A.command(s, ns, style) for s in program['stmts']]
        seq = A.ast.Sequence(*commands)
        for _i, act in case['acts']:
            abort.aborted(ctx, seq.interpret, act[1], act[2])
        return seq.interpret()
    model = None
    state = Ref()
    for i, s in enumerate(program['stmts'] + [None]):
        command = s and A.command(s, ns, style)
        for j, act in case['acts']:
            if j != i:
                continue
            if act[0] == 'abort' and s:
                (how, r) = abort.aborted(ctx, lambda: command.interpret(model),
                    act[1], act[2])
            elif act[0] == 'fail':
                bad = failing(act[1], state, ns)
                if any(v not in ns for v in api.walk_names([bad]) if '[' not in v):
                    continue
                try:
                    A.command(bad, ns, style).interpret(model)
                    ok = True
                except Exception as e:
                    ok = False
                    ctx.log('failed', bad[0], type(e).__name__)
                ctx.fault('failing_statement')
                ctx.expect(not ok, 'accepted', lambda: 'statement %r is '
                    'accepted after %d statements' % (bad, i))
            elif act[0] == 'try' and act[1] < len(program['stmts']):
                try:
                    A.command(program['stmts'][act[1]], ns, style).interpret(model)
                except Exception as e:
                    ctx.fault('failing_statement')
                ctx.stat('speculative_statements')
            elif act[0] == 'query' and model is not None:
                answers(ctx, A, model, state, quick_queries(act[1], state,
                    describe(program, i)), ns, style, 'after %d statements' % (i,))
        if s:
            model = command.interpret(model)
            state = prog.ref_stmt(state, s)
    return model

def shrink(case):
    for acts in shrink_.lists(case['acts']):
        yield dict(case, acts=acts)
    for qs in shrink_.queries(case['queries']):
        yield dict(case, queries=qs)
    n = len(case['program']['stmts'])
    for p in shrink_.programs(case['program']):
        acts = case['acts']
        if len(p['stmts']) < n:
            # Positions of actions refer to statements.
            k = next((i for i, (a, b) in enumerate(zip(case['program']['stmts'],
                p['stmts'])) if a != b), len(p['stmts']))
            acts = [[i - (n - len(p['stmts'])) if i > k else i, a] for i, a in acts]
            acts = [[max(i, 0), a] for i, a in acts]
        yield dict(case, program=p, acts=acts)
    if case['mode'] != 'cmd':
        yield dict(case, mode='cmd', acts=[])
