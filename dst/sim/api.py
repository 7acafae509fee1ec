"""Use of SPPL through its public interface."""

import importlib
import json
import math
import sys

from . import prog
from . import ref

inf = math.inf

PACKAGE = 'sppl'

def purge():
    """Forget the package, as a restart of the process would."""
    for name in list(sys.modules):
        if name == PACKAGE or name.startswith(PACKAGE + '.'):
            del sys.modules[name]

class Api():
    """One instance of the package with the names a user would import."""
    def __init__(self):
        imp = importlib.import_module
        self.spe = imp('sppl.spe')
        self.sets = imp('sppl.sets')
        self.transforms = imp('sppl.transforms')
        self.distributions = imp('sppl.distributions')
        self.ast = imp('sppl.compilers.ast_to_spe')
        self.to_python = imp('sppl.compilers.sppl_to_python')
        self.to_dict = imp('sppl.compilers.spe_to_dict')
        names = {}
        for k, v in vars(self.distributions).items():
            if k[:1].islower() and isinstance(v, type):
                names[k] = v
        for k in ('Id', 'Exp', 'Log', 'Sqrt'):
            names[k] = getattr(self.transforms, k)
        for k in ('Interval', 'FiniteReal', 'FiniteNominal'):
            names[k] = getattr(self.sets, k)
        for k in ('Sample', 'Transform', 'Condition', 'Constrain', 'IfElse',
                'For', 'Switch', 'Sequence', 'IdArray', 'Skip'):
            names[k] = getattr(self.ast, k)
        names['inf'] = inf
        self.names = names

    def namespace(self, program):
        """Names for the texts of a program: variables and arrays."""
        ns = dict(self.names)
        for name, n in program.get('arrays', {}).items():
            ns[name] = self.ast.IdArray(name, n)
        for s in walk_names(program['stmts']):
            if '[' not in s:
                ns[s] = self.transforms.Id(s)
        return ns

    def command(self, stmt, ns, style=0):
        (consts, text) = prog.stmt_command(stmt, style)
        ns = dict(ns)
        for name, t in consts:
            ns[name] = eval(t, ns)
        return eval(text, ns)

    def event(self, ev, ns, style=0):
        return eval(prog.event_text(ev, style), ns)

    def assignment(self, a, ns):
        return {eval(v, ns): x for v, x in a}

    def run(self, program, ns=None, style=0):
        """Model of a program, built by commands at once."""
        ns = ns or self.namespace(program)
        commands = [self.command(s, ns, style) for s in program['stmts']]
        return self.ast.Sequence(*commands).interpret()

    def run_source(self, program, style=0):
        source = prog.program_source(program, style)
        compiler = self.to_python.SPPL_Compiler(source)
        return compiler.execute_module().model

    def answer(self, model, q, ns, memo=None, style=0):
        """Answer to a query: a number."""
        kw = {} if memo is None else {'memo': memo}
        if q[0] == 'prob':
            return math.exp(model.logprob(self.event(q[1], ns, style), **kw))
        if q[0] == 'logpdf':
            return float(model.logpdf(self.assignment(q[1], ns), **kw))
        if q[0] == 'cond':
            post = model.condition(self.event(q[1], ns, style), **kw)
            return math.exp(post.logprob(self.event(q[2], ns, style), **kw))
        if q[0] == 'cons':
            post = model.constrain(self.assignment(q[1], ns), **kw)
            return math.exp(post.logprob(self.event(q[2], ns, style), **kw))
        if q[0] == 'mi':
            return float(model.mutual_information(
                self.event(q[1], ns, style), self.event(q[2], ns, style), **kw))
        raise ValueError(q)

    def save(self, model):
        return json.dumps(self.to_dict.spe_to_dict(model))

    def restore(self, text):
        return self.to_dict.spe_from_dict(json.loads(text))

def walk_names(stmts):
    """Names of variables in statements, in order of appearance."""
    r = []
    def expr(e):
        t = e[0]
        if t == 'v':
            r.append(e[1])
        elif t == 'pw':
            for sub, ev in e[1]:
                expr(sub)
                event(ev)
        else:
            expr(e[2] if t == 'expb' else e[1])
    def event(ev):
        if ev is True:
            return
        for l in ref.event_leaves(ev):
            expr(ref.leaf_expr(l))
    def stmt(s):
        if s[0] in ('sample', 'transform'):
            r.append(s[1])
            if s[0] == 'transform':
                expr(s[2])
        elif s[0] == 'condition':
            event(s[1])
        elif s[0] == 'constrain':
            r.extend(v for v, _x in s[1])
        elif s[0] == 'if':
            for t, b in s[1]:
                event(t)
                for x in b:
                    stmt(x)
        elif s[0] == 'switch':
            r.append(s[1])
            for x in s[3]:
                stmt(x)
        elif s[0] == 'for':
            for x in s[3]:
                stmt(x)
    for s in stmts:
        stmt(s)
    return list(dict.fromkeys(r))

def close(a, b, rel=1e-6, abs_=1e-7):
    """Whether two answers agree up to numerical precision."""
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= abs_ + rel*max(abs(a), abs(b))

def attempt(f, *args, **kw):
    """('ok', result) or ('error', class name)."""
    try:
        return ('ok', f(*args, **kw))
    except Exception as e:
        return ('error', type(e).__name__, str(e)[:300])
