"""C17: rendering to files is all-or-nothing and touches no other file.

Models are rendered in a scratch directory tree under a simulated disk and a
simulated drawing tool; the disk fails or fills up, the tool fails or is killed,
the user interrupts, and another process uses the same temporary directory."""

import os
import random
import shutil
import stat
import subprocess
import tempfile

from props import c14
from sim import core
from sim import disk
from sim import drawtool
from sim import shrink as shrink_
from sim import work
from sim.core import twin

RUNS = {'quick': 800, 'thorough': 9000}
WALL = {'quick': 48, 'thorough': 780}
RULE = ('A case is a model and 1 to 4 renderings of it to files, with seeded faults of '
    'the disk and of the drawing tool, interrupts, and another process. It is '
    'non-trivial when a fault was injected or the other process acted.')
MEASURE = 'distinct (operation on files, fault, outcome)'
REAL = ['sppl.magics.render', 'sppl (all modules)', 'networkx', 'graphviz (Python '
    'package)', 'shutil', 'tempfile', 'the file system below a scratch directory']
STUB = ['pygraphviz and dot (a textual stand-in)', 'disk errors, full disk, interrupts '
    '(raised by the file functions)', 'another process (acts between operations)',
    'the viewer']
ASSUMPTIONS = ['Removing files never fails and is not interrupted.',
    'A directory just made for this rendering is not used by other processes.',
    'After an error the requested outputs may be missing or incomplete.']

def warm():
    c14.warm()
    drawtool.install()
    disk.install()

NAMES = ['model', 'graph', 'out/model', 'model.v2', 'a b', 'modèle', './x', 'old',
    'missing/model', 'dir', 'Source', 'tmp']
BYSTANDERS = ['model', 'graph', 'Source.gv', 'old.dot', 'old.png', 'old.pdf', 'old',
    'out/model', 'out/keep.png', 'dir/keep', 'graph.gv', 'model.v2', 'model.v2.gv',
    'model.svg', 'render.dot.bak', 'a', 'x', 'tmp', 'tmp.gv']
TMP = ['keep', 'graph', 'graph.dot', 'graph.png', 'tmpabc', 'tmpabc.dot']

ERRORS = ['ENOSPC', 'EIO', 'EACCES', 'EMFILE', 'EXDEV', 'EXDEV', 'EROFS']

def gen(rng, tier):
    h = work.Hist(rng, **rng.choice([dict(), dict(p_mix=.5), dict(p_if=.5),
        dict(p_transform=.5)]))
    h.build()
    ops = []
    for _ in range(rng.randint(1, 4)):
        faults = []
        for _k in range(rng.choice([0, 1, 1, 1, 2])):
            u = rng.random()
            half = rng.random() < .5
            if u < .3:
                faults.append([rng.random(), ['error', rng.choice(ERRORS), half]])
            elif u < .4:
                faults.append([rng.random(), ['full', None, half]])
            elif u < .75:
                faults.append([rng.random(), ['interrupt', None, half]])
            else:
                faults.append([rng.random(), ['tool', rng.choice(['exit', 'partial',
                    'killed', 'missing', 'write_dot', 'view']), half]])
        name = rng.choice(NAMES) if rng.random() < .75 else None
        ops.append({'name': name, 'absolute': rng.random() < .3,
            'ext': rng.choice([None, 'png', 'pdf', 'png', 'pdf', 'svg']),
            'show': rng.random() < .15, 'faults': faults,
            'other': rng.random() < .5, 'xdev': rng.random() < .25})
    return {'program': h.program(), 'ops': h.ops, 'renders': ops}

class Names():
    def __init__(self, seed):
        self.rng = random.Random(seed)
    def __iter__(self):
        return self
    def __next__(self):
        return ''.join(self.rng.choice('abcdefghij0123456789_') for _ in range(8))

class Other():
    """Another process that uses the directory for temporary files."""
    def __init__(self, tmp):
        self.tmp = tmp
        self.made = {}
        self.turn = 0
    def put(self, path):
        if os.path.lexists(path):
            return
        text = 'theirs %d\n' % (self.turn,)
        self.turn += 1
        with disk.REAL['open'](path, 'w') as f:
            f.write(text)
        self.made[path] = text
    def __call__(self, op, path):
        path = os.path.abspath(path)
        if os.path.dirname(path) != self.tmp or path in self.made:
            return
        if op == 'remove':
            self.put(path)
        for x in ('.dot', '.png', '.pdf', '.gv'):
            if op in ('remove', 'create', 'mkdir'):
                self.put(path + x)

def snapshot(root):
    r = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            p = os.path.join(d, f)
            with disk.REAL['open'](p, 'rb') as g:
                r[p] = [g.read().decode('utf-8', 'replace'),
                    stat.S_IMODE(os.lstat(p).st_mode)]
        for x in dirs:
            p = os.path.join(d, x)
            r[p + '/'] = [None, stat.S_IMODE(os.lstat(p).st_mode)]
    return r

def attempt(f):
    try:
        return ['ok', f()]
    except KeyboardInterrupt:
        return ['interrupt', None]
    except Exception as e:
        return ['error', type(e).__name__]

def length(ctx, m, op, root, tmp, cwd, prefix):
    """In a twin: number of operations on files with the first faults."""
    return one(ctx, m, op, root, tmp, cwd, prefix, True)

def one(ctx, m, op, root, tmp, cwd, plan, dry=False):
    tempfile.tempdir = tmp
    os.chdir(cwd)
    name = op['name']
    if name is not None and op['absolute']:
        name = os.path.join(cwd, name)
    other = Other(tmp)
    d = disk.Disk(root, {} if dry else
        {k: v for k, v in plan if v[0] != 'tool'}, other if op['other'] else None)
    broken = [v for _k, v in plan if v[0] == 'tool'] if not dry else []
    hits = []
    def hook(what, arg):
        for v in broken:
            how = v[1]
            if how == 'missing' and what == 'start':
                hits.append(how)
                import graphviz
                raise graphviz.ExecutableNotFound(arg)
            if (how, what) in (('exit', 'start'), ('partial', 'middle'),
                    ('killed', 'end')):
                hits.append(how)
                raise subprocess.CalledProcessError(-9 if how == 'killed' else 1, arg)
            if (how, what) in (('write_dot', 'write_dot'), ('view', 'view')):
                hits.append(how)
                raise OSError(5, 'the tool fails')
        d.tool(what)
    tool = drawtool.Tool(hook)
    before = snapshot(root)
    if op['xdev']:
        # Temporary files are on another device.
        old = disk.REAL['os.rename'], disk.REAL['os.replace']
        def other_device(f):
            def g(src, dst, *a, **k):
                (s, t) = (os.path.abspath(src), os.path.abspath(dst))
                if s.startswith(tmp + os.sep) != t.startswith(tmp + os.sep):
                    raise OSError(18, 'Invalid cross-device link')
                return f(src, dst, *a, **k)
            return g
        disk.REAL['os.rename'] = other_device(old[0])
        disk.REAL['os.replace'] = other_device(old[1])
    kw = {}
    if name is not None:
        kw['filename'] = name
    if op['ext'] is not None:
        kw['ext'] = op['ext']
    if op['show']:
        kw['show'] = True
    try:
        with disk.mounted(d), drawtool.active(tool):
            r = attempt(lambda: c14.render.render_graphviz(m, **kw))
    finally:
        if op['xdev']:
            (disk.REAL['os.rename'], disk.REAL['os.replace']) = old
    if dry:
        return d.k
    after = snapshot(root)
    ext = op['ext'] or 'png'
    for k, o, f in d.injected:
        ctx.fault('disk_%s_%s' % (o, f))
        ctx.state(o, f, r[0])
    for hit in hits:
        ctx.fault('tool_' + hit)
        ctx.state('tool', hit, r[0])
    if other.made:
        ctx.fault('other_process_wrote', len(other.made))
    what = 'rendering %r (%s)' % ({k: v for k, v in op.items() if k != 'faults'},
        '; '.join('%s %s at operation %d' % (f, o, k) for k, o, f in d.injected)
        + '; '.join(' tool: %s' % (x,) for x in hits))
    ctx.log(what, r[0], d.k, d.log)
    # What may have changed.
    if name is not None:
        outputs = [os.path.abspath('%s.%s' % (name, x)) for x in ('dot', ext)]
    elif r[0] == 'ok':
        fname = os.path.abspath(r[1].filename)
        ctx.expect(fname.startswith(tmp + os.sep), 'place', lambda: '%s: output in %s'
            % (what, os.path.relpath(fname, root)))
        outputs = ['%s.%s' % (fname, x) for x in ('dot', ext)]
        for p in outputs:
            ctx.expect(p not in before, 'other', lambda: '%s: uses the file %s, which '
                'was there before' % (what, os.path.relpath(p, root)))
    else:
        outputs = []
    dirs = set(os.path.dirname(p) + '/' for p in outputs) if name is None else set()
    mine = set(outputs) | dirs
    for p in sorted(set(before) | set(after)):
        if p in mine:
            continue
        rel = os.path.relpath(p, root)
        if p in other.made:
            ctx.expect(p in after and after[p][0] == other.made[p], 'other', lambda:
                '%s: %s of another process was changed or removed' % (what, rel))
        elif p not in before:
            ctx.fail('left', '%s ends with %s and leaves %s behind' % (what, r[0], rel))
        elif p not in after:
            ctx.fail('other', '%s ends with %s and removes %s' % (what, r[0], rel))
        else:
            ctx.expect(before[p] == after[p], 'other', lambda: '%s ends with %s and '
                'changes %s' % (what, r[0], rel))
    if r[0] == 'ok':
        ctx.expect(bool(tool.graphs), 'complete', what + ': nothing was drawn')
        c14.check(ctx, m, tool.graphs[-1], 'the file')
        dot = drawtool.dot_text(tool.graphs[-1])
        contents = [dot, drawtool.image_text(dot.rstrip('\n'), ext)]
        for p, x in zip(outputs, contents):
            ctx.expect(p in after, 'complete', lambda: '%s succeeds without leaving %s'
                % (what, os.path.relpath(p, root)))
            ctx.expect(after[p][0].rstrip('\n') == x.rstrip('\n'), 'complete', lambda:
                '%s succeeds and %s is not complete' % (what, os.path.relpath(p, root)))
    ctx.expect(os.getcwd() == cwd, 'cwd', what + ': changes the working directory')
    faulty = d.injected or hits or d.full or op['ext'] == 'svg' \
        or (name is not None and name.startswith('missing'))
    faulty = faulty or (name is not None and op['name'] == 'missing/model') \
        or op['absolute'] and op['name'] == 'missing/model'
    ctx.expect(r[0] == 'ok' or bool(faulty), 'fails', lambda: '%s fails with %r although '
        'nothing went wrong' % (what, r[1]))
    return None

def run(case, ctx):
    S = work.Session(work.namespace(case['program']))
    m = None
    for op in case['ops']:
        r = S.attempt(op)
        if op[0] == 'build':
            if r[0] != 'ok':
                raise core.Skip('a program does not compile')
            m = S.models[op[4]]
    root = os.path.realpath(tempfile.mkdtemp(prefix='c17-'))
    old = tempfile.tempdir
    back = os.getcwd()
    try:
        tmp = os.path.join(root, 'tmp')
        cwd = os.path.join(root, 'home')
        for d in (tmp, cwd, os.path.join(cwd, 'out'), os.path.join(cwd, 'dir')):
            os.mkdir(d)
        for base, names in ((cwd, BYSTANDERS), (tmp, TMP)):
            for n in names:
                with disk.REAL['open'](os.path.join(base, n), 'w') as f:
                    f.write('keep %s\n' % (n,))
        # The names of temporary files come from a seeded generator.
        tempfile._name_sequence = Names(5)
        for op in case['renders']:
            copy = root + '.dry'
            shutil.copytree(root, copy)
            try:
                n = twin(ctx, length, m, op, copy, os.path.join(copy, 'tmp'),
                    os.path.join(copy, 'home'), [])
            finally:
                shutil.rmtree(copy)
            plan = [[min(int(u*n), n - 1), f] for u, f in op['faults']] if n else []
            one(ctx, m, op, root, tmp, cwd, plan)
    finally:
        os.chdir(back)
        tempfile.tempdir = old
        shutil.rmtree(root, ignore_errors=True)

def shrink(case):
    for x in shrink_.lists(case['renders'], 1):
        yield dict(case, renders=x)
    for i, op in enumerate(case['renders']):
        def put(**kw):
            return dict(case, renders=case['renders'][:i] + [dict(op, **kw)]
                + case['renders'][i+1:])
        for f in shrink_.lists(op['faults']):
            yield put(faults=f)
        for k in ('other', 'show', 'absolute', 'xdev'):
            if op[k]:
                yield put(**{k: False})
        if op['ext']:
            yield put(ext=None)
    for x in shrink_.ops(case['ops']):
        if any(o[0] == 'build' for o in x):
            yield dict(case, ops=x)
