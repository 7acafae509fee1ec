"""The drawing tools behind graphs of models: stand-ins for pygraphviz and dot.

write_dot writes a textual form of the graph; the tool reads it and writes an
image that says what was drawn.  Both go through the file functions of Python,
where the simulated disk acts."""

import hashlib
import io
import os
import subprocess

TRAILER = '// end of graph\n'

def dot_text(G):
    out = ['digraph {\n']
    for n, d in G.nodes(data=True):
        out.append('%s %r\n' % (n, sorted(d.items())))
    for a, b, d in G.edges(data=True):
        out.append('%s -> %s %r\n' % (a, b, sorted(d.items())))
    out.append('}\n')
    out.append(TRAILER)
    return ''.join(out)

def image_text(source, ext):
    h = hashlib.sha1(source.encode('utf-8')).hexdigest()
    return 'IMAGE %s %s\n%s END\n' % (ext, h, '.'*200)

class Tool():
    """Simulated dot; hook(step) is told what it does and may raise."""
    def __init__(self, hook=None):
        self.hook = hook or (lambda *a: None)
        self.runs = 0
        self.graphs = []
    def write_dot(self, G, path):
        self.graphs.append(G)
        text = dot_text(G)
        self.hook('write_dot', path)
        if hasattr(path, 'write'):
            path.write(text)
            return
        with open(path, 'w', encoding='utf-8') as f:
            for i in range(0, len(text), 200):
                f.write(text[i:i+200])
    def run(self, cmd, input=None, capture_output=False, check=False, quiet=False,
            cwd=None, **kwargs):
        self.runs += 1
        cmd = [os.fspath(c) if not isinstance(c, str) else c for c in cmd]
        fmt = [c[2:] for c in cmd if c.startswith('-T')][0].split(':')[0]
        files = [c for c in cmd[1:] if not c.startswith('-')]
        if '-o' in cmd:
            target = cmd[cmd.index('-o') + 1]
            files.remove(target)
        elif input is None:
            target = '%s.%s' % (files[0], fmt)
        join = lambda p: os.path.join(cwd or os.getcwd(), p)
        self.hook('start', cmd)
        if input is None:
            with open(join(files[0]), encoding='utf-8') as f:
                source = f.read()
        else:
            source = input.decode('utf-8') if isinstance(input, bytes) else input
        image = image_text(source.rstrip('\n'), fmt)
        if input is not None:
            return (image.encode('utf-8'), b'')
        with open(join(target), 'w', encoding='utf-8') as f:
            f.write(image[:60])
            f.flush()
            self.hook('middle', cmd)
            f.write(image[60:])
        self.hook('end', cmd)
        return (b'', b'')
    def view(self, filepath, quiet=False):
        self.hook('view', filepath)

class CalledProcessError(subprocess.CalledProcessError):
    pass

TOOL = None                 # the active Tool

def install():
    import networkx
    import networkx.drawing.nx_agraph as nx_agraph
    import graphviz
    import graphviz.backend as backend
    def write_dot(G, path):
        return (TOOL or Tool()).write_dot(G, path)
    def run(*args, **kwargs):
        return (TOOL or Tool()).run(*args, **kwargs)
    def view(*args, **kwargs):
        return (TOOL or Tool()).view(*args, **kwargs)
    nx_agraph.write_dot = write_dot
    networkx.nx_agraph.write_dot = write_dot
    backend.run = run
    backend.view = view
    graphviz.view = view

class active():
    def __init__(self, tool):
        self.tool = tool
    def __enter__(self):
        global TOOL
        TOOL = self.tool
        return self.tool
    def __exit__(self, *args):
        global TOOL
        TOOL = None
