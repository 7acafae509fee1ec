"""Copies of the simulator in processes with other hash seeds."""

import json
import os
import socket
import subprocess
import sys
import tempfile
import time

from . import core

_now = time.monotonic
_sleep = time.sleep
ENV = 'DST_REMOTE'

class Helper():
    """A server that runs play(args) in forks of a process of its own."""
    def __init__(self, prop, hashseed):
        self.dir = tempfile.mkdtemp(prefix='dst-helper-')
        self.path = os.path.join(self.dir, 's')
        env = dict(os.environ)
        env['PYTHONHASHSEED'] = str(hashseed)
        env[ENV] = self.path
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        self.proc = subprocess.Popen([sys.executable, os.path.join(here, 'engine.py'),
            'serve', prop], env=env, stdin=subprocess.PIPE,
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    def wait(self):
        end = _now() + 300
        while not os.path.exists(self.path + '.ready'):
            if self.proc.poll() is not None or _now() > end:
                raise core.HarnessError('helper did not start')
            _sleep(.05)
    def call(self, ctx, args):
        """Result of play(ctx, *args) there, like that of a twin."""
        s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        try:
            s.settimeout(200)
            s.connect(self.path)
            s.sendall(json.dumps(args).encode())
            s.shutdown(socket.SHUT_WR)
            chunks = []
            while True:
                c = s.recv(1 << 16)
                if not c:
                    break
                chunks.append(c)
        finally:
            s.close()
        data = b''.join(chunks)
        if not data:
            raise core.HarnessError('helper gave no answer')
        (res, dump) = json.loads(data.decode())
        if res[0] != 'ok':
            raise core.HarnessError('helper failed:\n%s' % (res[1],))
        ctx.absorb(dump)
        return res[1]

def serve(play):
    """Answer until the standard input is closed."""
    import select
    path = os.environ[ENV]
    s = socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
    s.bind(path)
    s.listen(64)
    open(path + '.ready', 'w').close()
    live = set()
    while True:
        (ready, _w, _x) = select.select([s, 0], [], [], .5)
        while live:
            (pid, _status) = os.waitpid(-1, os.WNOHANG)
            if pid == 0:
                break
            live.discard(pid)
        if 0 in ready:
            return
        if s not in ready:
            continue
        (c, _addr) = s.accept()
        pid = core._fork()
        if pid:
            live.add(pid)
            c.close()
            continue
        try:
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (200, 220))
            chunks = []
            while True:
                x = c.recv(1 << 16)
                if not x:
                    break
                chunks.append(x)
            ctx = core.Ctx()
            try:
                res = ['ok', play(ctx, *json.loads(b''.join(chunks).decode()))]
            except BaseException:
                import traceback
                res = ['error', traceback.format_exc()]
            c.sendall(json.dumps([res, ctx.dump()]).encode())
            c.close()
        finally:
            core._exit(0)
