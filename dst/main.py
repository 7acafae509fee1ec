#!/usr/bin/env python3
"""Command line of the simulator.

  main.py check C05 [--tier quick|thorough] [--runs N]
  main.py replay FILE
  main.py digests C05 --runs N

The package under test is copied from /repo's working tree (DST_REPO to use
another one) into a scratch directory, which is removed afterwards."""

import argparse
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PYTHON = os.environ.get('DST_PYTHON') or '/opt/venv/bin/python'

def build(repo, lib):
    """The layout that setup.py gives the package, without installing it."""
    skip = shutil.ignore_patterns('__pycache__', '*.pyc')
    shutil.copytree(os.path.join(repo, 'src'), os.path.join(lib, 'sppl'), ignore=skip)
    shutil.copytree(os.path.join(repo, 'magics'),
        os.path.join(lib, 'sppl', 'magics'), ignore=skip)

def main():
    p = argparse.ArgumentParser()
    p.add_argument('command', choices=['check', 'replay', 'digests'])
    p.add_argument('target')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    p.add_argument('--runs', type=int)
    args = p.parse_args()
    repo = os.environ.get('DST_REPO') or '/repo'
    scratch = tempfile.mkdtemp(prefix='dst-')
    proc = None
    try:
        lib = os.path.join(scratch, 'lib')
        tmp = os.path.join(scratch, 'tmp')
        os.mkdir(tmp)
        build(repo, lib)
        env = dict(os.environ)
        env.update(PYTHONPATH=lib, DST_LIB=lib, PYTHONDONTWRITEBYTECODE='1',
            OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', LC_ALL='C.UTF-8',
            TMPDIR=tmp, HOME=tmp, IPYTHONDIR=tmp, MPLCONFIGDIR=tmp)
        env['PYTHONHASHSEED'] = os.environ.get('DST_HASHSEED') or '0'
        for k in ('SPPL_NO_SYMBOLIC', 'SPPL_NO_SIMPLIFY'):
            env.pop(k, None)
        cmd = [PYTHON, os.path.join(HERE, 'engine.py'), args.command, args.target]
        if args.command == 'replay':
            cmd[-1] = os.path.abspath(args.target)
        else:
            cmd.append(args.tier)
            if args.runs:
                cmd.append(str(args.runs))
        proc = subprocess.Popen(cmd, env=env, cwd=tmp, start_new_session=True)
        return proc.wait()
    finally:
        if proc is not None:
            try:
                os.killpg(proc.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(scratch, ignore_errors=True)

def terminate(signum, frame):
    sys.exit(2)

if __name__ == '__main__':
    signal.signal(signal.SIGTERM, terminate)
    sys.exit(main())
