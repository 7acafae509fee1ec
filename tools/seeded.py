#!/usr/bin/env python3
"""Runs the checks against the planted bugs, in scratch copies of /repo.

usage: seeded.py [--all] [--tier quick] [--runs N] [ID...]
Prints one line per bug (and check): caught or missed, with the first violation.
With --all every check is run against every bug, otherwise the bug's own property only.
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def main():
    p = argparse.ArgumentParser()
    p.add_argument('ids', nargs='*')
    p.add_argument('--all', action='store_true')
    p.add_argument('--tier', default='quick')
    p.add_argument('--runs', default=None)
    a = p.parse_args()
    seeded = os.path.join(VERIF, 'seeded')
    ids = a.ids or sorted(os.listdir(seeded))
    manifest = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    claimed = [c['property'] for c in manifest['checks']]
    for i in ids:
        d = os.path.join(seeded, i)
        meta = json.load(open(os.path.join(d, 'meta.json')))
        scratch = tempfile.mkdtemp(prefix='dst-seeded-')
        try:
            repo = os.path.join(scratch, 'repo')
            subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
            subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], check=True)
            for prop in (claimed if a.all else [meta['property']]):
                env = dict(os.environ, DST_REPO=repo, DST_NOMIN='1', VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
                cmd = [sys.executable, os.path.join(VERIF, 'dst', 'main.py'), 'check', prop, '--tier', a.tier]
                if a.runs:
                    cmd += ['--runs', a.runs]
                t = time.time()
                r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    universal_newlines=True, cwd=VERIF)
                lines = [x for x in r.stdout.splitlines() if x.strip()]
                print('%-32s %s %-7s %4.0fs  %s' % (i, prop,
                    {0: 'missed', 1: 'caught'}.get(r.returncode, 'ERROR'), time.time() - t,
                    ' | '.join(lines)[:300] if r.returncode else ''), flush=True)
        finally:
            shutil.rmtree(scratch)

if __name__ == '__main__':
    main()
