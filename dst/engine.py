"""Driver of simulated runs; runs under the interpreter of SPPL.

Every run is a fork of this process, which is warmed up in a fixed way, so that
a run is a function of its case (a JSON value) and of the code under test."""

import importlib
import json
import os
import random
import resource
import select
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(5000)

from sim import core
from sim import seams

now = time.monotonic
kill = os.killpg

def load(prop):
    """Install the seams, import the package under test, warm up."""
    warnings.simplefilter('ignore')
    random.seed(0)       # SymPy shuffles, which shows in what it caches
    seams.install()
    core.set_prefix(os.path.join(os.environ['DST_LIB'], 'sppl'))
    mod = importlib.import_module('props.' + prop.lower())
    mod.warm()
    import gc
    gc.collect()
    if hasattr(gc, 'freeze'):
        gc.freeze()
    return mod

# Whether an exception that escapes from the code under test is a violation.  It
# is once it is no oddity of one case: no run on a sound tree ends in one.
FAILS = [False]

# ----------------------------------------------------------------------------
# One run.

def execute(mod, job):
    """Result of a job: {'case':..} or {'index':..,'seed':..}."""
    ctx = core.Ctx()
    res = {'viol': None, 'status': 'ok', 'error': None}
    try:
        random.seed(0)
        sys.modules['numpy'].random.seed(0)
        case = job.get('case')
        if case is None:
            rng = random.Random(job['seed'])
            case = mod.gen(rng, job['tier'])
            case = json.loads(json.dumps(case))
        res['case'] = case
        if getattr(mod, 'OWN_WORLD', False):
            mod.run(case, ctx)
        else:
            # Simulated clock and timers: no run depends on real time.
            with seams.World(ctx):
                mod.run(case, ctx)
    except core.Skip as e:
        res['status'] = 'skip'
        res['error'] = str(e)[:300]
    except core.Violation as e:
        res['viol'] = [e.cls, e.msg]
        res['status'] = 'violation'
        ctx.log('VIOLATION', e.cls, e.msg)
    except BaseException as e:
        res['status'] = 'error'
        res['error'] = traceback.format_exc()[-3000:]
        res['inside'] = isinstance(e, Exception) and not isinstance(e, MemoryError) \
            and core.raised_inside(e)
        if FAILS[0] and res['inside']:
            res['viol'] = ['fails', 'an operation that must succeed fails: '
                + res['error'][-1500:]]
            res['status'] = 'violation'
            ctx.log('VIOLATION', *res['viol'])
    d = ctx.dump()
    import hashlib
    res['digest'] = hashlib.sha1('\n'.join(d['events']).encode()).hexdigest()
    if res['viol'] is None and not job.get('trace'):
        d['events'] = d['events'][:0]
    res.update(d)
    return res

class Pool():
    def __init__(self, mod, workers, limit):
        self.mod = mod
        self.workers = workers
        self.limit = limit
        self.live = {}          # fd -> [pid, job, chunks, start]
        self.done = []
    def start(self, job):
        (r, w) = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.setsid()
                os.close(r)
                for fd in self.live:
                    os.close(fd)
                null = os.open(os.devnull, os.O_RDWR)
                for fd in (0, 1):
                    os.dup2(null, fd)
                if not os.environ.get('DST_STDERR'):
                    os.dup2(null, 2)
                resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                data = json.dumps(execute(self.mod, job), default=repr).encode()
                core._write_all(w, data)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        self.live[r] = [pid, job, [], now()]
    def poll(self, timeout=.2):
        """Finished (job, result or None) pairs."""
        out = []
        (ready, _w, _x) = select.select(list(self.live), [], [], timeout)
        for fd in ready:
            c = os.read(fd, 1 << 16)
            if c:
                self.live[fd][2].append(c)
            else:
                out.append(self.reap(fd))
        for fd in list(self.live):
            if now() - self.live[fd][3] > self.live[fd][1].get('limit', self.limit):
                self.stop(fd)
                out.append(self.reap(fd, hung=True))
        return out
    def stop(self, fd):
        try:
            kill(self.live[fd][0], signal.SIGKILL)
        except OSError:
            try:
                os.kill(self.live[fd][0], signal.SIGKILL)
            except OSError:
                pass
    def reap(self, fd, hung=False):
        (pid, job, chunks, start) = self.live.pop(fd)
        os.close(fd)
        (_p, status) = os.waitpid(pid, 0)
        try:
            # Whatever the run left behind.
            kill(pid, signal.SIGKILL)
        except OSError:
            pass
        wall = now() - start
        if hung:
            return (job, {'status': 'hung', 'viol': None, 'wall': wall})
        try:
            res = json.loads(b''.join(chunks).decode())
        except ValueError:
            return (job, {'status': 'crash', 'viol': None, 'wall': wall,
                'error': 'exit status %r' % (status,)})
        res['wall'] = wall
        return (job, res)
    def close(self):
        for fd in list(self.live):
            self.stop(fd)
            self.reap(fd, hung=True)
    def map(self, jobs, stop=None, until=None):
        """Run jobs, which may be a generator; yields pairs as they finish."""
        it = iter(jobs)
        more = True
        while more or self.live:
            while more and len(self.live) < self.workers:
                if (stop and stop()) or (until and now() > until):
                    more = False
                    break
                try:
                    self.start(next(it))
                except StopIteration:
                    more = False
            if not self.live:
                break
            yield from self.poll()

# ----------------------------------------------------------------------------
# Minimisation.

def minimise(pool, mod, case, cls, budget):
    """Smaller case with a violation of the same class."""
    end = now() + budget
    steps = tried = 0
    seen = {json.dumps(case, sort_keys=True)}
    while now() < end:
        cands = []
        for c in mod.shrink(case):
            c = json.loads(json.dumps(c))
            k = json.dumps(c, sort_keys=True)
            if k not in seen:
                seen.add(k)
                cands.append(c)
            if len(cands) >= 160:
                break
        best = None
        found = []
        jobs = ({'case': c, 'n': i} for i, c in enumerate(cands))
        for job, res in pool.map(jobs, stop=lambda: bool(found), until=end):
            tried += 1
            if res.get('viol') and res['viol'][0] == cls:
                found.append(job['n'])
        if not found:
            break
        case = cands[min(found)]
        steps += 1
    return case, steps, tried

# ----------------------------------------------------------------------------
# Commands.

def job_stream(prop, seed, tier, n):
    for i in range(n):
        yield {'index': i, 'seed': '%s/%s/%d' % (prop, seed, i), 'tier': tier}

def check(prop, tier, seed, workers, n=None):
    t0 = now()
    verif = os.path.dirname(HERE)
    mod = load(prop)
    twarm = now() - t0
    runs = n or mod.RUNS[tier]
    wall = float(os.environ.get('DST_WALL') or mod.WALL[tier])
    pool = Pool(mod, workers, 150 if tier == 'quick' else 240)
    results = []
    violations = []
    again = []
    errors = []
    tstart = now()
    until = tstart + wall
    for job, res in pool.map(job_stream(prop, seed, tier, runs),
            stop=lambda: bool(violations), until=until):
        if res['status'] in ('hung', 'crash'):
            again.append(job)
        else:
            results.append((job, res))
            if res['viol']:
                violations.append((job, res))
            elif res['status'] == 'error':
                errors.append((job, res))
    # Runs that did not finish get another chance, on their own.
    hung = []
    for job in again[:4]:
        if violations:
            break
        single = Pool(mod, 1, 200)
        for job, res in single.map([dict(job, limit=200)]):
            if res['status'] in ('hung', 'crash'):
                hung.append((job, res))
            else:
                results.append((job, res))
                if res['viol']:
                    violations.append((job, res))
                elif res['status'] == 'error':
                    errors.append((job, res))
    trun = now() - tstart
    inside = [j for j, r in errors if r.get('inside')]
    if not violations and len(inside) > max(1, .01*len(results)):
        FAILS[0] = True
        pool.close()
        violations = [(j, r) for j, r in pool.map(inside[:8]) if r['viol']]
    report(mod, prop, tier, seed, results, errors, hung, violations, runs,
        trun, twarm, t0, workers)
    if violations:
        violations.sort(key=lambda x: x[0]['index'])
        for v in violations[:3]:
            code = violation(pool, mod, prop, tier, seed, [v])
            if code == 1:
                break
        return code
    if hung and getattr(mod, 'HANG', None):
        (job, res) = hung[0]
        case = mod.gen(random.Random(job['seed']), job['tier'])
        path = save_replay(prop, seed, job, case, ['hang', mod.HANG], [], 0)
        print('%s: %s' % (prop, mod.HANG))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if hung:
        print('ERROR: %d runs did not finish: %r' % (len(hung), hung[0]))
        return 2
    if errors and len(errors) > .02*len(results):
        print('ERROR: %d runs failed in the harness, e.g. seed %s:\n%s'
            % (len(errors), errors[0][0]['seed'], errors[0][1]['error']))
        return 2
    good = [r for _j, r in results if r['status'] == 'ok']
    if len(good) < min(5, runs):
        print('ERROR: only %d runs completed' % (len(good),))
        return 2
    for line in known_findings(prop):
        print(line)
    print('%s: held on %d runs (%d non-trivial) in %.0f s' % (prop, len(good),
        len([r for r in good if r['nontrivial']]), now() - t0))
    return 0

def known_findings(prop):
    path = os.path.join(os.path.dirname(HERE), 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return ['KNOWN-FINDING: property=%s %s' % (prop, x['what'])
        for x in data['findings'] if x['property'] == prop]

def save_replay(prop, seed, job, case, viol, trace, steps):
    verif = os.path.dirname(HERE)
    d = os.path.join(verif, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s-%s.json' % (prop, seed, job.get('index')))
    with open(path, 'w') as f:
        json.dump({
            'property': prop,
            'seed': job.get('seed'),
            'violation': viol,
            'minimised_steps': steps,
            'case': case,
            'trace': trace,
            'replay': 'python3 /verif/dst/main.py replay %s' % (path,),
        }, f, indent=1)
        f.write('\n')
    return path

def violation(pool, mod, prop, tier, seed, violations):
    pool.limit = 60
    (job, res) = violations[0]
    cls = res['viol'][0]
    print('%s: violation at seed %s: %s: %s' % (prop, job['seed'], cls,
        res['viol'][1][:2000]))
    sys.stdout.flush()
    case = res['case']
    steps = tried = 0
    if hasattr(mod, 'shrink') and not os.environ.get('DST_NOMIN'):
        try:
            (case, steps, tried) = minimise(pool, mod, case, cls,
                60 if tier == 'quick' else 180)
        except Exception:
            traceback.print_exc()
        pool.close()
    # The minimised case must fail in the same way, twice, identically.
    for c in (case, res['case']):
        got = [r for _j, r in pool.map([{'case': c, 'trace': True}]*2)]
        ok = all(r.get('viol') and r['viol'][0] == cls for r in got) \
            and got[0]['digest'] == got[1]['digest']
        if ok:
            path = save_replay(prop, seed, job, c, got[0]['viol'],
                got[0]['events'], steps)
            print('%s: minimised in %d steps (%d candidates): %s: %s' % (prop,
                steps, tried, got[0]['viol'][0], got[0]['viol'][1][:2000]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        steps = 0
    if all(r.get('viol') and r['viol'][0] == cls for r in got):
        # What varies is outside of the simulation: the code under test draws
        # on something that it must not depend on.
        path = save_replay(prop, seed, job, res['case'], got[0]['viol'],
            got[0]['events'], 0)
        print('%s: violated in every replay, though not identically' % (prop,))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('ERROR: the violation did not replay')
    return 2

def report(mod, prop, tier, seed, results, errors, hung, violations, runs,
        trun, twarm, t0, workers):
    """Write the evidence file."""
    verif = os.path.dirname(HERE)
    good = [(j, r) for j, r in results if r['status'] in ('ok', 'violation')]
    nontrivial = [(j, r) for j, r in good if r['nontrivial']]
    faults = {}
    stats = {}
    distinct = set()
    for _j, r in good:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['stats'].items():
            stats[k] = stats.get(k, 0) + v
        distinct.update(r['distinct'])
    samples = [{'seed': j['seed'], 'case': r['case'], 'digest': r['digest'],
        'faults': r['faults']} for j, r in nontrivial[:3]]
    keys = set(r['digest'] for _j, r in nontrivial)
    simtime = sum(r['simtime'] for _j, r in good)
    evidence = {
        'property': prop,
        'tier': tier,
        'seed': int(seed),
        'level': 'exploration',
        'coverage': {
            'evaluations': len(results),
            'distinct_nontrivial': len(keys),
            'rule': mod.RULE,
            'samples': samples,
            'planned_runs': runs,
            'skipped_runs': len([1 for _j, r in results if r['status'] == 'skip']),
            'harness_errors': len(errors),
            'unfinished_runs': len(hung),
            'runs_per_hour': round(3600*len(results)/max(trun, .001)),
            'seeds_per_hour': round(3600*len(results)/max(trun, .001)),
            'simulated_seconds': round(simtime, 3),
            'faults_injected': faults,
            'probes': stats,
            'distinct_states': len(distinct),
            'distinct_measure': mod.MEASURE,
            'real_components': mod.REAL,
            'stub_components': mod.STUB,
            'workers': workers,
            'warmup_s': round(twarm, 2),
        },
        'assumptions': mod.ASSUMPTIONS,
        'wall_s': round(now() - t0, 2),
        'violations': len(violations),
    }
    d = os.path.join(verif, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '%s.json' % (prop,)), 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')

def replay(path, workers):
    with open(path) as f:
        data = json.load(f)
    prop = data['property']
    mod = load(prop)
    pool = Pool(mod, 1, 200)
    FAILS[0] = data['violation'][0] == 'fails'
    [(_j, res)] = list(pool.map([{'case': data['case'], 'trace': True}]))
    for e in res.get('events', []):
        print(e)
    if res['viol']:
        same = res['viol'] == data['violation']
        print('reproduced%s: %s: %s' % ('' if same else ' (not identically)',
            res['viol'][0], res['viol'][1]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if res['status'] == 'hung' and data['violation'][0] == 'hang':
        print('reproduced: the run does not finish')
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('not reproduced: %s %s' % (res['status'], res.get('error') or ''))
    return 0 if res['status'] in ('ok', 'skip') else 2

def digests(prop, tier, seed, workers, n):
    """Print the digest of every run, to compare with another process."""
    mod = load(prop)
    pool = Pool(mod, workers, 240)
    out = {}
    slow = []
    for job, res in pool.map(job_stream(prop, seed, tier, n)):
        out[job['index']] = [res['status'], res.get('digest'),
            res['viol'] or (res['error'] or '')[-1500:] if res['status'] != 'ok' else '']
        slow.append((round(res['wall'], 1), job['index']))
    for i in sorted(out):
        print(json.dumps([i] + out[i]))
    sys.stderr.write('slow %r mean %.2f\n' % (sorted(slow)[-8:],
        sum(w for w, _i in slow)/max(1, len(slow))))
    return 0

def main(argv):
    cmd = argv[0]
    workers = int(os.environ.get('DST_WORKERS') or os.cpu_count() or 4)
    seed = os.environ.get('VERIF_SEED', '1')
    if cmd == 'check':
        tier = argv[2]
        return check(argv[1], tier, seed, workers,
            int(argv[3]) if len(argv) > 3 else None)
    if cmd == 'replay':
        return replay(argv[1], workers)
    if cmd == 'digests':
        return digests(argv[1], argv[2], seed, workers, int(argv[3]))
    if cmd == 'serve':
        load(argv[1]).serve()
        return 0
    raise SystemExit('unknown command %s' % (cmd,))

if __name__ == '__main__':
    sys.stdout.flush()
    try:
        code = main(sys.argv[1:])
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
