"""A check: build, run many seeded simulations, judge, minimise, report.

usage: check PROPERTY [--tier quick|thorough] [--seed N] [--workers N]
                      [--scale X] [--replay FILE]
"""
import argparse
import collections
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

import checks  # noqa: E402

REPO = '/repo'
PY = sys.executable
# signals by which the code under test ends a process of its own accord
CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE,
           signal.SIGILL, signal.SIGTRAP}
CHUNK_WALL = 300
ONE_WALL = 90
TOTAL_WALL = {'quick': 700, 'thorough': 6 * 3600}


class HarnessFailure(Exception):
    pass


def say(*args):
    print(*args, flush=True)


class Bench:
    """The scratch directory and the freshly built code."""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='zsec-sim-')
        self.ext = os.path.join(self.dir, 'ext')
        self.asan = None
        self.lock = threading.Lock()
        self.n = 0

    def build(self, cfgs=()):
        self.make(self.ext, {})
        if any('-asan' in c for c in cfgs):
            self.asan = self.ext + '-asan'
            self.make(self.asan, {'CFLAGS': ' '.join([
                '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
                '-fno-omit-frame-pointer', '-g', '-O1']),
                'LDFLAGS': '-fsanitize=address,undefined'})
            self.preload = ' '.join(
                subprocess.run(['gcc', '-print-file-name=' + n],
                               stdout=subprocess.PIPE,
                               check=True).stdout.decode().strip()
                for n in ('libasan.so', 'libubsan.so'))

    def make(self, into, extra_env):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        env.pop('PURE_PYTHON', None)
        env.update(extra_env)
        p = subprocess.run(
            [PY, 'setup.py', '-q', 'build_ext', '--build-lib', into,
             '--build-temp', into + '-tmp'], cwd=REPO,
            env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=300)
        folder = os.path.join(into, 'zope', 'security')
        have = os.listdir(folder) if os.path.isdir(folder) else []
        for base in ('_proxy.', '_zope_security_checker.'):
            if not any(f.startswith(base) and f.endswith('.so')
                       for f in have):
                raise HarnessFailure('build failed:\n'
                                     + p.stdout.decode(errors='replace'))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, '%06d.%s' % (self.n, suffix))

    def env(self, cfg, hashseed='0'):
        keep = {k: v for k, v in os.environ.items()
                if k in ('PATH', 'HOME', 'LANG', 'LC_ALL', 'TMPDIR')}
        env = dict(keep, PYTHONDONTWRITEBYTECODE='1',
                   PYTHONHASHSEED=hashseed, PYTHONNOUSERSITE='1',
                   ZOPE_INTERFACE_STRICT_IRO='1', SIM_EXT=self.ext,
                   SIM_REPO=REPO, SIM_SCRATCH=self.dir,
                   PURE_PYTHON='1' if cfg.startswith('pure') else '0')
        if '-watch' in cfg:
            env['ZOPE_WATCH_CHECKERS'] = cfg[-1]
        if '-dbg' in cfg:
            env['PYTHONMALLOC'] = 'debug'
        if '-asan' in cfg:
            env.update(
                SIM_EXT=self.asan, LD_PRELOAD=self.preload,
                PYTHONMALLOC='malloc', UBSAN_OPTIONS='abort_on_error=1',
                ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:'
                'allocator_may_return_null=1')
        return env

    def spawn(self, job, wall, hashseed='0'):
        """Run one worker; -> (records, returncode or 'timeout', stderr)"""
        fn = self.path('job')
        with open(fn, 'w') as f:
            json.dump(job, f)
        try:
            p = subprocess.Popen(
                [PY, os.path.join(HERE, 'worker.py'), fn],
                env=self.env(job['cfg'], hashseed), cwd=self.dir,
                stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, start_new_session=True)
            try:
                out, err = p.communicate(timeout=wall)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, err = p.communicate()
                rc = 'timeout'
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
        finally:
            os.unlink(fn)
        recs = []
        for line in out.decode(errors='replace').splitlines():
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
        return recs, rc, err.decode(errors='replace')


def crashed(rc):
    return isinstance(rc, int) and rc < 0 and -rc in CRASHES


def pick(recs, key):
    for r in recs:
        if key in r:
            return r
    return None


class Check:

    def __init__(self, args):
        self.args = args
        self.prop = args.property
        self.spec = checks.CHECKS[self.prop]
        self.bench = Bench()
        self.t0 = time.monotonic()
        self.tot = collections.Counter()
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.kinds = collections.Counter()
        self.perjob = {}
        self.traces = set()
        self.scheds = set()
        self.samples = []
        self.found = []

    # -- jobs ---------------------------------------------------------------

    def jobs(self):
        out = []
        for n, spec in enumerate(self.spec['jobs']):
            for cfg in spec['cfg']:
                count = spec[self.args.tier]
                count = max(1, int(count * self.args.scale))
                chunk = spec.get('chunk', 250)
                for start in range(0, count, chunk):
                    out.append(dict(
                        mode='run', prop=self.prop, scen=spec['scen'],
                        cfg=cfg, tag=spec.get('tag', ''),
                        profile=spec.get('profile') or {},
                        seed=self.args.seed, start=start,
                        count=min(chunk, count - start), n=n))
        # spread the kinds of work evenly over time
        out.sort(key=lambda j: (j['start'], j['n'], j['cfg']))
        return out

    def run(self):
        jobs = collections.deque(self.jobs())
        lock = threading.Lock()
        errors = []
        limit = self.t0 + TOTAL_WALL[self.args.tier]

        def loop():
            while True:
                with lock:
                    if not jobs or self.found or errors:
                        return
                    job = jobs.popleft()
                try:
                    if time.monotonic() > limit:
                        raise HarnessFailure('out of time')
                    self.batch(job, lock)
                except BaseException as e:
                    with lock:
                        errors.append(e)
                    return

        threads = [threading.Thread(target=loop)
                   for _ in range(self.args.workers)]
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if errors and not self.found:
            raise errors[0]

    def batch(self, job, lock):
        job['progress'] = self.bench.path('at')
        recs, rc, err = self.bench.spawn(job, CHUNK_WALL)
        s = pick(recs, 'summary')
        if s is None:
            try:
                at = int(open(job['progress']).read())
            except (OSError, ValueError):
                raise HarnessFailure('worker failed: %s\n%s' % (rc, err))
            if crashed(rc) or rc == 'timeout':
                what = 'crash' if crashed(rc) else 'hang'
                with lock:
                    self.found.append(dict(
                        job=job, index=at, case=None, schedule=None,
                        violation={'tags': [self.prop], 'class': what,
                                   'signal': str(rc),
                                   'stderr': err[-2000:]}))
                return
            raise HarnessFailure('worker failed (%s) in %s/%s run %d:\n%s' % (
                rc, job['scen'], job['cfg'], at, err[-6000:]))
        os.unlink(job['progress'])
        with lock:
            self.tot.update(s['summary'])
            self.faults.update(s['faults'])
            self.probes.update(s['probes'])
            self.kinds.update(s['kinds'])
            key = '%s%s/%s' % (job['scen'], job['tag'] and '-' + job['tag'],
                               job['cfg'])
            pj = self.perjob.setdefault(key, collections.Counter())
            pj.update({k: s['summary'][k]
                       for k in ('runs', 'ops', 'switches')})
            self.traces.update(job['scen'][:2] + t for t in s['traces'])
            self.scheds.update(s['scheds'])
            if len(self.samples) < 4 and s['samples']:
                self.samples.append({
                    'scenario': job['scen'], 'config': job['cfg'],
                    'run': job['start'], 'case': s['samples'][0]})
            if s['found']:
                f = s['found']
                f['job'] = job
                self.found.append(f)

    # -- a violation ----------------------------------------------------------

    def one(self, job, **kw):
        """Run one case in a process of its own -> (violation, record)"""
        j = {k: v for k, v in job.items()
             if k not in ('progress', 'start', 'count', 'n')}
        j.update(mode='one', **kw)
        recs, rc, err = self.bench.spawn(j, ONE_WALL)
        r = pick(recs, 'trace')
        if r is not None:
            return r['found'], r
        if crashed(rc):
            return {'tags': [self.prop], 'class': 'crash',
                    'signal': str(rc), 'stderr': err[-2000:]}, None
        if rc == 'timeout':
            return {'tags': [self.prop], 'class': 'hang'}, None
        raise HarnessFailure('worker failed (%s):\n%s' % (rc, err[-4000:]))

    def case_of(self, job, index):
        import subprocess  # noqa: F401
        j = dict(job, mode='cases', start=index, count=1)
        recs, rc, err = self.bench.spawn(j, ONE_WALL)
        r = pick(recs, 'case')
        if r is None:
            raise HarnessFailure('no case (%s): %s' % (rc, err[-2000:]))
        return r['case']

    def examine(self, f):
        """Confirm, minimise and write down what was found."""
        job = f['job']
        head = f['violation']['class'].split(':')[0]
        case = f['case'] or self.case_of(job, f['index'])
        sched = f['schedule']
        prefix = []
        unconfirmed = False

        def same(v):
            return v is not None and v['class'].split(':')[0] == head

        v, r = self.one(job, case=case, schedule=sched)
        if not same(v):
            # it takes what ran before in the same process
            lo = job['start']
            n = 1
            ok = False
            while True:
                first = max(lo, f['index'] - n)
                pre = [self.case_of(job, i) for i in range(
                    first, f['index'])] if n <= 8 else None
                kw = {'prefix': pre} if pre is not None else {
                    'prefix_range': [first, f['index']]}
                v, r = self.one(job, case=case, schedule=sched, **kw)
                if same(v):
                    ok = True
                    break
                if first == lo:
                    break
                n *= 4
            if ok:
                prefix = [self.case_of(job, i)
                          for i in range(first, f['index'])]
                i = 0
                end = time.monotonic() + 45
                while i < len(prefix) and time.monotonic() < end:
                    p2 = prefix[:i] + prefix[i + 1:]
                    v2, _ = self.one(job, case=case, schedule=sched,
                                     prefix=p2)
                    if same(v2):
                        prefix = p2
                    else:
                        i += 1
            else:
                unconfirmed = True
                v = f['violation']
        elif head in ('crash', 'hang'):
            case, sched = self.shrink_outside(job, case, sched, same)
        else:
            j = {k: x for k, x in job.items() if k != 'progress'}
            save = self.bench.path('best')
            j.update(mode='shrink', case=case, schedule=sched or [],
                     budget=60, save=save)
            j['class'] = f['violation']['class']
            recs, rc, err = self.bench.spawn(j, 150)
            best = pick(recs, 'case')
            if best is None and os.path.exists(save):
                best = json.load(open(save))
            if best is not None:
                v2, r2 = self.one(job, case=best['case'],
                                  schedule=best['schedule'])
                if same(v2):
                    case, sched, v, r = (best['case'], best['schedule'],
                                         v2, r2)
        if not unconfirmed:
            v, r = self.one(job, case=case, schedule=sched, prefix=prefix)
            if not same(v):
                unconfirmed = True
                v = f['violation']
        os.makedirs(os.path.join(VERIF, 'out'), exist_ok=True)
        path = os.path.join(VERIF, 'out', 'replay-%s-%s.json' % (
            self.prop, f['index']))
        with open(path, 'w') as fp:
            json.dump({
                'property': self.prop, 'scenario': job['scen'],
                'config': job['cfg'], 'tag': job['tag'],
                'profile': job['profile'], 'seed': job['seed'],
                'run': f['index'], 'violation': v,
                'unconfirmed': unconfirmed,
                'history': r and r['trace'],
                'prefix': prefix, 'case': case, 'schedule': sched,
            }, fp, indent=1)
        return v, path

    def shrink_outside(self, job, case, sched, same):
        from shrink import Shrinker

        def test(c, s):
            v, r = self.one(job, case=c, schedule=s)
            return same(v), s

        s = Shrinker(case, sched or [], test, None, 60)
        return s.run()

    # -- evidence -------------------------------------------------------------

    def evidence(self, violations):
        wall = time.monotonic() - self.t0
        tier = self.args.tier
        runs = self.tot['runs']
        cov = {
            'evaluations': runs,
            'distinct_nontrivial': len(self.traces),
            'rule': self.spec['rule'] + ' Distinct: runs whose complete '
            'canonical history (every callback with its arguments, every '
            'outcome) differs from that of every other run; non-trivial: '
            'at least one event beyond set-up happened.',
            'samples': self.samples,
            'operations': self.tot['ops'],
            'scheduling_points': self.tot['points'],
            'thread_switches': self.tot['switches'],
            'thread_switches_by_point': dict(sorted(self.kinds.items())),
            'distinct_interleavings': len(self.scheds),
            'faults_fired': dict(sorted(self.faults.items())),
            'faults_fired_total': sum(self.faults.values()),
            'reached': dict(sorted(self.probes.items())),
            'runs_by_scenario': {k: dict(v) for k, v in
                                 sorted(self.perjob.items())},
            'runs_per_hour': int(runs / wall * 3600) if wall else 0,
            'simulated_time': 'the code under test reads no clock and sets '
            'no timer; progress is counted in scheduling points',
            'real_components': self.spec['real'],
            'stubbed_components': self.spec['stub'],
        }
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence',
                               self.prop + '.json'), 'w') as f:
            json.dump({
                'property': self.prop, 'tier': tier,
                'seed': self.args.seed, 'level': 'exploration',
                'coverage': cov, 'assumptions': self.spec['assumptions'],
                'wall_s': round(wall, 2), 'violations': violations,
            }, f, indent=1, sort_keys=True)

    def needs(self):
        """Rare conditions the runs are there to reach."""
        missing = [p for p in self.spec.get('must_reach', ())
                   if not (self.probes.get(p) or self.faults.get(p))]
        if missing and self.args.scale >= 1:
            say('note: never reached in this run: ' + ', '.join(missing))

    def replay(self, path):
        rep = json.load(open(path))
        job = {'prop': rep['property'], 'scen': rep['scenario'],
               'cfg': rep['config'], 'tag': rep['tag'],
               'profile': rep['profile'], 'seed': rep['seed']}
        self.prop = rep['property']
        self.bench.build([rep['config']])
        v, r = self.one(job, case=rep['case'], schedule=rep['schedule'],
                        prefix=rep['prefix'], full=True)
        if v is None:
            say('the property holds on this replay')
            return 0
        if r is not None:
            say('history %s (recorded: %s)' % (r['trace'], rep['history']))
            say(r['full'][:4000])
        say(json.dumps(v, indent=1))
        say('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1

    def main(self):
        say('check %s tier=%s seed=%d workers=%d' % (
            self.prop, self.args.tier, self.args.seed, self.args.workers))
        self.bench.build([c for j in self.spec['jobs'] for c in j['cfg']])
        self.run()
        self.needs()
        for line in checks.known(self.prop):
            say('KNOWN-FINDING: property=%s %s' % (self.prop, line))
        if not self.found:
            self.evidence(0)
            say('%d runs, %d operations, %d switches, %d faults, %d distinct '
                'histories, %.1f s: property held' % (
                    self.tot['runs'], self.tot['ops'], self.tot['switches'],
                    sum(self.faults.values()), len(self.traces),
                    time.monotonic() - self.t0))
            return 0
        self.found.sort(key=lambda f: (f['index'], f['job']['n'],
                                       f['job']['cfg']))
        v, path = self.examine(self.found[0])
        self.evidence(1)
        say(json.dumps(v, indent=1)[:4000])
        say('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER')
                    or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--workers', type=int,
                    default=min(8, os.cpu_count() or 2))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    args = ap.parse_args()
    c = None
    try:
        c = Check(args)
        if args.replay:
            return c.replay(args.replay)
        return c.main()
    except HarnessFailure as e:
        print('HARNESS FAILURE: %s' % e, file=sys.stderr)
        return 3
    finally:
        if c is not None:
            c.bench.close()


if __name__ == '__main__':
    sys.exit(main())
