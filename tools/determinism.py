#!/opt/venv/bin/python
"""Is one seed one execution?  Runs the same cases of every job in two
processes, which differ in the address layout and in what
they ran before, and compares cases, histories and schedules.

usage: determinism.py [N [SEED [PROPERTY...]]]
"""
import os
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'sim'))
import checks  # noqa: E402
import driver  # noqa: E402


def dump(bench, job, ranges, hashseed):
    out = {}
    for start, count in ranges:
        recs, rc, err = bench.spawn(dict(job, start=start, count=count), 900,
                                    hashseed)
        if rc != 0:
            print(job['prop'], job['cfg'], job['tag'], 'rc', rc, err[-500:])
        out.update((r['i'], (r['case'], r['trace'])) for r in recs
                   if 'trace' in r)
    return out


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    props = sys.argv[3:] or sorted(checks.CHECKS)
    jobs = []
    for p in props:
        for spec in checks.CHECKS[p]['jobs']:
            for cfg in spec['cfg']:
                jobs.append({'mode': 'dump', 'prop': p, 'seed': seed,
                             'scen': spec['scen'], 'cfg': cfg,
                             'tag': spec['tag'],
                             'profile': spec['profile'],
                             'tier': 'quick', 'known': []})
    bench = driver.Bench()
    try:
        bench.build([j['cfg'] for j in jobs])

        def one(job):
            a = dump(bench, job, [(0, n)], '0')
            h = n // 2
            b = dump(bench, job, [(h, n - h), (0, h)], '0')
            diff = [i for i in a if a[i] != b.get(i)]
            where = ''
            if diff:
                where = ' e.g. %s (%s)' % (
                    diff[:9], 'case' if a[diff[0]][0] != b.get(
                        diff[0], [0])[0] else 'history')
            return job, len(a), diff, where
        bad = 0
        with ThreadPoolExecutor(8) as pool:
            for job, k, diff, where in pool.map(one, jobs):
                print('%s %-12s %-10s %-12s %d runs, %d differ%s' % (
                    job['prop'], job['scen'], job['tag'], job['cfg'], k,
                    len(diff), where), flush=True)
                bad += bool(diff) or k != n
        print('differing jobs:', bad)
    finally:
        bench.close()
    sys.exit(bool(bad))


main()
