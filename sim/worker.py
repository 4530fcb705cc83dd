"""One process of a check: runs a batch of simulated executions.

Reads a job (JSON) from the file named on the command line and writes the
answer as JSON lines to stdout.
"""
import json
import os
import resource
import sys
import time

_out = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)          # whatever the code prints is none of our protocol


def emit(**kw):
    _out.write(json.dumps(kw) + '\n')
    _out.flush()


def main():
    job = json.load(open(sys.argv[1]))
    if '-asan' not in job['cfg']:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(1500)
    import boot  # noqa: F401
    import scen
    mod = scen.load(job['scen'])
    getattr(sys.modules[__name__], 'do_' + job['mode'])(job, mod, scen)
    if hasattr(mod, 'close'):
        mod.close()
    emit(done=True)
    _out.flush()
    os._exit(0)


def bump(into, d):
    for k, v in d.items():
        into[k] = into.get(k, 0) + v


def do_run(job, mod, scen):
    prop = job['prop']
    fd = os.open(job['progress'], os.O_WRONLY | os.O_CREAT, 0o600)
    tot = {'runs': 0, 'ops': 0, 'points': 0, 'switches': 0, 'nontrivial': 0}
    faults, probes, kinds = {}, {}, {}
    traces, scheds = set(), set()
    samples = []
    found = None
    for i in range(job['start'], job['start'] + job['count']):
        os.pwrite(fd, b'%12d' % i, 0)
        case = scen.make_case(mod, job, i)
        r = mod.execute(case)
        tot['runs'] += 1
        tot['ops'] += r.ops
        tot['points'] += r.points
        tot['switches'] += r.switches
        bump(faults, r.faults)
        bump(probes, r.probes)
        bump(kinds, r.switch_kinds)
        h = scen.digest(r.trace)
        if r.nontrivial and h not in traces:
            traces.add(h)
        if r.nontrivial:
            tot['nontrivial'] += 1
        if r.switches:
            scheds.add(scen.digest((h, r.schedule)))
        if not samples and r.nontrivial and i == job['start']:
            s = json.dumps(case)
            samples.append(case if len(s) < 6000 else {
                'case (cut)': s[:3000]})
        v = r.violation(prop)
        if v is not None:
            found = {'index': i, 'violation': v, 'case': case,
                     'schedule': r.schedule, 'trace': h}
            break
    emit(summary=tot, faults=faults, probes=probes, kinds=kinds,
         traces=sorted(traces), scheds=sorted(scheds), samples=samples,
         found=found)


def do_one(job, mod, scen):
    for c in job.get('prefix') or ():
        mod.execute(c)
    if job.get('prefix_range'):
        for i in range(*job['prefix_range']):
            mod.execute(scen.make_case(mod, job, i))
    case = job.get('case')
    if case is None:
        case = scen.make_case(mod, job, job['index'])
    r = mod.execute(case, job.get('schedule'))
    emit(found=r.violation(job['prop']), trace=scen.digest(r.trace),
         schedule=r.schedule, case=case,
         full=repr((r.trace, r.schedule, r.points)) if job.get('full') else None)


def head(cls):
    return cls.split(':')[0]


def do_shrink(job, mod, scen):
    from shrink import Shrinker
    cls = head(job['class'])

    def test(case, schedule):
        r = mod.execute(case, schedule)
        v = r.violation(job['prop'])
        return (v is not None and head(v['class']) == cls), r.schedule

    last = [0]

    def save(case, schedule):
        if time.monotonic() - last[0] > 0.5:
            last[0] = time.monotonic()
            tmp = job['save'] + '.tmp'
            with open(tmp, 'w') as f:
                json.dump({'case': case, 'schedule': schedule}, f)
            os.replace(tmp, job['save'])

    s = Shrinker(job['case'], job['schedule'], test,
                 getattr(mod, 'simplify', None), job['budget'], save)
    case, schedule = s.run()
    emit(case=case, schedule=schedule, tries=s.tries)


def do_cases(job, mod, scen):
    for i in range(job['start'], job['start'] + job['count']):
        emit(case=scen.make_case(mod, job, i))


def do_dump(job, mod, scen):
    """Histories of a range of runs, for comparing processes."""
    for i in range(job['start'], job['start'] + job['count']):
        case = scen.make_case(mod, job, i)
        r = mod.execute(case)
        emit(i=i, trace=scen.digest((r.trace, r.schedule, r.points)),
             case=scen.digest(case))


if __name__ == '__main__':
    main()
