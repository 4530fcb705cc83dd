"""Programs of untrusted code over proxies, against the reference model."""
import mw
from scen import Result


def generate(rng, profile):
    return mw.Gen(rng, profile).case()


def execute(case, schedule=None):
    r = mw.evaluate(case, schedule)
    res = Result()
    w, k = r['w'], r['k']
    res.trace = (r['sut'], r['violation'] and r['violation']['class'])
    res.schedule = k.schedule
    res.points = k.npoints
    res.switches = k.switches
    res.switch_kinds = k.kinds
    res.faults = w.fired
    nev = 0
    for tr in r['sut']:
        res.ops += len(tr) - 1
        for evs, out in tr:
            nev += len(evs)
            for e in evs:
                if e[0] != 't':
                    res.probe('event:' + e[0])
            if out and out[0] == 'exc':
                res.probe('outcome:' + out[1])
            elif out and out[0] == 'ret':
                c = out[1]
                res.probe('outcome:' + (
                    'protected' if isinstance(c, tuple) and c[:1] == ('P',)
                    else 'value'))
    res.nontrivial = nev > 0
    if len(case['threads']) > 1 and res.switches:
        res.probe('run:threads-interleaved')
    v = r['violation']
    if v:
        v['tags'] = sorted(v['tags'])
        v['op'] = repr(v['op'])
        res.violations.append(v)
    return res


def simplify(case):
    """Smaller versions of a case."""
    import copy
    for key, val in (('traced', False), ('opcodes', False)):
        if case.get(key):
            c = copy.deepcopy(case)
            c[key] = val
            yield c
    for key in ('registry', 'roots', 'objs', 'checkers', 'grants'):
        for name in sorted(case[key]):
            c = copy.deepcopy(case)
            del c[key][name]
            for th in c['threads']:
                th['roots'] = [r for r in th['roots'] if r in c['roots']]
            if all(th['roots'] for th in c['threads'] if th['ops']):
                yield c
    for name in sorted(case['objs']):
        for m in sorted(case['objs'][name]['beh'] or {}):
            if m == '*':
                continue
            c = copy.deepcopy(case)
            del c['objs'][name]['beh'][m]
            yield c
    for name in sorted(case['checkers']):
        spec = case['checkers'][name]
        for d in ('get', 'set'):
            if len(spec.get(d) or ()) > 6:
                c = copy.deepcopy(case)
                half = sorted(spec[d])[::2]
                for m in half:
                    del c['checkers'][name][d][m]
                yield c
            for m in sorted(spec.get(d) or ()):
                c = copy.deepcopy(case)
                del c['checkers'][name][d][m]
                yield c
