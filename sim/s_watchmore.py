"""Other worlds with the diagnostics of checks on; what goes wrong there and
not without them is the diagnostics' fault."""
import boot
import scen
from peer import Peer

peers = []
WORLDS = ['combined', 'combined', 'registry', 'adapters', 'lifecycle']


def generate(rng, profile):
    world = profile.get('world') or rng.choice(WORLDS)
    return {'world': world,
            'case': scen.load(world).generate(rng, profile),
            'threads': []}


def answer(case):
    r = scen.load(case['world']).execute(case['case'])
    return [v['class'] for v in r.violations]


def execute(case, schedule=None):
    boot.LOG.taker = len
    try:
        res = scen.load(case['world']).execute(case['case'], schedule)
    finally:
        boot.LOG.taker = None
    res.probe('world:' + case['world'])
    if res.violations:
        if not peers:
            peers.append(Peer('pure' if boot.PURE else 'c', 'watchmore'))
        if peers[0].ask(case):
            res.violations = []
            res.probe('same without diagnostics')
        else:
            for v in res.violations:
                v['tags'] = ['C13']
    return res


def close():
    for p in peers:
        p.close()


def simplify(case):
    mod = scen.load(case['world'])
    for c in inner(mod, case['case']):
        yield dict(case, case=c)


def inner(mod, case):
    import copy
    if hasattr(mod, 'simplify'):
        yield from mod.simplify(case)
    for n, th in enumerate(case['threads']):
        for i in reversed(range(len(th['ops']))):
            c = copy.deepcopy(case)
            del c['threads'][n]['ops'][i]
            yield c
        for i, o in enumerate(th['ops']):
            if o.get('f'):
                c = copy.deepcopy(case)
                del c['threads'][n]['ops'][i]['f']
                yield c
