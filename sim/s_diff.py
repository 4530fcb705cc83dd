"""The same case under both implementations: what one of them does that its
reference does not allow, and the other one does not do as well, is a
difference between them that is not among the documented ones (these are the
differences between the two references).  The histories of the small worlds
are also compared with each other."""
import boot
import scen
from base import pick
from peer import Peer
from scen import Result
from s_watchmore import inner

peers = []
WORLDS = [('mw', 12), ('combined', 3), ('registry', 2), ('adapters', 3),
          ('lifecycle', 1), ('policies', 1), ('builtins', 4)]
MIX = [('main', 8), ('attr', 6), ('un', 3), ('odd', 2), ('steal', 1),
       ('trust', 2), ('can', 1)]
PROFILES = [
    {'mix': MIX, 'bomb': 1},
    {'mix': MIX, 'grant': [.8, .95, 1.0], 'custom': [0.0, .2]},
    {'mix': MIX, 'grant': [1.0], 'custom': [0.0], 'plainexc': 1},
    {'mix': MIX, 'fault': [.3, .6], 'bomb': 1},
]
for _p in PROFILES:
    _p['threads'] = [(1, 1)]
    _p['noself'] = 1        # (a known limit of the Python implementation)


def quiet(case):
    """Without what happens at lines of the one or the other code."""
    case.pop('traced', None)
    case.pop('opcodes', None)
    # as it may show in the one schedule and not in the other
    del case['threads'][1:]
    for th in case['threads']:
        for o in th['ops']:
            if o.get('f') and o['f'][0] == 'line':
                del o['f']
    return case


def generate(rng, profile):
    world = profile.get('world') or pick(rng, WORLDS)
    prof = rng.choice(PROFILES) if world == 'mw' else {}
    return {'world': world, 'threads': [],
            'case': quiet(scen.load(world).generate(rng, prof))}


def run(case):
    """-> (Result, what deviates, history to compare or None)"""
    r = scen.load(case['world']).execute(case['case'])
    v = r.violations[0] if r.violations else None
    hist = None
    if case['world'] != 'mw':
        hist = normal(case['world'], r.trace[0])
    return r, v and {k: v.get(k) for k in (
        'class', 'thread', 'op_index', 'op', 'observed', 'expected')}, hist


def normal(world, log):
    if world == 'builtins':
        # full of addresses
        return []
    return [repr(x[2:]) for x in log if x[1] == 'op']


def documented(world, a, b):
    """Is this one of the differences of DESIGN.md?"""
    a, b = str(a), str(b)
    if world == 'registry':
        # no checker: an error of the one, no protection for the other
        return a.endswith(", 'none-checker')")
    if world in ('combined', 'adapters'):
        # the one that asks again after an AttributeError meets the failure
        return b.endswith(", 'failed')")
    return False


def answer(case):
    r, v, hist = run(case)
    return v, hist


def execute(case, schedule=None):
    if not peers:
        peers.append(Peer('c' if boot.PURE else 'pure', 'diff'))
    res, v, hist = run(case)
    v2, hist2 = peers[0].ask(case)
    res.violations = []
    res.schedule = []
    res.trace = (res.trace, v, v2)
    res.probe('world:' + case['world'])
    if bool(v) != bool(v2):
        d = v or v2
        res.bad(['C14'], 'only-%s:%s:%s' % (
            'c' if bool(v) != boot.PURE else 'pure', case['world'],
            d['class']), thread=d['thread'], op=d['op'],
            observed=d['observed'], expected=d['expected'])
    elif v:
        res.probe('both deviate')
    elif hist != hist2:
        n = 0
        if boot.PURE:
            hist, hist2 = hist2, hist
        for a, b in zip(hist + [None], hist2 + [None]):
            if a != b:
                break
            n += 1
        if not documented(case['world'], a, b):
            res.bad(['C14'], 'histories:' + case['world'], at=n, c=a, pure=b,
                    thread=0)
    return res


def close():
    for p in peers:
        p.close()


def simplify(case):
    for c in inner(scen.load(case['world']), case['case']):
        yield dict(case, case=c)
