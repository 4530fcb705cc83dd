"""Programs of the mediation world with the diagnostics of checks on: the log
is part of the history, and may fail."""
import boot
import mw
import s_mw
from peer import Peer
from probe import CUR

generate_mw = s_mw.generate
simplify = s_mw.simplify
VERDICT = {'Unauthorized': 'U', 'Forbidden': 'F', 'Granted': '+',
           'Always': '+'}
peers = []
# Text of a proxy in Python lets a TypeError through, see DESIGN.md.
EXC = [e for e in mw.BASE_EXC + mw.ODD_EXC
       if e != 'TypeError' or not boot.PURE]


def take(line):
    w = CUR.world
    if w is None:
        return
    words = line.split(' on ', 1)[0].replace(':', ' ').split()
    verdict = [VERDICT[x] for x in words[1:] if x in VERDICT]
    w.ev('l', verdict[0] if verdict else line, words[-1])


def generate(rng, profile):
    case = s_mw.generate(rng, profile)
    if rng.random() < .3:
        for o in case['objs'].values():
            if rng.random() < .4:
                case['badrepr'] = 1
                o['beh'] = dict(o['beh'] or {})
                o['beh']['__repr__'] = rng.choice(
                    [['raise', rng.choice(EXC)], ['raise', rng.choice(EXC)],
                     ['str', 'a\nb on c'], ['str', '\ud800'],
                     ['str', '100%'], ['str', '%s%(a)d{}'], ['str', '']]
                    + [['int', 3], ['none']] * (not boot.PURE))
    if rng.random() < .5:
        for th in case['threads']:
            for o in th['ops']:
                if o['o'] in mw.OPS or o['o'] in mw.NAMED:
                    if rng.random() < .4:
                        o['f'] = ['l', rng.choice([0, 0, 0, 1, 2]),
                                  rng.choice(EXC)]
    if boot.PURE:
        # any operation may meet a text here
        for th in case['threads']:
            for o in th['ops']:
                if (o.get('f') or [0, 0, 0])[2] == 'TypeError':
                    o['f'] = o['f'][:2] + ['ValueError']
    return case


def answer(case):
    """In the process without diagnostics."""
    v = mw.evaluate(case)['violation']
    return v and (v['class'], v['thread'], v['op_index'])


def quiet(case):
    """The same without what only the diagnostics meet."""
    case = dict(case, threads=[
        dict(th, ops=[{k: v for k, v in o.items()
                       if k != 'f' or v[0] != 'l'} for o in th['ops']])
        for th in case['threads']])
    return case


def execute(case, schedule=None):
    boot.LOG.taker = take
    try:
        res = s_mw.execute(case, schedule)
    finally:
        boot.LOG.taker = None
    for tr in res.trace[0]:
        for evs, out in tr:
            for e in evs:
                if e[0] == 'l':
                    res.probe('log:' + str(e[1])[:20])
    if res.violations:
        # is it there without the diagnostics, too?
        if not peers:
            peers.append(Peer('pure' if boot.PURE else 'c', 'watch'))
        other = peers[0].ask(quiet(case))
        v = res.violations[0]
        if other and (other[0] == v['class'] or other[1:] == (
                v['thread'], v['op_index'])):
            res.violations = []
            res.probe('same without diagnostics')
        else:
            v['tags'] = ['C13']
    return res


def close():
    for p in peers:
        p.close()
