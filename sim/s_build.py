"""Checkers built from names, interfaces and specifications that fail, are
interrupted, come in any form, and change later."""
from base import BASE_EXC
from base import Base
from base import injected
from base import pick
from base import sched_params
from base import show

import zope.security.checker as zc
import zope.security.management as zm
from zope.interface import Attribute
from zope.interface import Interface
from zope.security.interfaces import ForbiddenAttribute
from zope.security.interfaces import Unauthorized
from zope.security.proxy import Proxy
from zope.security.simplepolicies import ParanoidSecurityPolicy

NAMES = ['a', 'b', 'c', 'd', 'e', 'f', '__len__', '__call__', '__iter__',
         'n', 'names', 'data', 'permission_i', 'items']
PERMS = ['p', 'q', 'r', '', 'zope.Public']
MARK = zc.CheckerPublic


class IA(Interface):
    a = Attribute('a')

    def b():
        """b"""


class IB(IA):
    c = Attribute('c')

    def a():
        """a, again"""


class IC(Interface):
    d = Attribute('d')

    def __len__():
        """length"""


class ID(IC, IB):
    """Nothing of its own."""


class IE(Interface):
    pass


IFACES = [IA, IB, IC, ID, IE]


class Odd:
    """A permission that is no string."""


class Anyone(str):
    """A permission that takes itself for any other."""

    __hash__ = str.__hash__

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


class Mapping:
    """Has items, and is nothing else."""

    def __init__(self, world, pairs):
        self.world = world
        self.pairs = pairs

    def items(self):
        for p in list(self.pairs.items()):
            self.world.cb('next')
            yield p


class Target:
    pass


class World(Base):

    TAGS = ('C20',)
    always_traced = True

    def setup(self):
        world = self
        self.odd = [Odd(), Odd(), Anyone('other')]
        self.made = {}
        self.asked = {}
        self.answers = {}

        class Policy(ParanoidSecurityPolicy):
            def checkPermission(self, permission, object):
                tid = world.k.tid
                world.asked[tid].append(permission)
                return world.answers[tid]
        self.old = zm.setSecurityPolicy(Policy)

    def teardown(self):
        zm.setSecurityPolicy(self.old)

    def thread(self, tid):
        # [checker, expected names, what can be changed]
        self.made[tid] = []
        self.sources = []
        self.asked[tid] = []
        zm.newInteraction()
        try:
            Base.thread(self, tid)
            for n in range(len(self.made[tid])):
                self.decide(tid, n)
        finally:
            zm.endInteraction()

    def op(self, tid, o):
        return getattr(self, 'op_' + o['o'])(tid, o)

    # -- arguments --------------------------------------------------------------

    def perm(self, p):
        k = p[0]
        if k == 'pub':
            return MARK
        if k == 'none':
            return None
        if k == 'odd':
            return self.odd[p[1]]
        if k == 'fresh':
            return ''.join([c for c in p[1]])
        return p[1]

    def names(self, d, keep):
        """-> the argument, the names that it gives"""
        k, names = d[0], d[1]
        if k == 'iface':
            i = IFACES[names]
            return i, [n for n in NAMES if n in i.names(all=True)]
        if k == 'list':
            v = list(names)
            keep.append(v)
            return v, list(names)
        if k == 'tuple':
            return tuple(names), list(names)
        if k == 'set':
            v = set(names)
            keep.append(v)
            return v, sorted(set(names))
        if k == 'dict':
            v = dict.fromkeys(names)
            keep.append(v)
            return v, list(dict.fromkeys(names))
        if k == 'keys':
            v = dict.fromkeys(names)
            keep.append(v)
            return v.keys(), list(dict.fromkeys(names))
        if k == 'str':
            v = ''.join(n for n in names if len(n) == 1)
            return v, list(v)
        if k == 'iter':
            return iter(list(names)), list(names)

        def gen():
            for n in names:
                self.cb('next')
                yield n
        return gen(), list(names)

    # -- the model ----------------------------------------------------------------

    @staticmethod
    def add(data, name, perm):
        """-> 'same', 'conflict' or None"""
        if name in data and data[name] is not perm:
            old = data[name]
            if type(old) is str and type(perm) is str and old == perm:
                # the very same permission, said twice
                return 'same'
            return 'conflict'
        data[name] = perm
        return None

    def op_build(self, tid, o):
        keep = []
        data = {}
        verdicts = []
        kind = o['kind']
        kw = {n: self.perm(p) for n, p in o.get('kw', {}).items()}
        if kind in ('names', 'iface'):
            arg, names = self.names(o['names'], keep)
            data.update(kw)
            args = [arg]
            perm = MARK
            if o['perm'] is not None:
                perm = self.perm(o['perm'])
                args.append(perm)
            for n in names:
                verdicts.append(self.add(data, n, perm))
            fn = zc.NamesChecker if kind == 'names' else zc.InterfaceChecker
            if o.get('default'):
                fn, args, verdicts = zc.NamesChecker, [], []
                data = dict(kw)
        else:
            kw = {}
            specs = []
            for s in o['specs']:
                if s[0] == 'names':
                    arg, names = self.names(s[1], keep)
                    perm = self.perm(s[2])
                    specs.append((arg, perm))
                    for n in names:
                        verdicts.append(self.add(data, n, perm))
                else:
                    pairs = {n: self.perm(p) for n, p in s[1].items()}
                    keep.append(pairs)
                    specs.append(pairs if s[0] == 'dict'
                                 else Mapping(self, pairs))
                    for n, p in pairs.items():
                        verdicts.append(self.add(data, n, p))
            if o['as'] == 'tuple':
                specs = tuple(specs)
            elif o['as'] == 'gen':
                specs = self.lazily(specs)
            else:
                keep.append(specs)
            args = [specs]
            fn = zc.MultiChecker
        before = [snapshot(k) for k in keep]
        r = self.call(tid, o.get('f'), lambda: fn(*args, **kw))
        self.expect([snapshot(k) for k in keep] == before,
                    'argument-changed', kind=kind)
        if self.fired(tid):
            self.expect(r[0] == 'exc' and injected(r[1]), 'failure-lost',
                        observed=show(r))
            return 'failed'
        dup = r[0] == 'exc' and isinstance(r[1], zc.DuplicationError)
        if 'conflict' in verdicts:
            self.expect(dup, 'conflict-accepted', observed=show(r),
                        kind=kind)
            self.res.probe('conflict')
            return 'conflict'
        if dup and 'same' in verdicts:
            return 'same'
        self.expect(r[0] == 'ret', 'refused', observed=show(r), kind=kind)
        if type(r[1]) is not zc.Checker and not hasattr(
                type(r[1]), 'check_getattr'):
            self.bad('no-checker', observed=show(r))
        self.made[tid].append([r[1], data, keep])
        self.decide(tid, len(self.made[tid]) - 1)
        self.res.probe('built:%s:%d' % (kind, min(len(data), 4)))
        return sorted(data)

    def lazily(self, specs):
        for s in specs:
            self.cb('next')
            yield s

    def decide(self, tid, n):
        checker, data, keep = self.made[tid][n]
        ob = Target()
        for name in NAMES:
            want = data.get(name)
            for how in ('check_getattr', 'check', 'check_setattr'):
                for answer in (True, False):
                    self.answers[tid] = answer
                    self.asked[tid] = []
                    r = self.call(tid, None, getattr(checker, how), ob, name)
                    asked = self.asked[tid]
                    if how == 'check_setattr':
                        ok, q = ForbiddenAttribute, []
                    elif want is MARK:
                        ok, q = None, []
                    elif want is None:
                        ok, q = ForbiddenAttribute, []
                        if name == '__iter__':
                            # neither items nor iteration of its own
                            ok = None
                    else:
                        ok, q = None if answer else Unauthorized, [want]
                    good = (r == ('ret', None) if ok is None else
                            r[0] == 'exc' and type(r[1]) is ok)
                    self.expect(good and len(asked) == len(q) and all(
                        a is b for a, b in zip(asked, q)), 'decision',
                        name=name, how=how, answer=answer, observed=show(r),
                        asked=repr(asked), declared=repr(
                            {k: perm_name(v) for k, v in data.items()}))
                    if want is None or want is MARK:
                        break
        self.res.ops += len(NAMES) * 3

    # -- later ----------------------------------------------------------------

    def op_change(self, tid, o):
        """The arguments belong to the application."""
        if not self.made[tid]:
            return
        n = o['n'] % len(self.made[tid])
        keep = self.made[tid][n][2]
        if not keep:
            return
        v = keep[o['m'] % len(keep)]
        t = type(v)
        if t is list:
            if o['clear']:
                v.clear()
            else:
                v.append(o['name'])
        elif t is set:
            if o['clear']:
                v.clear()
            else:
                v.add(o['name'])
        else:
            if o['clear']:
                v.clear()
            v[o['name']] = MARK
        self.decide(tid, n)

    def op_declare(self, tid, o):
        """More is declared for one of them: for no other."""
        if not self.made[tid]:
            return
        n = o['n'] % len(self.made[tid])
        checker, data, keep = self.made[tid][n]
        table = checker.get_permissions
        if not isinstance(table, dict):
            return
        p = self.perm(o['perm'])
        table[o['name']] = p
        data[o['name']] = p
        for m in range(len(self.made[tid])):
            self.decide(tid, m)

    def op_again(self, tid, o):
        if self.made[tid]:
            self.decide(tid, o['n'] % len(self.made[tid]))

    def op_use(self, tid, o):
        """Through a proxy."""
        if not self.made[tid]:
            return
        checker, data, keep = self.made[tid][o['n'] % len(self.made[tid])]
        name = o['name']
        if name.startswith('__'):
            return
        ob = Target()
        setattr(ob, name, 42)
        self.answers[tid] = True
        self.asked[tid] = []
        r = self.call(tid, None, getattr, Proxy(ob, checker), name)
        if data.get(name) is None:
            self.expect(r[0] == 'exc' and type(r[1]) is ForbiddenAttribute,
                        'used', observed=show(r))
        else:
            self.expect(r == ('ret', 42), 'refused', observed=show(r))
        r = self.call(tid, None, setattr, Proxy(ob, checker), name, 1)
        self.expect(r[0] == 'exc' and type(r[1]) is ForbiddenAttribute,
                    'written', observed=show(r))


def perm_name(p):
    return 'PUBLIC' if p is MARK else p if type(p) is str else type(
        p).__name__


def snapshot(v):
    if type(v) is dict:
        return [(k, id(x)) for k, x in v.items()]
    if type(v) is list:
        return [x if type(x) is str else id(x) for x in v]
    return sorted(v)


# -- generation -----------------------------------------------------------------

def gen_perm(rng):
    k = pick(rng, [('pub', 3), ('none', .7), ('str', 6), ('fresh', .7),
                   ('odd', .7)])
    if k == 'odd':
        return [k, rng.randrange(3)]
    if k in ('str', 'fresh'):
        return [k, rng.choice(PERMS)]
    return [k]


def gen_names(rng, few=False):
    k = pick(rng, [('list', 4), ('tuple', 2), ('set', 1), ('dict', 1),
                   ('keys', .5), ('str', 1), ('iter', 1), ('gen', 3),
                   ('iface', 0 if few else 2)])
    if k == 'iface':
        return [k, rng.randrange(len(IFACES))]
    names = [rng.choice(NAMES) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    return [k, names]


def gen_kw(rng):
    return {rng.choice(NAMES[:9] + ['n']): gen_perm(rng)
            for _ in range(rng.choice([0, 0, 0, 1, 2]))}


def gen_op(rng, faults):
    k = pick(rng, [('build', 10), ('change', 3), ('declare', 1.5),
                   ('again', 1), ('use', 2)])
    o = {'o': k, 'n': rng.randrange(99)}
    if k == 'build':
        kind = pick(rng, [('names', 4), ('iface', 2), ('multi', 5)])
        o['kind'] = kind
        if kind == 'multi':
            one = gen_perm(rng)
            o['as'] = rng.choice(['list', 'tuple', 'gen'])
            o['specs'] = []
            for _ in range(rng.choice([0, 1, 2, 2, 3])):
                if rng.random() < .6:
                    o['specs'].append([
                        'names', gen_names(rng),
                        one if rng.random() < .5 else gen_perm(rng)])
                else:
                    o['specs'].append([
                        rng.choice(['dict', 'dict', 'mapping']),
                        {rng.choice(NAMES): one if rng.random() < .5
                         else gen_perm(rng)
                         for _ in range(rng.randrange(4))}])
        else:
            o['perm'] = None if rng.random() < .25 else gen_perm(rng)
            o['kw'] = gen_kw(rng)
            if o['perm'] and rng.random() < .5:
                o['kw'] = {n: o['perm'] for n in o['kw']}
            if kind == 'names':
                o['names'] = gen_names(rng, True)
                if rng.random() < .05:
                    o['default'] = True
            else:
                o['names'] = ['iface', rng.randrange(len(IFACES))]
        if faults and rng.random() < .3:
            kind = rng.choice(['next', 'line'])
            o['f'] = [kind, rng.randrange(15 if kind == 'line' else 4),
                      rng.choice(['KeyboardInterrupt', 'MemoryError',
                                  'Injected', 'SystemExit']
                                 if kind == 'line' else
                                 [e for e in BASE_EXC
                                  if e not in ('StopIteration',
                                               'GeneratorExit')])]
    elif k == 'change':
        o.update(m=rng.randrange(9), clear=rng.random() < .3,
                 name=rng.choice(NAMES))
    elif k == 'declare':
        o.update(name=rng.choice(NAMES), perm=gen_perm(rng))
    elif k == 'use':
        o['name'] = rng.choice(NAMES)
    return o


def generate(rng, profile):
    nt = pick(rng, [(1, 4), (2, 2), (3, 1)])
    case = sched_params(rng, nt)
    faults = rng.random() < .6
    case['threads'] = [
        {'ops': [gen_op(rng, faults)
                 for _ in range(rng.choice([6, 12, 20]))]}
        for _ in range(nt)]
    return case


def execute(case, schedule=None):
    return World(case, schedule).go()
