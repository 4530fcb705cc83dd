"""Histories of registered permissions, and what the listings, vocabularies
and lookups make of them."""
from base import BASE_EXC
from base import Base
from base import injected
from base import pick
from base import sched_params
from base import show

import zope.component
import zope.security.permission as sp
from zope.component import hooks
from zope.interface import implementer
from zope.interface.interfaces import IComponentLookup
from zope.interface.registry import Components
from zope.security.checker import CheckerPublic
from zope.security.interfaces import IPermission
from zope.security.testing import addCheckerPublic

PUBLIC = 'zope.Public'
IDS = ['a', 'b', 'B', 'zope.View', 'Zope', 'zope.Public', 'zope.Public2',
       'zope.public', 'Public', '', 'z', 'CheckerPublic', '\xe9', '0']
gsm = zope.component.getGlobalSiteManager()


class ISpecial(IPermission):
    """A more special kind of permission."""


@implementer(IPermission)
class Own:
    """An application's kind of permission."""

    def __init__(self, id):
        self.id = id
        self.title = 'zzz'
        self.description = ''


class Falsy(Own):

    def __bool__(self):
        return False


class Empty(Own):

    def __len__(self):
        return 0


@implementer(ISpecial)
class Special(Own):
    pass


class Named:
    """Provides nothing: registered for the interface all the same."""

    def __init__(self, id):
        self.id = id


KINDS = {'std': sp.Permission, 'own': Own, 'falsy': Falsy, 'empty': Empty,
         'special': Special, 'named': Named}


class Any(str):
    """An id that says it is equal to everything."""

    __hash__ = str.__hash__

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False


class Context:

    def __init__(self, world, n):
        self.world = world
        self.n = n

    def __conform__(self, iface):
        if iface is IComponentLookup:
            self.world.cb('lookup', self.n)
            return self.world.sites[self.n]

    def getSiteManager(self):
        return self.world.sites[self.n]


class Lost:
    """Belongs to no place."""


class Noting(Components):
    """Where the registry's own work is a point in the schedule."""

    world = None

    def getUtilitiesFor(self, iface):
        self.world.cb('list')
        for x in Components.getUtilitiesFor(self, iface):
            self.world.cb('next')
            yield x

    def queryUtility(self, *args, **kw):
        self.world.cb('query')
        r = Components.queryUtility(self, *args, **kw)
        self.world.cb('queried')
        return r


class World(Base):

    TAGS = ('C19',)
    always_traced = True

    def setup(self):
        self.sites = [gsm]
        # what each site has registered itself, and all of its past
        self.own = [{}]
        for n, bases in enumerate(self.case['sites']):
            b = sorted({x % len(self.sites) for x in bases}, reverse=True)
            c = Noting('site%d' % n, tuple(self.sites[x] for x in b))
            c.world = self
            self.sites.append(c)
            self.own.append({})
        self.contexts = [Context(self, n) for n in range(len(self.sites))]
        self.kept = {}
        self.hooked = self.case.get('hooks')
        if self.hooked:
            hooks.setHooks()
        self.site = {}

    def teardown(self):
        self.muted = True
        hooks.resetHooks()
        hooks.setSite(None)
        for (name, iface), p in list(self.own[0].items()):
            gsm.unregisterUtility(p, IPermission if iface == 0 else ISpecial,
                                  name)
        left = list(gsm.getUtilitiesFor(IPermission))
        if left:
            raise AssertionError(left)

    def thread(self, tid):
        hooks.setSite(None)
        self.site[tid] = None
        self.kept[tid] = []
        Base.thread(self, tid)

    # -- the model ------------------------------------------------------------

    def order(self, n):
        """The places looked at, nearest first."""
        all = [s.utilities for s in self.sites]
        return [all.index(u) for u in self.sites[n].utilities.ro]

    def known(self, n):
        """-> name -> permission"""
        out = {}
        for x in reversed(self.order(n)):
            for (name, iface), p in self.own[x].items():
                out[name] = p
        return out

    def changed(self):
        for tid, w in self.watching.items():
            w[1].append(self.known(w[0]))

    watching = {}

    def op(self, tid, o):
        return getattr(self, 'op_' + o['o'])(tid, o)

    def context(self, tid, o):
        """-> the context to give, and the place that means"""
        n = o['ctx']
        if n is None:
            s = self.site[tid]
            if self.hooked and s is not None:
                return None, s
            return None, 0
        if n < 0:
            return Lost(), 0 if self.hooked else None
        n %= len(self.sites)
        return self.contexts[n], n

    def op_register(self, tid, o):
        n = o['site'] % len(self.sites)
        name = o['name']
        if any((name, 1 - x) in self.own[s] for x in (0, 1)
               for s in range(len(self.own))
               if x == (1 if o['kind'] == 'special' else 0)):
            return                # which one counts is the registry's affair
        iface = 1 if o['kind'] == 'special' else 0
        if o['kind'] == 'public':
            name = PUBLIC
            n = 0
            if (name, 1) in self.own[0]:
                return
            task = self.k.tasks[tid]
            old, task.traced = task.traced, False
            p = addCheckerPublic()
            task.traced = old
        else:
            if o['kind'] == 'alias':
                # one that is already there, under another name
                there = [p for own in self.own
                         for (_n, i), p in sorted(own.items()) if i == 0]
                if not there:
                    return
                p = there[o['of'] % len(there)]
                self.res.probe('alias')
            else:
                p = KINDS[o['kind']](name)
            self.sites[n].registerUtility(
                p, ISpecial if iface else IPermission, name)
        self.own[n][name, iface] = p
        self.changed()
        self.res.probe('registered')
        return name

    def op_unregister(self, tid, o):
        n = o['site'] % len(self.sites)
        if not self.own[n]:
            return
        keys = sorted(self.own[n])
        name, iface = keys[o['n'] % len(keys)]
        p = self.own[n][name, iface]
        self.sites[n].unregisterUtility(
            p, ISpecial if iface else IPermission, name)
        del self.own[n][name, iface]
        self.changed()
        return name

    def op_site(self, tid, o):
        if not self.hooked:
            return
        n = o['site']
        if n is None:
            hooks.setSite(None)
            self.site[tid] = None
        else:
            n %= len(self.sites)
            hooks.setSite(self.contexts[n])
            self.site[tid] = n
        return n

    def ask(self, tid, o, fn, *args):
        ctx, n = self.context(tid, o)
        past = []
        if n is not None:
            past = [self.known(n)]
            self.watching = dict(self.watching)
            self.watching[tid] = (n, past)
        try:
            r = self.call(tid, o.get('f'), fn, ctx, *args)
        finally:
            self.watching = {k: v for k, v in self.watching.items()
                             if k != tid}
        if self.fired(tid):
            self.expect(r[0] == 'exc' and injected(r[1]), 'failure-lost',
                        observed=show(r), how=o['o'])
            return None, past
        if n is None:
            self.expect(r[0] == 'exc', 'lost-context', observed=show(r))
            return None, past
        return r, past

    def op_check(self, tid, o):
        p = o['name']
        if p == 'public':
            p = CheckerPublic
        elif p == 'any':
            p = Any('any')
        elif o.get('fresh'):
            p = ''.join(list(p))
        if p is CheckerPublic:
            r = self.call(tid, None, sp.checkPermission,
                          self.context(tid, o)[0], p)
            self.expect(r == ('ret', None), 'public-undefined',
                        observed=show(r))
            return
        r, past = self.ask(tid, o, sp.checkPermission, p)
        if r is None:
            return
        yes = any(p in k for k in past)
        no = any(p not in k for k in past)
        if r[0] == 'ret':
            self.expect(yes and r[1] is None, 'undefined-accepted', name=p,
                        observed=show(r))
        else:
            self.expect(no, 'defined-refused', name=p, observed=show(r))
            self.expect(type(r[1]) is ValueError, 'refusal',
                        observed=show(r))
        self.res.probe('checked:' + r[0])
        return r[0]

    def op_all(self, tid, o):
        ask = sp.allPermissions
        r, past = self.ask(tid, o, lambda ctx: list(ask(ctx)))
        if r is None:
            return
        self.expect(r[0] == 'ret', 'all-failed', observed=show(r))
        got = r[1]
        self.expect(any(sorted(got) == sorted(x for x in k if x != PUBLIC)
                        for k in past), 'all', observed=repr(got),
                    expected=repr([sorted(k) for k in past]))
        self.res.probe('listed:%d' % min(len(got), 3))
        return sorted(got)

    def op_vocabulary(self, tid, o):
        ids = o['ids']
        r, past = self.ask(tid, o, sp.PermissionIdsVocabulary if ids
                           else sp.PermissionsVocabulary)
        if r is None:
            return
        if not ids and r[0] == 'exc' and collides(past):
            # a vocabulary has no value twice
            self.expect(type(r[1]) is ValueError, 'vocabulary-failed',
                        observed=show(r))
            self.res.probe('collision')
            return 'collision'
        self.expect(r[0] == 'ret', 'vocabulary-failed', observed=show(r))
        v = r[1]
        got = self.terms(v, ids)
        want = [self.expected(k, ids) for k in past]
        self.expect(got in want, 'vocabulary', ids=ids, observed=repr(got),
                    expected=repr(want))
        self.kept[tid].append((v, ids, got))
        self.members(v, ids, past[-1] if len(past) == 1 else None)
        self.res.probe('vocabulary:%d' % min(len(got), 3))
        return [x[:2] for x in got]

    def expected(self, known, ids):
        if ids:
            out = [(n, n, id(n) and n) for n in
                   sorted(x for x in known if x != PUBLIC)]
            if PUBLIC in known:
                out.insert(0, (PUBLIC, 'Public', 'PUBLIC'))
        else:
            out = sorted((n, None, id(p)) for n, p in known.items())
        return out

    def terms(self, v, ids):
        out = []
        for t in v:
            if ids:
                out.append((token(t), t.title,
                            'PUBLIC' if t.value is CheckerPublic
                            else t.value))
            else:
                out.append((token(t), t.title, id(t.value)))
        self.expect(len(v) == len(out), 'length')
        return out if ids else sorted(out)

    def members(self, v, ids, known):
        if known is None:
            return
        if not ids:
            for n, p in known.items():
                self.expect(p in v, 'not-a-member', name=n)
            return
        for n in IDS:
            want = n in known and n != PUBLIC
            self.expect((n in v) is want, 'member', name=n)
        self.expect((CheckerPublic in v) is (PUBLIC in known), 'member',
                    name='the marker')

    def op_again(self, tid, o):
        """What was listed before is still what it was."""
        if not self.kept[tid]:
            return
        v, ids, got = self.kept[tid][o['n'] % len(self.kept[tid])]
        self.expect(self.terms(v, ids) == got, 'changed-later')
        return len(got)

    def op_lazy(self, tid, o):
        """The listing read step by step, with changes in between."""
        ctx, n = self.context(tid, o)
        if n is None:
            return
        before = self.known(n)
        past = [before]
        self.watching = dict(self.watching)
        self.watching[tid] = (n, past)
        try:
            it = sp.allPermissions(ctx)
            got = []
            for x in it:
                got.append(x)
                if o['step']:
                    getattr(self, 'op_' + o['step']['o'])(tid, o['step'])
        finally:
            self.watching = {k: v for k, v in self.watching.items()
                             if k != tid}
        always = set(past[0])
        ever = set()
        for k in past:
            always &= set(k)
            ever |= set(k)
        self.expect(always - {PUBLIC} <= set(got) <= ever - {PUBLIC},
                    'lazy', observed=repr(got))
        self.expect(len(got) == len(set(got)), 'twice', observed=repr(got))
        return len(got)


def token(t):
    return t.token if t.token != '\\xe9' else '\xe9'


def collides(past):
    return any(len({id(p) for p in k.values()}) < len(k) for k in past)


# -- generation ---------------------------------------------------------------

def gen_change(rng):
    if rng.random() < .65:
        return {'o': 'register', 'site': rng.randrange(8),
                'name': rng.choice(IDS), 'of': rng.randrange(99),
                'kind': pick(rng, [('std', 6), ('own', 3), ('falsy', 1),
                                   ('empty', 1), ('special', 1.5),
                                   ('named', 1), ('public', 1.5),
                                   ('alias', 1.5)])}
    return {'o': 'unregister', 'site': rng.randrange(8),
            'n': rng.randrange(99)}


def gen_op(rng, faults):
    k = pick(rng, [('change', 8), ('check', 5), ('all', 3),
                   ('vocabulary', 5), ('again', 1), ('lazy', 1),
                   ('site', 1)])
    if k == 'change':
        return gen_change(rng)
    o = {'o': k}
    if k == 'site':
        o['site'] = rng.choice([None, 0, 1, 2, 3])
        return o
    if k == 'again':
        o['n'] = rng.randrange(99)
        return o
    o['ctx'] = pick(rng, [(None, 6), (0, 1), (1, 2), (2, 2), (3, 2),
                          (-1, .5)])
    if k == 'check':
        o['name'] = rng.choice(IDS + ['public', 'nothing', 'any'])
        o['fresh'] = rng.random() < .5
    elif k == 'vocabulary':
        o['ids'] = rng.random() < .6
    elif k == 'lazy':
        o['step'] = rng.choice([None, gen_change(rng)])
    if faults and k != 'lazy' and rng.random() < .35:
        kind = rng.choice(['lookup', 'line', 'line'] + {
            'check': ['query', 'queried']}.get(k, ['list', 'next', 'next']))
        o['f'] = [kind, rng.randrange(20 if kind == 'line' else 3),
                  rng.choice(['KeyboardInterrupt', 'MemoryError', 'Injected',
                              'SystemExit'] if kind == 'line' else
                             # these end a generator, or mean "not adapted"
                             [e for e in BASE_EXC
                              if e not in ('StopIteration',
                                           'GeneratorExit', 'TypeError',
                                           'AttributeError')])]
    return o


def generate(rng, profile):
    nt = pick(rng, [(1, 4), (2, 2), (3, 1)])
    case = sched_params(rng, nt)
    faults = rng.random() < .6
    case['sites'] = [[rng.randrange(n + 1)
                      for _ in range(rng.choice([1, 1, 1, 0, 2]))]
                     for n in range(rng.randrange(4))]
    case['hooks'] = rng.random() < .5
    case['threads'] = [
        {'ops': [gen_op(rng, faults)
                 for _ in range(rng.choice([10, 20, 40]))]}
        for _ in range(nt)]
    return case


def execute(case, schedule=None):
    return World(case, schedule).go()
