"""Trusted and untrusted adapter factories (C12)."""
from base import BASE_EXC
from base import Base
from base import LINE_EXC
from base import injected
from base import pick
from base import sched_params
from base import show

import zope.security.checker as zc
from zope.interface import directlyProvides
from zope.interface import implementer
from zope.location import ILocation
from zope.location.location import LocationProxy
from zope.proxy import getProxiedObject
from zope.security.adapter import LocatingTrustedAdapterFactory
from zope.security.adapter import LocatingUntrustedAdapterFactory
from zope.security.adapter import TrustedAdapterFactory
from zope.security.checker import Checker
from zope.security.checker import CheckerPublic
from zope.security.checker import CombinedChecker
from zope.security.checker import ProxyFactory
from zope.security.interfaces import ForbiddenAttribute
from zope.security.proxy import Proxy
from zope.security.proxy import getChecker
from zope.security.proxy import getObject

IS_C = zc._c_available
ABSENT = object()
NAMES = ['a', 'b', '__parent__', '__name__', '__len__']
KINDS = ['bare', 'prop', 'slot', 'direct', 'noattr', 'readonly', 'delegate']
KIND_OF_FACTORY = {'trusted': TrustedAdapterFactory,
                   'ltrusted': LocatingTrustedAdapterFactory,
                   'luntrusted': LocatingUntrustedAdapterFactory}


class Context:
    """Something to adapt."""

    def __init__(self, world, label, own, parent=None):
        self.w = world
        self.label = label
        self.own = own
        self.__parent__ = parent

    @property
    def __Security_checker__(self):
        self.w.cb('own', self.label)
        if self.own is None:
            raise AttributeError('__Security_checker__')
        return self.own


class Plain(Context):
    pass


class Empty(Context):
    """One that is false."""

    def __len__(self):
        return 0


class Sly(Context):
    """One that is equal to everything."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1


@implementer(ILocation)
class Located(Context):
    __name__ = None


class Adapter(Context):
    a = 1
    b = 2


class Bare(Adapter):
    """No location."""


@implementer(ILocation)
class PropParent(Adapter):

    __name__ = None

    @property
    def __parent__(self):
        self.w.cb('pget', self.label)
        return self.__dict__.get('parent')

    @__parent__.setter
    def __parent__(self, v):
        if 'parent' in self.__dict__:
            self.w.cb('pset', self.label)
        self.__dict__['parent'] = v


@implementer(ILocation)
class Slotted(Adapter):
    __name__ = 'slotted'


class Direct(Adapter):
    """Only the instance says that it is a location."""

    def __init__(self, *args):
        Adapter.__init__(self, *args)
        self.__name__ = None
        directlyProvides(self, ILocation)


@implementer(ILocation)
class NoAttr(Adapter):

    def __init__(self, *args):
        Adapter.__init__(self, *args)
        del self.__parent__


@implementer(ILocation)
class ReadOnly(Adapter):

    @property
    def __parent__(self):
        self.w.cb('pget', self.label)
        return self.__dict__['parent']

    def __init__(self, world, label, own, parent=None):
        self.__dict__.update(w=world, label=label, own=own, parent=parent)


@implementer(ILocation)
class Picky(Adapter):
    """Accepts a parent only once."""

    def __setattr__(self, name, v):
        if name == '__parent__' and '__parent__' in self.__dict__:
            self.w.cb('pset', self.label)
        self.__dict__[name] = v


ADAPTERS = {'bare': Bare, 'prop': PropParent, 'slot': Slotted,
            'direct': Direct, 'noattr': NoAttr, 'readonly': ReadOnly,
            'picky': Picky}
CONTEXTS = {'plain': Plain, 'empty': Empty, 'located': Located, 'sly': Sly}
ALL = sorted(ADAPTERS) + sorted(CONTEXTS)
CLASS = dict(ADAPTERS, **CONTEXTS)


class World(Base):

    TAGS = ('C12',)

    def setup(self):
        c = self.case
        self.always_traced = any(
            (o.get('f') or [''])[0] == 'line'
            for th in c['threads'] for o in th['ops'])
        self.cks = [Checker({n: CheckerPublic for n in spec['get']},
                            {n: CheckerPublic for n in spec['set']})
                    for spec in c['checkers']]
        self.muted = True
        self.reg = {}
        for name, what in c['registry'].items():
            t = LocationProxy if name == 'LP' else CLASS[name]
            if what == 'noproxy':
                zc.defineChecker(t, zc.NoProxy)
                self.reg[t] = None
            else:
                ck = self.ck(what[1])
                if what[0] == 'direct':
                    zc.defineChecker(t, ck)
                    self.reg[t] = ck
                else:
                    def factory(ob, ck=ck):
                        self.cb('factory')
                        return ck
                    zc.defineChecker(t, factory)
                    self.reg[t] = ck if what[0] == 'factory' else None
                    if what[0] == 'nofactory':
                        zc.undefineChecker(t)

                        def factory(ob):
                            self.cb('factory')
                        zc.defineChecker(t, factory)
        self.data = []
        for tid, th in enumerate(c['threads']):
            d = {'contexts': [], 'adapters': []}
            for n, spec in enumerate(th['contexts']):
                d['contexts'].append(self.context(spec, '%d.c%d' % (tid, n)))
            self.data.append(d)
        self.muted = False

    def teardown(self):
        for t in self.reg:
            zc._checkers.pop(t, None)

    def ck(self, n):
        return self.cks[n % len(self.cks)]

    def context(self, spec, label):
        if spec['k'] == 'int':
            return 12345678
        if spec['k'] == 'none':
            return None
        if spec['k'] == 'list':
            return []
        ob = CLASS[spec['k']](self, label, None if spec['own'] is None
                              else self.ck(spec['own']))
        return ob

    # -- the model --------------------------------------------------------

    def select(self, ob):
        """-> the checker of an unproxied object, or None"""
        if type(ob) is Proxy:
            return getChecker(ob)
        if isinstance(type(ob), type) and issubclass(type(ob), Context):
            if ob.own is not None:
                return ob.own
        if type(ob) in self.reg:
            return self.reg[type(ob)]
        return zc.selectChecker(ob)

    def located(self, ob):
        if type(ob) is Proxy:
            ob = getObject(ob)
        return isinstance(ob, LocationProxy) or type(ob) in (
            PropParent, Slotted, Direct, NoAttr, ReadOnly, Located, Picky)

    def parent_of(self, ob):
        """-> the parent an object has, without asking it"""
        if isinstance(ob, LocationProxy):
            return ob.__parent__
        d = object.__getattribute__(ob, '__dict__')
        if type(ob) in (PropParent, ReadOnly):
            return d.get('parent')
        return d.get('__parent__', ABSENT)

    # -- operations ---------------------------------------------------------

    def op(self, tid, o):
        return getattr(self, 'op_' + o['o'])(tid, o, self.data[tid])

    def args(self, d, spec):
        out = []
        for n, how in spec:
            ob = d['contexts'][n % len(d['contexts'])]
            if how is not None:
                self.muted = True
                try:
                    p = ProxyFactory(ob) if how < 0 else None
                finally:
                    self.muted = False
                if how >= 0:
                    p = Proxy(ob, self.ck(how))
                ob = p
            out.append(ob)
        return out

    def op_adapt(self, tid, o, d):
        args = self.args(d, o['args'])
        raw = [getObject(x) if type(x) is Proxy else x for x in args]
        seen = []
        given = []
        how = o['ret']

        def factory(*got):
            seen.append(got)
            self.cb('make')
            k = how['k']
            if k == 'raise':
                e = {'type': TypeError('could not adapt'),
                     'comp': LookupError('nothing'),
                     'forb': ForbiddenAttribute('x', 1)}[how['exc']]
                given.append(e)
                raise e
            if k == 'arg':
                r = got[how['n'] % len(got)]
            elif k == 'old' and d['adapters']:
                r = d['adapters'][how['n'] % len(d['adapters'])]
            elif k == 'int':
                r = 77
            elif k == 'none':
                r = None
            elif k == 'list':
                r = []
            elif k == 'lp':
                # around a location, strict resolution orders forbid it
                r = LocationProxy(
                    self.fresh(d, dict(how, cls='bare'), got, tid))
                r.__parent__ = self.parent(d, how, got)
            else:
                r = self.fresh(d, how, got, tid)
                if k == 'proxied':
                    r = Proxy(r, self.ck(how['n']))
            given.extend([r, self.parent_now(r)])
            return r
        factory.__name__ = 'f%d' % self.res.ops
        kind = o['kind']
        w = self.call(tid, None, KIND_OF_FACTORY[kind], factory)
        self.expect(w[0] == 'ret', 'factory-refused', observed=show(w))
        w = w[1]
        self.expect((w.__name__, w.__module__) == (
            factory.__name__, factory.__module__), 'factory-name')
        f = o.get('f')
        for again in range(o.get('times', 1)):
            mark = len(self.log)
            del seen[:], given[:]
            r = self.call(tid, f, w, *args)
            out = self.judge(tid, o, d, kind, args, raw, seen, given, r,
                             mark)
            if out == 'failed':
                break
            f = None
        return out

    def fresh(self, d, how, got, tid):
        label = '%d.a%d' % (tid, len(d['adapters']))
        was, self.muted = self.muted, True
        try:
            r = ADAPTERS[how['cls']](
                self, label, None if how.get('own') is None
                else self.ck(how['own']), self.parent(d, how, got))
        finally:
            self.muted = was
        d['adapters'].append(r)
        return r

    def parent(self, d, how, got):
        p = how.get('parent')
        if p is None:
            return None
        if p == 'arg':
            return got[-1]
        if p == 'proxy':
            return Proxy(object(), Checker({}))
        if p == 'zero':
            return 0
        return d['contexts'][p % len(d['contexts'])]

    def parent_now(self, ob):
        if type(ob) is Proxy:
            ob = getObject(ob)
        if self.located(ob):
            return self.parent_of(ob)
        return ABSENT

    def judge(self, tid, o, d, kind, args, raw, seen, given, r, mark):
        protect = kind != 'luntrusted' and any(
            type(x) is Proxy for x in args)
        want_args = raw if protect else args
        f = self.fired(tid)
        if seen:
            self.expect(len(seen) == 1, 'made-twice', observed=len(seen))
            self.expect(len(seen[0]) == len(want_args) and all(
                x is y for x, y in zip(seen[0], want_args)),
                'arguments:' + kind,
                expected=[type(x).__name__ for x in want_args],
                observed=[type(x).__name__ for x in seen[0]])
        elif not f:
            self.bad('not-made', observed=show(r))
        parent = want_args[0]
        # what becomes of the parent
        a = given[0] if given else None
        before = given[1] if len(given) > 1 else None
        if how_raised(given):
            self.expect(r[0] == 'exc' and r[1] is given[0],
                        'failure-replaced', observed=show(r))
            return 'raised'
        if not given:
            self.expect(f and r[0] == 'exc' and injected(r[1]),
                        'failure-lost:' + str(f), observed=show(r))
            return 'failed'
        inner = getObject(a) if type(a) is Proxy else a
        located = self.located(a)
        wraps = not located and (kind == 'luntrusted' or (
            kind == 'ltrusted' and protect))
        after = self.parent_now(a)
        self.expect(not located or after is before or (
            before is None and after is parent), 'parent-replaced:' + kind,
            adapter=type(inner).__name__)
        fails = None
        sets = False
        if located:
            if before is ABSENT:
                fails = AttributeError
            elif before is None:
                sets = True
                if type(a) is Proxy and not self.may_set(a):
                    fails, sets = ForbiddenAttribute, False
                elif type(inner) is ReadOnly:
                    fails, sets = AttributeError, False
        if f:
            self.expect(after is before or sets or (
                after is parent and self.reads_twice(a, o)), 'parent-set',
                adapter=type(inner).__name__, observed=repr(type(after)),
                before=repr(type(before)))
            if self.reads_twice(a, o) and f in ('pget', 'factory'):
                # what the second reading says counts
                return 'failed'
            if f == 'factory' and r[0] == 'ret' and (
                    wraps or isinstance(a, LocationProxy)):
                # raised while the decorator's own checker is computed,
                # an AttributeError says that there is none
                self.expect(o['f'][2] == 'AttributeError',
                            'failure-lost:factory', observed=show(r))
            elif f == 'own' and r[0] == 'ret':
                # an AttributeError says that there is none
                self.expect(o['f'][2] == 'AttributeError',
                            'failure-lost:own', observed=show(r))
                self.expect(not protect or type(r[1]) is Proxy
                            or self.reg.get(type(inner), 1) is None
                            or wraps, 'unprotected:own', observed=show(r))
            else:
                self.expect(r[0] == 'exc' and injected(r[1]),
                            'failure-lost:' + f, observed=show(r))
            return 'failed'
        if fails:
            self.expect(r[0] == 'exc' and isinstance(r[1], fails),
                        'placement-failure', observed=show(r),
                        expected=fails.__name__)
            return 'refused'
        self.expect(r[0] == 'ret', 'failed:' + kind, observed=show(r))
        if sets:
            self.expect(after is parent, 'parent-missing:' + kind,
                        adapter=type(inner).__name__,
                        observed=type(after).__name__)
        self.res.probe('%s:%s:%s' % (kind, 'protect' if protect else 'bare',
                                     'wraps' if wraps else
                                     'sets' if sets else 'keeps'))
        got = r[1]
        if not protect:
            if not wraps:
                self.expect(got is a, 'other-result:' + kind,
                            observed=show(r))
            else:
                self.is_wrap(got, a, parent)
            return 'bare'
        if wraps:
            self.judge_wrapped(got, a, parent)
            return 'wrapped'
        if type(a) is Proxy:
            self.expect(got is a, 'rewrapped', observed=show(r))
            return 'proxy'
        want = self.select(a)
        if isinstance(a, LocationProxy):
            self.judge_lp(got, a)
            return 'lp'
        if want is None:
            self.expect(got is a, 'wrapped-needlessly', observed=show(r))
            return 'none'
        self.expect(type(got) is Proxy, 'unprotected:' + kind,
                    observed=show(r))
        self.expect(getObject(got) is a, 'protected-other')
        self.expect(getChecker(got) is want, 'checker',
                    observed=type(getChecker(got)).__name__)
        return 'protected'

    def reads_twice(self, a, o):
        """Proxies in Python read again after an AttributeError."""
        return not IS_C and type(a) is Proxy and \
            o['f'][2] == 'AttributeError'

    def may_set(self, p):
        ck = getChecker(p)
        return '__parent__' in ck.set_permissions

    def is_wrap(self, got, a, parent):
        self.expect(type(got) is LocationProxy, 'no-location',
                    observed=type(got).__name__)
        self.expect(getProxiedObject(got) is a, 'location-of-other')
        self.expect(got.__parent__ is parent, 'location-parent',
                    observed=type(got.__parent__).__name__)

    def judge_wrapped(self, got, a, parent):
        inner = getObject(got) if type(got) is Proxy else got
        self.is_wrap(inner, a, parent)
        self.judge_lp(got, inner)

    def judge_lp(self, got, lp):
        """The protection of a location proxy."""
        self.muted = True
        try:
            mine = self.reg.get(LocationProxy, ABSENT)
            if mine is ABSENT:
                mine = zc.selectChecker(object.__new__(Plain)) \
                    if Plain not in self.reg else zc._defaultChecker
                mine = zc._defaultChecker
            x = getProxiedObject(lp)
            theirs = self.select(x)
        finally:
            self.muted = False
        if mine is None and theirs is None:
            self.expect(got is lp, 'wrapped-needlessly:lp')
            return
        self.expect(type(got) is Proxy, 'unprotected:lp',
                    observed=type(got).__name__)
        self.expect(getObject(got) is lp, 'protected-other:lp')
        ck = getChecker(got)
        if mine is None or theirs is None:
            self.expect(ck is (mine or theirs), 'checker:lp')
            return
        self.expect(isinstance(ck, CombinedChecker), 'checker:lp',
                    observed=type(ck).__name__)
        for n in NAMES:
            for side in 'get', 'set':
                want = n in getattr(mine, side + '_permissions') or n in \
                    getattr(theirs, side + '_permissions') or (
                        side == 'get' and n in zc._available_by_default)
                try:
                    (ck.check_getattr if side == 'get'
                     else ck.check_setattr)(lp, n)
                    ok = True
                except ForbiddenAttribute:
                    ok = False
                self.expect(ok == want, 'checker-grants:lp',
                            expected=(n, side, want))

    def op_check(self, tid, o, d):
        """Everybody still has the parent last seen."""
        return 'ok'


def how_raised(given):
    return bool(given) and isinstance(given[0], Exception)


def gen_ret(rng):
    k = pick(rng, [('fresh', 12), ('raise', 1), ('arg', 1.5), ('old', 3),
                   ('int', .5), ('none', .4), ('list', .5), ('lp', 1),
                   ('proxied', 1.5)])
    return {'k': k, 'n': rng.randrange(9),
            'exc': rng.choice(['type', 'comp', 'forb']),
            'cls': rng.choice(sorted(ADAPTERS)),
            'own': rng.choice([None, None, rng.randrange(9)]),
            'parent': rng.choice([None, None, None, 'arg', 'proxy', 'zero',
                                  rng.randrange(9)])}


def generate(rng, profile):
    nt = pick(rng, [(1, 5), (2, 2)])
    case = sched_params(rng, nt)
    case['checkers'] = [
        {'get': [n for n in NAMES if rng.random() < .5],
         'set': [n for n in NAMES if rng.random() < .4]}
        for _ in range(rng.randrange(1, 5))]
    case['registry'] = {
        t: rng.choice(['noproxy', ['direct', rng.randrange(9)],
                       ['direct', rng.randrange(9)],
                       ['factory', rng.randrange(9)],
                       ['nofactory', rng.randrange(9)]])
        for t in ALL + ['LP'] if rng.random() < (.2 if t == 'LP' else .6)}
    faults = rng.random() < .5
    case['threads'] = []
    for _ in range(nt):
        th = {'contexts': [
            {'k': pick(rng, [('plain', 4), ('empty', 2), ('located', 2),
                             ('sly', 1), ('int', .5), ('none', .3),
                             ('list', .5)]),
             'own': rng.choice([None, None, rng.randrange(9)])}
            for _ in range(rng.randrange(1, 5))], 'ops': []}
        for _ in range(rng.choice([4, 10, 20])):
            o = {'o': 'adapt',
                 'kind': rng.choice(sorted(KIND_OF_FACTORY)),
                 'args': [[rng.randrange(9), rng.choice(
                     [None, None, -1, rng.randrange(9)])]
                     for _ in range(rng.choice([1, 1, 2, 3, 4]))],
                 'ret': gen_ret(rng)}
            if rng.random() < .15:
                o['times'] = 2
            if faults and rng.random() < .35:
                kind = pick(rng, [('make', 2), ('pget', 3), ('pset', 3),
                                  ('own', 3), ('factory', 2), ('line', 3)])
                o['f'] = [kind, rng.randrange(14) if kind == 'line'
                          else rng.choice([0, 0, 1]),
                          rng.choice(LINE_EXC if kind == 'line'
                                     else BASE_EXC)]
            th['ops'].append(o)
        case['threads'].append(th)
    return case


def execute(case, schedule=None):
    return World(case, schedule).go()
