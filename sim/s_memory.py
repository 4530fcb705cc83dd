"""Memory: programs over proxies and checkers whose callbacks drop what is in
use, change it, collect garbage, come back, or fail, and allocations that
fail; repeated, nothing may crash, pile up, or be left pending."""
import array
import copy
import gc
import itertools
import math
import operator
import pickle
import sys
import weakref

import boot  # noqa: F401
from base import LINE_EXC  # noqa: F401
from base import pick
from ops import NAMED
from ops import OPS
from ops import UNCHECKED
from probe import BIN
from probe import CMP
from probe import INPLACE
from probe import METHODS
from scen import Result
from world import AVAILABLE
from world import EXCS

import zope.proxy
import zope.security.checker as zc
from zope.security._definitions import thread_local
from zope.security.interfaces import ForbiddenAttribute
from zope.security.interfaces import Unauthorized
from zope.security.proxy import Proxy
from zope.security.proxy import ProxyFactory
from zope.security.proxy import getChecker
from zope.security.proxy import getObject

try:
    import _testcapi as T
except ImportError:
    T = None
HOOKS = hasattr(T, 'set_nomemory')
_getblocks = sys.getallocatedblocks
_checkers = zc._checkers
DEEP = 2
PROBE = [0]
EXC = ['ValueError', 'KeyError', 'RuntimeError', 'MemoryError', 'OSError',
       'KeyboardInterrupt', 'AttributeError', 'TypeError', 'StopIteration',
       'Injected', 'InjectedBase', 'Unauthorized', 'ForbiddenAttribute',
       'IndexError']
EFFECTS = [('drop', 4), ('gc', 3), ('wipe', 3), ('reinit', 2), ('unreg', 2),
           ('noproxy', 2), ('noint', 2), ('again', 5), ('refill', 2)]
RETS = [('self', 3), ('new', 4), ('int', 3), ('big', 1), ('str', 1.5),
        ('none', 1), ('notimpl', 1), ('arg', 1.5), ('list', 1.5), ('gen', 1),
        ('prx', 2), ('obj', 1.5), ('exc', 1), ('true', 1), ('iter', 1),
        ('cls', .5), ('float', .7), ('dict', .5)]
LIKELY = {'__len__': 'int', '__hash__': 'int', '__int__': 'int',
          '__index__': 'int', '__float__': 'float', '__bool__': 'true',
          '__str__': 'str', '__repr__': 'str', '__length_hint__': 'int',
          '__iter__': 'iter', '__contains__': 'true', '__eq__': 'true'}


# Has code of the harness been entered while an allocation may fail?  The
# interpreter loses the error if it cannot make the frame for a traceback.
ENTERED = [False]


class W:
    now = None


class Perm(str):
    """A permission that tells when it is gone."""


class Node:
    pass


def _mk(name):
    def method(self, *args, **kw):
        ENTERED[0] = True
        w = W.now
        if w is None:
            if name == '__hash__':
                return 0
            return NotImplemented
        return w.act('n', self, name, args)
    method.__name__ = name
    return method


def node_class(i):
    ns = {n: _mk(n) for n in METHODS}
    if i == 3:
        # objects with an own checker, as the application computes it
        ns['__Security_checker__'] = property(_mk('__Security_checker__'))
    if i == 2:
        ns['__getattr__'] = _mk('__getattr__')
        del ns['__iter__']
    return type('Node%d' % i, (Node, Exception) if i == 4 else (Node,), ns)


class Name(str):
    """A name that is compared by code of the application."""

    __hash__ = str.__hash__
    __eq__ = _mk('N__eq__')
    __ne__ = _mk('N__eq__')


NODES = [node_class(i) for i in range(5)]


class Meta(type):
    """Classes that compute what they are called."""

    __module__ = property(_mk('K__module__'))
    __name__ = property(_mk('K__name__'))


class Named(Node, metaclass=Meta):
    pass


for _n in METHODS:
    setattr(Named, _n, _mk(_n))
NODES.append(Named)
_name = type.__dict__['__name__'].__get__


class PyChecker:
    """Written by an application."""


for _n in ('check', 'check_getattr', 'check_setattr', 'proxy'):
    setattr(PyChecker, _n, _mk(_n))


class SlotChecker(PyChecker):
    """With the operators the C implementation uses instead."""


for _n in ('__getitem__', '__setitem__'):
    setattr(SlotChecker, _n, _mk(_n))


class SubChecker(zc.Checker):
    """A subclass of the real one."""


class SubProxy(Proxy):
    pass


class Interaction:
    def checkPermission(self, permission, object):
        ENTERED[0] = True
        return W.now.act('i', self, permission, (object,))


class Registered:
    """A checker factory."""

    def __init__(self, n):
        self.n = n

    def __call__(self, object):
        ENTERED[0] = True
        return W.now.act('f', self, 'call', (object,))


class World:

    def __init__(self, case):
        self.case = case
        self.depth = 0
        self.steps = 0
        self.refs = []
        self.touched = set()
        self.nomem = None
        self.phase = 0
        self.stats = {}
        self.handles = []
        self.label = {}
        self.objs = [self.make(i, s) for i, s in enumerate(case['objs'])]
        self.cks = []
        for i, s in enumerate(case['cks']):
            self.cks.append(self.checker(i, s))
        for i, spec in enumerate(case['reg']):
            self.register(i, spec)
        self.interaction()
        for o, c in case['prx']:
            self.handles.append(Proxy(self.objs[o % len(self.objs)],
                                      self.cks[c % len(self.cks)]))

    def track(self, x):
        try:
            self.refs.append(weakref.ref(x))
        except TypeError:
            pass
        return x

    def make(self, i, spec):
        ob = self.track(NODES[spec['c']]())
        self.label[id(ob)] = ('n', i)
        return ob

    def interaction(self):
        thread_local.interaction = self.track(Interaction())

    def perms(self, d):
        return {k: zc.CheckerPublic if v == 'pub' else None if v is None
                else self.track(Perm(v)) for k, v in d.items()}

    def checker(self, i, spec):
        k = spec['k']
        if k in ('C', 'sub'):
            ck = (zc.Checker if k == 'C' else SubChecker)(
                self.perms(spec['get']), *(
                    [self.perms(spec['set'])] if spec['set'] else []))
        elif k == 'both':
            first = [c for c in self.cks if isinstance(c, zc.Checker)] or [
                zc.Checker({'a': zc.CheckerPublic})]
            ck = zc.CombinedChecker(first[spec['a'] % len(first)],
                                    self.cks[spec['b'] % len(self.cks)])
        else:
            ck = PyChecker() if k == 'py' else SlotChecker()
        self.label[id(ck)] = ('k', i)
        return self.track(ck)

    def register(self, i, spec):
        t = NODES[i]
        _checkers.pop(t, None)
        if spec is None:
            return
        if spec[0] == 'ck':
            c = self.cks[spec[1] % len(self.cks)]
            if type(c) in (PyChecker, SlotChecker):
                return
            _checkers[t] = c
        elif spec[0] == 'noproxy':
            _checkers[t] = zc.NoProxy
        else:
            _checkers[t] = self.track(Registered(i))

    # -- what callbacks do ------------------------------------------------

    def act(self, kind, me, name, args):
        if self.nomem is None:
            return self.act_(kind, me, name, args)
        # what the objects themselves do does not fail
        T.remove_mem_hooks()
        self.phase -= 1
        n = self.nomem
        m = n + 1
        r = self.act_(kind, me, name, args)
        if self.phase == 0:
            ENTERED[0] = False
            T.set_nomemory(n, m)
        return r

    def act_(self, kind, me, name, args):
        if kind == 'n':
            lab = self.label.get(id(me))
            if lab is None:
                beh = self.case['fresh']
            else:
                beh = self.case['objs' if lab[0] == 'n' else 'cks'][
                    lab[1]]['beh']
                if lab[0] == 'n':
                    self.touched.add((lab[1], name))
        else:
            beh = self.case['policy' if kind == 'i' else 'factory']
        self.steps += 1
        if self.steps > 400:
            raise RuntimeError('too much')
        spec = beh.get(str(name)) or beh.get('*')
        if type(me) in (PyChecker, SlotChecker):
            if spec is None:
                if name in ('proxy', '__getitem__'):
                    return self.default(args)
                return None
        elif spec is None:
            spec = [[], LIKELY.get(name, 'new')]
        for e in spec[0]:
            self.stats[e] = self.stats.get(e, 0) + 1
            self.effect(e)
        r = spec[1]
        if type(r) is list:
            self.stats['raise'] = self.stats.get('raise', 0) + 1
            raise EXCS[r[0]]('injected')
        r = self.value(r, me, args)
        if name == '__hash__' and type(r) is not int:
            # the interpreter itself loses a reference to others
            r = 300
        return r

    def default(self, args):
        return ProxyFactory(args[0], self.cks[0])

    def value(self, r, me, args):
        if r == 'self':
            return me
        if r == 'new':
            ob = self.track(NODES[self.steps % 2]())
            return ob
        if r == 'int':
            return 300 + self.steps % 2
        if r == 'float':
            return 2.5 + self.steps
        if r == 'big':
            return 10 ** 30 + self.steps
        if r == 'str':
            return 'text %d' % self.steps
        if r == 'long':
            return 'name' * 40 + str(self.steps)
        if r == 'none':
            return None
        if r == 'notimpl':
            return NotImplemented
        if r == 'arg':
            return args[-1] if args else me
        if r == 'list':
            return [me, 1]
        if r == 'dict':
            return {'a': me}
        if r == 'gen':
            return (x for x in [me, 5])
        if r == 'iter':
            return iter([me, 7])
        if r == 'prx':
            return Proxy(me, self.cks[self.steps % len(self.cks)])
        if r == 'obj':
            return self.objs[self.steps % len(self.objs)]
        if r == 'exc':
            return ValueError(me)
        if r == 'true':
            return bool(self.steps % 2)
        if r == 'yes':
            return True
        if r == 'cls':
            return Node
        if r == 'checker':
            return self.cks[self.steps % len(self.cks)]
        if r == 'nopro':
            return zc.NoProxy
        if r == 'factory':
            return self.track(Registered(9))
        raise AssertionError(r)

    def effect(self, e):
        if e == 'drop':
            del self.handles[:]
        elif e == 'gc':
            gc.collect()
        elif e == 'wipe':
            for c in self.cks:
                if isinstance(c, zc.Checker):
                    c.get_permissions.clear()
                    c.set_permissions.clear()
        elif e == 'refill':
            for c in self.cks:
                if isinstance(c, zc.Checker):
                    for d in c.get_permissions, c.set_permissions:
                        for k in d:
                            d[k] = self.track(Perm('other'))
        elif e == 'reinit':
            for c in self.cks:
                if isinstance(c, zc.Checker):
                    c.__init__({'a': self.track(Perm('p'))})
        elif e == 'unreg':
            for t in NODES:
                _checkers.pop(t, None)
        elif e == 'noproxy':
            for t in NODES[:2]:
                _checkers[t] = zc.NoProxy
        elif e == 'noint':
            thread_local.__dict__.pop('interaction', None)
        elif e == 'again' and self.depth < DEEP and self.nomem is None:
            ops = self.case['ops']
            try:
                self.run(ops[self.steps % len(ops)])
            except (Exception, KeyboardInterrupt):
                pass

    # -- operations --------------------------------------------------------

    def operand(self, a):
        k = a[0]
        if k == 'h':
            return self.handles[a[1] % len(self.handles)] \
                if self.handles else 5
        if k == 'o':
            return self.objs[a[1] % len(self.objs)]
        if k == 'k':
            return self.cks[a[1] % len(self.cks)]
        if k == 'n':
            return None
        if k == 'q':
            return Name(a[1])
        if k == 'l':
            return [self.operand(x) for x in a[1]]
        if k == 't':
            return tuple(self.operand(x) for x in a[1])
        return a[1]

    def run(self, o):
        x = self.operand(o['x'])
        args = [self.operand(a) for a in o['a']]
        self.depth += 1
        try:
            k = o['o']
            if k[:3] == 'nm:':
                f, args = NM[k[3:]](self, x, args, o)
                if self.nomem is None:
                    return f(*args)
                if self.phase:
                    return bare(f, args, 1 << 30, 0)
                return bare(f, args, self.nomem, self.nomem + 1)
            if k in OPS:
                return OPS[k][0](x, *args[:OPS[k][1]])
            if k in NAMED:
                if k in ('set', 'method1'):
                    return NAMED[k](x, o['n'], args[0])
                return NAMED[k](x, o['n'])
            return MORE[k](self, x, args, o)
        finally:
            self.depth -= 1

    def close(self):
        W.now = None
        for t in NODES:
            _checkers.pop(t, None)
        thread_local.__dict__.pop('interaction', None)


MORE = {}


def more(name):
    def deco(f):
        MORE[name] = f
        return f
    return deco


def place(o):
    # seldom one of the numbers that live for ever
    return (2, -1, -3000, 70000 + o['i'], 300 + o['i'])[o['i'] % 5]


for _n in ('sequence_getitem', 'sequence_contains', 'sequence_concat',
           'sequence_repeat', 'sequence_size', 'sequence_setitem',
           'sequence_delitem', 'sequence_inplaceconcat', 'sequence_list',
           'sequence_inplacerepeat', 'sequence_tuple', 'sequence_count',
           'sequence_index', 'sequence_setslice', 'sequence_delslice',
           'mapping_size', 'mapping_items', 'mapping_keys', 'mapping_haskey',
           'mapping_getitemstring', 'mapping_setitemstring',
           'mapping_delitemstring', 'object_getattr', 'object_delattr',
           'object_setattr', 'object_str', 'object_repr', 'object_bytes',
           'object_ascii', 'object_getitem', 'object_setitem',
           'object_delitem', 'object_hasattr', 'pynumber_tobase'):
    _f = getattr(T, _n, None)
    if _f is None:
        continue
    if _n in ('sequence_getitem', 'sequence_delitem', 'sequence_repeat',
              'sequence_inplacerepeat'):
        def _g(w, x, a, o, f=_f, rep='repeat' in _n):
            return f(x, 2 if rep else place(o))
    elif _n == 'sequence_setitem':
        def _g(w, x, a, o, f=_f):
            return f(x, place(o), a[0])
    elif _n == 'sequence_delslice':
        def _g(w, x, a, o, f=_f):
            return f(x, place(o), place(o) + 1000)
    elif _n == 'sequence_setslice':
        def _g(w, x, a, o, f=_f):
            return f(x, place(o), place(o) + 1000, a[0])
    elif _n in ('mapping_getitemstring', 'mapping_delitemstring'):
        def _g(w, x, a, o, f=_f):
            return f(x, b'a')
    elif _n == 'mapping_setitemstring':
        def _g(w, x, a, o, f=_f):
            return f(x, b'a', a[0])
    elif _n in ('object_getattr', 'object_delattr', 'object_hasattr'):
        def _g(w, x, a, o, f=_f):
            return f(x, o['n'])
    elif _n == 'object_setattr':
        def _g(w, x, a, o, f=_f):
            return f(x, o['n'], a[0])
    elif _n == 'object_setitem':
        def _g(w, x, a, o, f=_f):
            return f(x, a[0], a[1])
    elif _n == 'pynumber_tobase':
        def _g(w, x, a, o, f=_f):
            return f(x, 16)
    elif _n in ('sequence_contains', 'sequence_concat', 'sequence_count',
                'sequence_index', 'sequence_inplaceconcat',
                'mapping_haskey', 'object_getitem', 'object_delitem'):
        def _g(w, x, a, o, f=_f):
            return f(x, a[0])
    else:
        def _g(w, x, a, o, f=_f):
            return f(x)

    # these take None for NULL
    MORE[_n] = lambda w, x, a, o, f=_g: f(
        w, 0 if x is None else x, [0 if y is None else y for y in a], o)


@more('construct')
def _construct(w, x, a, o):
    k = o['i'] % 12
    ck = w.cks[o['i'] % len(w.cks)]
    if k == 0:
        return Proxy(x)
    if k == 1:
        return Proxy(x, None)
    if k == 2:
        return Proxy(x, ck, 1)
    if k == 3:
        return Proxy(object=x, checker=ck)
    if k == 4:
        return Proxy(checker=ck)
    if k == 5:
        return Proxy.__new__(Proxy)
    if k == 6:
        return object.__new__(Proxy)
    if k == 7:
        return zope.proxy.ProxyBase.__new__(Proxy, x)
    if k == 8:
        return SubProxy(x, ck)
    if k == 9:
        return Proxy(Proxy(x, ck), ck)
    if k == 10:
        return Proxy.__new__(int, x, ck)
    p = Proxy(x, ck)
    p.__init__(a[0], None)
    return p


@more('checker')
def _checker(w, x, a, o):
    ck = w.cks[o['i'] % len(w.cks)]
    if not isinstance(ck, zc.Checker):
        ck = zc.Checker({'a': w.track(Perm('p'))})
    k = o['i'] // 7 % 16
    n = Name(o['n']) if o['i'] & 3 == 3 else o['n']
    if k == 0:
        return ck.check(x, n)
    if k == 1:
        return ck.check(x)
    if k == 2:
        return ck.check_getattr(x, n)
    if k == 3:
        return ck.check_setattr(x, n)
    if k == 4:
        return ck.proxy(x)
    if k == 5:
        return ck[x]
    if k == 6:
        ck[x] = n
        return None
    if k == 7:
        del ck[x]
        return None
    if k == 8:
        return ck.permission_id(n)
    if k == 9:
        return ck.setattr_permission_id(n)
    if k == 10:
        return ck.check_setattr(x, n, n)
    if k == 11:
        return ck.check(x, [])
    if k == 12:
        return ck.permission_id([])
    if k == 13:
        return ck.check(x, a[0])
    if k == 14:
        return ck.setattr_permission_id({})
    return ck.check_setattr(x, a[0])


@more('newchecker')
def _newchecker(w, x, a, o):
    k = o['i'] % 9
    C = zc.Checker if o['i'] % 2 else SubChecker
    if k == 0:
        return C([])
    if k == 1:
        return C({}, [])
    if k == 2:
        return C({}, {}, {})
    if k == 3:
        return C()
    if k == 4:
        c = C.__new__(C)
        return [c.get_permissions, c.set_permissions, c.permission_id('a'),
                c.setattr_permission_id('a')]
    if k == 5:
        c = C.__new__(C)
        return c.check(x, o['n'])
    if k == 6:
        c = C.__new__(C)
        return c.check_setattr(x, o['n'])
    if k == 7:
        c = C({'a': x}, set_permissions={'b': x})
        c.__init__({'c': x})
        c.__init__({'c': x}, {'d': x})
        return c
    c = C({'a': x})
    c.get_permissions['self'] = c
    return None


@more('select')
def _select(w, x, a, o):
    k = o['i'] % 6
    if k == 0:
        return zc.selectChecker(x)
    if k == 1:
        return ProxyFactory(x)
    if k == 2:
        return getChecker(x)
    if k == 3:
        return getObject(x)
    if k == 4:
        return zc.selectChecker(a[0])
    return ProxyFactory(a[0], w.cks[0])


@more('trusted')
def _trusted(w, x, a, o):
    k = o['i'] % 6
    if k == 0:
        return zope.proxy.getProxiedObject(x)
    if k == 1:
        return zope.proxy.isProxy(x)
    if k == 2:
        return zope.proxy.sameProxiedObjects(x, a[0])
    if k == 3:
        return zope.proxy.removeAllProxies(x)
    if k == 4:
        return zope.proxy.queryProxy(x, Proxy)
    return zope.proxy.queryInnerProxy(x, Proxy)


@more('protocol')
def _protocol(w, x, a, o):
    k = o['i'] % 18
    if k == 0:
        return copy.copy(x)
    if k == 1:
        return len(pickle.dumps(x))
    if k == 2:
        return x.__reduce_ex__(2)
    if k == 3:
        return len(dir(x))
    if k == 4:
        return vars(x)
    if k == 5:
        return isinstance(x, Node)
    if k == 6:
        return weakref.ref(x)
    if k == 7:
        return {x: 1}.get(a[0])
    if k == 8:
        return x in {a[0]}
    if k == 9:
        return sorted([x, a[0], x])
    if k == 10:
        return list(itertools.islice(x, 4))
    if k == 11:
        return x(*args_of(a), **{'self': 1, 'k': a[0]})
    if k == 12:
        return '%d' % x
    if k == 13:
        return ''.join([x])
    if k == 14:
        return [next(x, None), next(x, None), next(x, None)]
    if k == 15:
        return math.trunc(x)
    if k == 16:
        return issubclass(x, Node)
    return '{0} {0!r:>9}'.format(x)


def args_of(a):
    return a[:1]


@more('cycle')
def _cycle(w, x, a, o):
    """Garbage that only the collector can find."""
    k = o['i'] % 5
    ob = w.track(NODES[0]())
    if k == 0:
        ck = zc.Checker({'a': zc.CheckerPublic})
        ob.__dict__['back'] = Proxy(ob, ck)
    elif k == 1:
        ck = w.track(PyChecker())
        ck.p = Proxy(ob, ck)
    elif k == 2:
        ck = zc.Checker({'a': w.track(Perm('q'))})
        ck.get_permissions['zz'] = Proxy(ob, ck)
    elif k == 3:
        ck = zc.Checker({}, {'a': w.track(Perm('q'))})
        ck.set_permissions['zz'] = Proxy(ob, ck)
    else:
        p = SubProxy(ob, zc.Checker({}))
        ob.__dict__['back'] = p
    return None


# Operations without any Python code of the harness around them, so that an
# allocation that fails is one of theirs.
NM = {}
for _n in BIN:
    _f = divmod if _n == 'divmod' else getattr(
        operator, _n + '_' if _n in ('and', 'or') else _n)
    NM[_n] = lambda w, x, a, o, f=_f: (f, (x, a[0]))
    NM['r' + _n] = lambda w, x, a, o, f=_f: (f, (a[0], x))
for _n in INPLACE:
    NM['i' + _n] = lambda w, x, a, o, f=getattr(
        operator, '__i%s__' % _n): (f, (x, a[0]))
for _n in CMP:
    NM[_n] = lambda w, x, a, o, f=getattr(operator, _n): (f, (x, a[0]))
for _n, _f in (('neg', operator.neg), ('pos', operator.pos), ('abs', abs),
               ('invert', operator.invert), ('int', int), ('float', float),
               ('index', operator.index), ('bool', bool), ('hash', hash),
               ('len', len), ('str', str), ('repr', repr), ('iter', iter),
               ('next', next), ('list', list), ('selectChecker',
                                                zc.selectChecker),
               ('getChecker', getChecker), ('getObject', getObject)):
    NM[_n] = lambda w, x, a, o, f=_f: (f, (x,))
for _n, _f in (('pow', pow), ('call', operator.call),
               ('getitem', operator.getitem), ('delitem', operator.delitem),
               ('contains', operator.contains), ('raise', pow)):
    NM[_n] = lambda w, x, a, o, f=_f: (f, (x, a[0]))
NM['rpow'] = lambda w, x, a, o: (pow, (a[0], x))
NM['pow3'] = lambda w, x, a, o: (pow, (x, a[0], a[1]))
NM['setitem'] = lambda w, x, a, o: (operator.setitem, (x, a[0], a[1]))
for _i in range(6):
    NM['getattr%d' % _i] = lambda w, x, a, o: (getattr, (x, o['n']))
NM['setattr'] = NM['setattr2'] = \
    lambda w, x, a, o: (setattr, (x, o['n'], a[0]))
NM['delattr'] = lambda w, x, a, o: (delattr, (x, o['n']))
NM['hasattr'] = lambda w, x, a, o: (hasattr, (x, o['n']))
NM['c.get'] = lambda w, x, a, o: (
    getattr, (zc.Checker.__new__(zc.Checker), 'get_permissions'))
NM['c.set'] = lambda w, x, a, o: (
    getattr, (zc.Checker.__new__(zc.Checker), 'set_permissions'))
NM['proxy'] = lambda w, x, a, o: (Proxy, (x, w.cks[0]))
NM['subproxy'] = lambda w, x, a, o: (SubProxy, (x, w.cks[0]))


def real(w, o):
    ck = w.cks[o['i'] % len(w.cks)]
    return ck if isinstance(ck, zc.Checker) else zc.Checker(
        {o['n']: w.track(Perm('p'))}, {o['n']: w.track(Perm('q'))})


NM['c.check'] = NM['c.check2'] = lambda w, x, a, o: (
    zc.Checker.check, (real(w, o), x, o['n']))
NM['c.check_getattr'] = lambda w, x, a, o: (
    zc.Checker.check_getattr, (real(w, o), x, o['n']))
NM['c.check_setattr'] = NM['c.check_setattr2'] = lambda w, x, a, o: (
    zc.Checker.check_setattr, (real(w, o), x, o['n']))
NM['c.proxy'] = NM['c.proxy2'] = NM['c.proxy3'] = lambda w, x, a, o: (
    zc.Checker.proxy, (real(w, o), a[0]))
NM['c.getitem'] = lambda w, x, a, o: (operator.getitem, (real(w, o), a[0]))
NM['c.setitem'] = lambda w, x, a, o: (
    operator.setitem, (real(w, o), x, o['n']))
NM['c.permission_id'] = lambda w, x, a, o: (
    zc.Checker.permission_id, (real(w, o), o['n']))
NM['c.setattr_permission_id'] = lambda w, x, a, o: (
    zc.Checker.setattr_permission_id, (real(w, o), o['n']))
NM['c.new'] = lambda w, x, a, o: (
    zc.Checker, ({'a': w.track(Perm('p'))}, {'b': w.track(Perm('q'))}))
NM['c.init'] = lambda w, x, a, o: (
    zc.Checker.__init__, (real(w, o), {'a': w.track(Perm('p'))}))
NMOPS = list(NM)
NMDENIED = {'nm:' + _n for _n in NM if _n[:2] != 'c.' and _n not in CMP
            and _n not in ('selectChecker', 'getChecker', 'getObject', 'hash',
                           'bool', 'str', 'repr', 'proxy', 'subproxy')}


def bare(f, args, start, stop):
    # so that the interpreter need not make one for a traceback, and fail
    sys._getframe()
    ENTERED[0] = False
    T.set_nomemory(start, stop)
    try:
        r = f(*args)
    except BaseException:
        T.remove_mem_hooks()
        raise
    T.remove_mem_hooks()
    return r


# -- running --------------------------------------------------------------

GLOBALS = [Unauthorized, ForbiddenAttribute, zc.NoProxy, zc._defaultChecker,
           zc.CheckerPublic, Proxy, SubProxy, zc.Checker, SubChecker,
           zc.CombinedChecker, _checkers, thread_local, PyChecker,
           SlotChecker, zc._available_by_default, Node, Interaction,
           Registered, Perm, ValueError] + NODES
GNAMES = [_name(g) if isinstance(g, type) else type(g).__name__
          for g in GLOBALS]
# interned, but not for ever
NAMES = ['zzq_alpha', 'zzq_beta', '__zzq__', 'a', '__len__', '__iter__',
         '__str__', '__class__', '__getitem__', '__call__']


NALL = len(GLOBALS) + len(NAMES)


def counts(into):
    """Reference counts, and memory blocks in use."""
    i = 0
    for g in GLOBALS:
        into[i] = sys.getrefcount(g)
        i += 1
    for g in NAMES:
        into[i] = sys.getrefcount(g)
        i += 1
    into[i] = _getblocks()


def attempt(w, o, log, nomem=None):
    """One operation; what comes of it is noted, but not kept."""
    denied = set()
    x = w.operand(o['x'])
    if type(x) is Proxy and o['o'] not in UNCHECKED and (
            o['o'] in OPS and o['o'] not in LENIENT
            or o['o'] in NMDENIED):
        ck = getChecker(x)
        if type(ck) is zc.Checker and not ck.get_permissions:
            lab = w.label.get(id(getObject(x)))
            if lab and not any(a[0] in 'holt' for a in o['a']):
                denied.add(lab[1])
    del x
    w.touched.clear()
    try:
        if nomem is None:
            r = w.run(o)
        else:
            r = None
            w.phase = o['nomem'][2]
            w.nomem = nomem
            try:
                r = w.run(o)
            finally:
                T.remove_mem_hooks()
                w.nomem = None
        out = ['ret', _name(type(r)), r]
        r = None
    except BaseException as e:
        # formatting it would run code
        out = ['exc', type(e).__name__, None]
        if type(e) is SystemError or isinstance(e, AssertionError):
            out.append(str(e))
        e = None
    try:
        PROBE[-1]
    except BaseException as e:
        return 'pending:%s:%s' % (o['o'], type(e).__name__)
    if len(out) > 3 and not (nomem is not None and (
            ENTERED[0] or any(c['k'] == 'both' for c in w.case['cks']))):
        return 'system-error:%s:%s' % (o['o'], out[3][:80])
    if denied and w.depth == 0:
        for i, name in w.touched:
            if i in denied and name not in FREE and not w.messed:
                return 'touched:%s:%s' % (o['o'], name)
    if log is not None:
        log.append(out[:2])
    if nomem is not None:
        return None if out[1] == 'MemoryError' else 'done'
    return None


FREE = {'__hash__', '__eq__', '__ne__', '__lt__', '__le__', '__gt__',
        '__ge__', '__bool__', '__length_hint__', '__getattr__',
        '__Security_checker__'} | AVAILABLE
# where operands act on their own, or nothing is asked under a name
LENIENT = {'rcontains', 'min', 'sorted2', 'ident', 'pct', 'with', 'hint',
           'matmul'}


def rep(case, log, res):
    """The program once; -> what is wrong, or None"""
    w = World(case)
    w.messed = bool(case.get('messy'))
    W.now = w
    bad = None
    try:
        for n, o in enumerate(case['ops']):
            w.steps = 0
            w.depth = 0
            if o.get('nomem') and HOOKS:
                k = o['nomem'][0]
                for k in range(k, k + o['nomem'][1]):
                    w.steps = 0
                    bad = attempt(w, o, None, k)
                    if bad == 'done':
                        bad = None
                    else:
                        res.fault('allocation')
                    if bad:
                        break
            else:
                bad = attempt(w, o, log)
            res.ops += 1
            if bad:
                return bad, n
    finally:
        if log is not None:
            for e, n in w.stats.items():
                res.fault('callback:' + e, n)
        w.close()
    refs = w.refs
    w = None
    gc.collect()
    alive = [r for r in refs if r() is not None]
    if alive:
        return 'not-released:%s' % _name(type(alive[0]())), None
    return None


LASTING = 300


def lasting(case, res):
    """Does it go on?  The interpreter's own caches fill up, and then stop."""
    history = array.array('q', [0] * LASTING)
    for n in range(LASTING):
        if rep(case, None, res):
            return 0
        # one of those caches keeps the names last looked up
        sys._clear_type_cache()
        history[n] = _getblocks()
    half = LASTING // 2
    steps = [history[n] - history[n - 1] for n in range(half, LASTING)]
    grown = history[-1] - history[half - 1]
    return grown if grown > .4 * half and \
        sum(s > 0 for s in steps) > .3 * half else 0


def execute(case, schedule=None):
    gc.disable()
    res = Result()
    log = []
    gc.collect()
    if not execute.frozen:
        gc.freeze()
        execute.frozen = True
    bad = None
    # memory of its own for what is noted, so that noting takes none
    history = [array.array('q', [0] * (NALL + 1)) for n in range(9)]
    for n in range(9):
        bad = rep(case, log if n == 0 else None, res)
        if bad:
            break
        counts(history[n])
        if n in (2, 3) and history[n][:-1] == history[n - 1][:-1] \
                and history[n][-1] <= history[n - 1][-1]:
            break
    if bad:
        res.bad(['C15'] + (['C01', 'C03'] if bad[0].startswith('touched')
                           else []), bad[0], thread=0, op_index=bad[1])
    elif n == 8:
        for i, name in enumerate(GNAMES + NAMES):
            steps = [b[i] - a[i] for a, b in zip(history[2:], history[3:])]
            if all(s > 0 for s in steps) or all(s < 0 for s in steps):
                res.bad(['C15'], 'grows:' + name if steps[0] > 0
                        else 'shrinks:' + name, thread=0, steps=steps)
                break
        else:
            steps = [b[-1] - a[-1] for a, b in zip(history[2:], history[3:])]
            if all(s > 0 for s in steps):
                grown = lasting(case, res)
                if grown:
                    res.bad(['C15'], 'grows:memory blocks', thread=0,
                            steps=steps, lasting=grown)
    for x in log:
        res.probe('outcome:' + ('ret' if x[0] == 'ret' else x[1]))
    res.trace = (log, [v['class'] for v in res.violations])
    return res


execute.frozen = False


# -- generation -----------------------------------------------------------

ALLOPS = list(OPS)
ATTR = ['zzq_alpha', 'zzq_beta', '__zzq__', 'a', '__len__', '__iter__',
        '__str__', '__class__', '__getitem__', '__call__', '__name__',
        '__next__', '__add__', '__Security_checker__', '__reduce_ex__',
        '__repr__', '__setitem__', '__delitem__', '__pow__', '__iadd__',
        '__index__', '__int__', '__contains__', '__module__']


def generate(rng, profile):
    faulty = profile.get('faulty', rng.choice([0, .15, .4]))
    messy = profile.get('messy', rng.choice([0, 0, .2, .5]))
    nomem = profile.get('nomem', rng.choice([0, 0, 0, .4]))
    focus = rng.sample(ALLOPS, 6) if rng.random() < .8 else ALLOPS

    def script(rets=RETS, likely=None):
        eff = [pick(rng, EFFECTS) for _ in range(rng.randrange(1, 3))] \
            if rng.random() < messy else []
        if rng.random() < faulty:
            return [eff, [rng.choice(EXC)]]
        if likely and rng.random() < .8:
            return [eff, likely]
        return [eff, pick(rng, rets)]

    def beh():
        b = {'*': script()}
        for m in rng.sample(METHODS, 14):
            b[m] = script(likely=LIKELY.get(m))
        for m in LIKELY:
            b.setdefault(m, script(likely=LIKELY[m]))
        b['__Security_checker__'] = script(
            [('checker', 6), ('none', 1), ('int', .3)])
        b['__getattr__'] = script([('new', 1), ('self', 1), ('int', 1)]) \
            if rng.random() < .5 else [[], ['AttributeError']]
        b['N__eq__'] = [
            [pick(rng, [('reinit', 4), ('wipe', 2), ('refill', 1),
                        ('drop', 1)])] if rng.random() < messy * 1.5 else [],
            pick(rng, [('yes', 5), ('true', 2), ('new', 1)])]
        for n in 'K__module__', 'K__name__':
            b[n] = script([('long', 3), ('int', 1), ('new', .5)]) \
                if rng.random() < .6 else [[], ['AttributeError']]
        return b

    def table(p):
        names = set(ATTR[:10]) | {'__%s__' % o.split(':')[-1] for o in focus}
        names |= set(METHODS)
        return {n: rng.choice(['pub', 'pub', 'p', 'q', None])
                for n in sorted(names) if rng.random() < p}

    def ck(i):
        k = pick(rng, [('C', 8), ('sub', 1.5), ('py', 2), ('slot', 1),
                       ('both', 1.5 if i else 0), ('deny', 1)])
        if k == 'deny':
            return {'k': 'C', 'get': {}, 'set': {}}
        if k in ('C', 'sub'):
            return {'k': k, 'get': table(rng.choice([.5, .95])),
                    'set': table(rng.choice([0, .4]))}
        if k == 'both':
            return {'k': k, 'a': rng.randrange(9), 'b': rng.randrange(9)}
        b = {}
        for m in ('check', 'check_getattr', 'check_setattr', '__setitem__'):
            if rng.random() < .4:
                b[m] = script([('none', 3), ('int', 1), ('new', .5)])
        for m in ('proxy', '__getitem__'):
            if rng.random() < .3:
                b[m] = script([('arg', 2), ('prx', 1), ('new', 1)])
        return {'k': k, 'beh': b}

    def operand():
        r = rng.random()
        if r < .3:
            return ['i', rng.choice([0, 1, 2, 1000])]
        if r < .5:
            return ['h', rng.randrange(99)]
        if r < .65:
            return ['o', rng.randrange(99)]
        if r < .75:
            return ['s', rng.choice(['a', 'zzq_alpha', ''])]
        if r < .8:
            return ['n']
        if r < .82:
            return ['q', rng.choice(ATTR)]
        if r < .87:
            return ['f', 2.5]
        if r < .95:
            return ['l', [operand() for _ in range(rng.randrange(3))]]
        return ['t', [operand() for _ in range(rng.randrange(3))]]

    def op():
        r = rng.random()
        k = rng.choice(focus) if r < .55 else rng.choice(
            list(NAMED)) if r < .73 else rng.choice(list(MORE)) \
            if r < .95 else rng.choice(['checker', 'select', 'newchecker'])
        if rng.random() < nomem:
            k = 'nm:' + rng.choice(NMOPS)
        o = {'o': k, 'x': ['h', rng.randrange(99)],
             'a': [operand(), operand()]}
        if k in NAMED or k in MORE or k[:3] == 'nm:':
            o['n'] = rng.choice(ATTR)
        if k in MORE or k[:3] == 'nm:':
            o['i'] = rng.randrange(1 << 12)
            if rng.random() < .3:
                o['x'] = ['o', rng.randrange(99)]
        if k[:3] == 'nm:':
            a = rng.choice([0, 0, 5])
            o['nomem'] = [a, rng.choice([8, 16, 30]),
                          rng.choice([0, 0, 0, 1, 1, 2, 3])]
        return o

    return {
        'objs': [{'c': rng.randrange(6), 'beh': beh()}
                 for _ in range(rng.randrange(1, 4))],
        'cks': [ck(i) for i in range(rng.randrange(1, 4))],
        'reg': [pick(rng, [(None, 3), (['ck', rng.randrange(9)], 3),
                           (['noproxy'], 1), (['factory'], 1.5)])
                for _ in NODES],
        'fresh': beh(),
        'policy': {p: script([('true', 4), ('int', 3), ('none', 1),
                              ('new', 1), ('str', 1)])
                   for p in ('p', 'q', 'other')},
        'factory': {'*': script([('checker', 5), ('none', 1), ('nopro', 1),
                                 ('factory', .1), ('int', .2)])},
        'prx': [[rng.randrange(9), rng.randrange(9)]
                for _ in range(rng.randrange(1, 5))],
        'messy': messy > 0,
        'ops': [op() for _ in range(rng.randrange(2, 12))],
        'threads': [],
    }


def simplify(case):
    for n in range(len(case['ops'])):
        c = copy.deepcopy(case)
        del c['ops'][n]
        if c['ops']:
            yield c
    for n, o in enumerate(case['ops']):
        if o.get('nomem') and o['nomem'][1] > 1:
            a, b, p = o['nomem']
            for m in ([a, b // 2, p], [a + b // 2, b - b // 2, p]):
                c = copy.deepcopy(case)
                c['ops'][n]['nomem'] = m
                yield c
    for n in range(len(case['objs'])):
        for m in sorted(case['objs'][n]['beh']):
            c = copy.deepcopy(case)
            del c['objs'][n]['beh'][m]
            yield c
    for key in ('prx', 'objs', 'cks'):
        if len(case[key]) > 1:
            c = copy.deepcopy(case)
            del c[key][-1]
            yield c
