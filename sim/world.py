"""The simulated world of one run: probes, checkers, policy, interactions,
their reference model, and the event log both sides write."""
import operator
import re
import sys
import types

import boot  # noqa: F401
from probe import (BIN, CLASSES, CMP, CUR, INPLACE, KINDEX, State, _oget, st)

import zope.security.checker as zchecker
import zope.security.management as zmanagement
from zope.security.interfaces import Forbidden
from zope.security.interfaces import ForbiddenAttribute
from zope.security.interfaces import Unauthorized
from zope.security.proxy import Proxy
from zope.security.proxy import getChecker
from zope.security.proxy import getObject

from kernel import HarnessError

CheckerPublic = zchecker.CheckerPublic
ProxyType = Proxy

# What is documented to be always available.
AVAILABLE = frozenset([
    '__lt__', '__le__', '__eq__', '__gt__', '__ge__', '__ne__', '__hash__',
    '__bool__', '__class__', '__providedBy__', '__implements__', '__repr__',
    '__conform__', '__name__', '__parent__'])
# Reading operations granted on built-in values by the default registrations.
D_ITER = frozenset(['next', '__next__', '__iter__', '__len__',
                    '__length_hint__'])
D_CALL = frozenset(['__str__', '__name__', '__call__'])
D_SET = frozenset(['__iter__', '__len__', '__str__', '__contains__', 'copy',
                   'difference', 'intersection', 'issubset', 'issuperset',
                   'symmetric_difference', 'union', '__and__', '__or__',
                   '__sub__', '__xor__', '__rand__', '__ror__', '__rsub__',
                   '__rxor__', '__eq__', '__ne__', '__lt__', '__gt__',
                   '__le__', '__ge__'])
D_TABLE = {
    dict: frozenset(['__getitem__', '__len__', '__iter__', 'get', 'has_key',
                     'copy', '__str__', 'keys', 'values', 'items', 'iterkeys',
                     'iteritems', 'itervalues', '__contains__']),
    list: frozenset(['__getitem__', '__len__', '__iter__', '__contains__',
                     'index', 'count', '__str__', '__add__', '__radd__']),
    tuple: frozenset(['__getitem__', '__add__', '__radd__', '__contains__',
                      '__len__', '__iter__', '__str__']),
    types.FunctionType: D_CALL,
    types.MethodType: D_CALL,
    types.BuiltinFunctionType: D_CALL,
    type(().__repr__): D_CALL,
    type({}.keys()): D_SET,
    type({}.values()): D_SET,
    type({}.items()): D_SET,
    set: D_SET,
    frozenset: D_SET,
    type(iter([])): D_ITER,
    type(iter(())): D_ITER,
    type(iter({})): D_ITER,
    type(iter(set())): D_ITER,
    type(iter({}.values())): D_ITER,
    type(iter({}.items())): D_ITER,
    type(x for x in ()): D_ITER,
    type(iter(type('', (), {'__getitem__': None})())): D_ITER,
}
D_BASIC = frozenset([int, float, complex, type(None), str, bytes, bool,
                     object])


class Injected(Exception):
    pass


class InjectedBase(BaseException):
    pass


EXCS = {
    'ValueError': ValueError, 'KeyError': KeyError, 'TypeError': TypeError,
    'AttributeError': AttributeError, 'RuntimeError': RuntimeError,
    'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
    'SystemExit': SystemExit, 'StopIteration': StopIteration,
    'GeneratorExit': GeneratorExit, 'RecursionError': RecursionError,
    'OSError': OSError, 'LookupError': LookupError, 'Injected': Injected,
    'InjectedBase': InjectedBase, 'ZeroDivisionError': ZeroDivisionError,
    'Unauthorized': Unauthorized, 'Forbidden': Forbidden,
    'ForbiddenAttribute': ForbiddenAttribute, 'IndexError': IndexError,
    'AssertionError': AssertionError,
}


class Falsy:
    def __bool__(self):
        return False


class Truthy:
    pass


class Obj:
    """A permission that is no string."""

    def __init__(self, n):
        self.n = n


class Same:
    """A permission that is equal to any other, and false."""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return 1

    def __len__(self):
        return 0


ANSWERS = {'True': True, 'False': False, '1': 1, '0': 0, 'empty': '',
           'str': 'no', 'list': [], 'list0': [0], 'None': None,
           'falsy': Falsy(), 'truthy': Truthy(), '0.0': 0.0, 'tuple': ()}
PERMS = {'zpub': sys.intern('zope.Public'), 'zpub2': ''.join(['zope.', 'Public']),
         'p0': 'p0', 'p1': 'p1', 'p2': 'p2', 'p3': 'p3', 'zero': 0,
         'empty': '', 'false': False, 'obj': Obj(1), 'tup': ('a', 1),
         'same': Same()}
PERM_NAME = {}
for _k, _v in PERMS.items():
    PERM_NAME[id(_v)] = _k


# ---------------------------------------------------------------------------
# Checkers of the code under test


class BoolBomb:
    def __init__(self, world):
        self.world = world

    def __bool__(self):
        self.world.ev('b')
        return False


class SutMethodChecker:
    """An IChecker written by an application."""

    def __init__(self, world, label, spec):
        self.__dict__['x'] = (world, label, spec)

    def check(self, ob, name):
        w, label, spec = self.x
        w.custom_check(label, spec, 'check', ob, name)

    def check_getattr(self, ob, name):
        w, label, spec = self.x
        w.custom_check(label, spec, 'getattr', ob, name)

    def check_setattr(self, ob, name):
        w, label, spec = self.x
        w.custom_check(label, spec, 'setattr', ob, name)

    def proxy(self, value):
        w, label, spec = self.x
        if type(value) in D_BASIC:
            return value
        w.ev('x', label, w.canon(value))
        mode = spec['proxy']
        if type(value) is ProxyType or type(value) in D_BASIC \
                or mode == 'raw':
            return value
        if mode == 'same':
            return ProxyType(value, self)
        return zchecker.ProxyFactory(value)


class SutSideChecker(SutMethodChecker):
    """As a side of a combined checker: both kinds of reading are one."""

    def check(self, ob, name):
        w, label, spec = self.x
        w.custom_check(label, spec, 'read', ob, name)

    check_getattr = check


class SutSlotChecker(SutSideChecker):
    """One that also offers the operator aliases of the C checker."""

    def __setitem__(self, ob, name):
        self.check(ob, name)

    def __getitem__(self, value):
        return self.proxy(value)


# ---------------------------------------------------------------------------
# Reference model of proxies and checkers


class RefChecker:
    __slots__ = ('world', 'label', 'kind', 'get', 'set', 'spec', 'second',
                 'quiet')

    def __init__(self, world, label, kind, get=None, set=None, spec=None,
                 second=None, quiet=False):
        self.world = world
        self.label = label
        self.quiet = quiet
        self.kind = kind
        self.get = get
        self.set = set
        self.spec = spec
        self.second = second

    def check(self, kind, ob, name):
        w = self.world
        if self.kind in ('method', 'slot'):
            w.custom_check(self.label, self.spec,
                           'read' if self.kind == 'slot'
                           and kind != 'setattr' else kind, ob, name)
            return
        if self.kind == 'combined':
            if kind == 'getattr' or kind == 'check':
                kind = 'read'
            try:
                self._plain(kind, ob, name)
            except ForbiddenAttribute:
                self.second.check(kind, ob, name)
            except Unauthorized as first:
                try:
                    self.second.check(kind, ob, name)
                except ForbiddenAttribute:
                    raise first
            return
        self._plain(kind, ob, name)

    def _plain(self, kind, ob, name):
        w = self.world
        if not boot.WATCH or self.quiet:
            return self._decide(kind, ob, name)
        try:
            self._decide(kind, ob, name)
            if boot.WATCH > 1 and w.robust != 2:
                w.log('+', name, ob)
        except Unauthorized:
            w.log('U', name, ob)
            raise
        except ForbiddenAttribute:
            w.log('F', name, ob)
            raise
        if boot.WATCH > 1 and w.robust == 2:
            w.log('+', name, ob)

    def _decide(self, kind, ob, name):
        w = self.world
        table = self.set if kind == 'setattr' else self.get
        perm = table.get(name)
        if perm is not None:
            if perm == 'PUB':
                return
            if not w.ask(PERMS[perm], ob):
                raise Unauthorized(ob, name, PERMS[perm])
            return
        if kind != 'setattr':
            if name in AVAILABLE:
                return
            if name == '__iter__' and not hasattr(ob, '__iter__'):
                # iterating gets the items then, if there are any
                if hasattr(type(ob), '__getitem__'):
                    self._decide(kind, ob, '__getitem__')
                return
        raise ForbiddenAttribute(name, ob)

    def wrap(self, value):
        w = self.world
        if self.kind in ('method', 'slot'):
            if type(value) in D_BASIC:
                return value
            w.ev('x', self.label, w.canon(value))
            mode = self.spec['proxy']
            if type(value) is w.Ref or type(value) in D_BASIC \
                    or mode == 'raw':
                return value
            if mode == 'same':
                return w.Ref(value, self)
        return w.ref_factory(value)


def make_ref_class(recheck, has_complex, str_swallow, own_methods):
    """The reference proxy: ask the checker, do it, wrap what comes back."""
    ns = {'__slots__': ('_o', '_c')}

    def init(self, o, c):
        _o.__set__(self, o)
        _c.__set__(self, c)
    ns['__init__'] = init

    def add(name, fn, kind='check', wrap=True):
        if wrap:
            def method(self, /, *args, **kw):
                o = _o.__get__(self)
                c = _c.__get__(self)
                c.check(kind, o, name)
                return c.wrap(fn(o, *args, **kw))
        else:
            def method(self, *args, **kw):
                o = _o.__get__(self)
                c = _c.__get__(self)
                c.check(kind, o, name)
                return fn(o, *args, **kw)
        ns[name] = method

    def swap(f):
        return lambda a, b: f(b, a)

    fns = {n: getattr(operator, n if n not in ('and', 'or') else n + '_')
           for n in BIN if n != 'divmod'}
    fns['divmod'] = divmod
    for n, f in fns.items():
        add('__%s__' % n, f)
        add('__r%s__' % n, swap(f))
    add('__pow__', lambda a, b, m=None: pow(a, b) if m is None
        else pow(a, b, m))
    add('__rpow__', lambda a, b, m=None: pow(b, a) if m is None
        else pow(b, a, m))
    for n in INPLACE:
        def inplace(self, other, *, f=getattr(operator, '__i%s__' % n),
                    name='__i%s__' % n):
            o = _o.__get__(self)
            c = _c.__get__(self)
            c.check('check', o, name)
            r = f(o, other)
            if r is o:
                return self
            return c.wrap(r)
        ns['__i%s__' % n] = inplace
    for n, f in (('neg', operator.neg), ('pos', operator.pos),
                 ('abs', abs), ('invert', operator.invert),
                 ('int', lambda o: int(o)), ('float', lambda o: float(o)),
                 ('index', operator.index)):
        add('__%s__' % n, f)
    if has_complex:
        add('__complex__', lambda o: complex(o))
    add('__call__', lambda o, /, *a, **k: o(*a, **k))
    add('__getitem__', lambda o, k: o[k])
    add('__setitem__', operator.setitem, wrap=False)
    add('__delitem__', operator.delitem, wrap=False)
    add('__len__', len, wrap=False)
    add('__contains__', operator.contains, wrap=False)
    add('__iter__', lambda o: iter(o))
    add('__next__', lambda o: next(o), kind='getattr')
    for n in CMP:
        def cmp(self, other, *, f=getattr(operator, n)):
            r = f(_o.__get__(self), other)
            if r is True or r is False:
                return r
            return _c.__get__(self).wrap(r)
        ns['__%s__' % n] = cmp
    ns['__hash__'] = lambda self: hash(_o.__get__(self))
    ns['__bool__'] = lambda self: bool(_o.__get__(self))

    def length_hint(self):
        try:
            hint = _o.__get__(self).__length_hint__
        except AttributeError:
            return NotImplemented
        return hint()
    ns['__length_hint__'] = length_hint

    def text(name, f):
        def method(self):
            o = _o.__get__(self)
            c = _c.__get__(self)
            try:
                c.check('check', o, name)
            except BaseException:
                return generic(o)
            try:
                return f(o)
            except TypeError:
                raise
            except BaseException:
                if not str_swallow:
                    raise
                return generic(o)
        ns[name] = method

    def generic(o):
        cls = type(o)
        return '<security proxied %s.%s instance at 0x0>' % (
            cls.__module__, cls.__name__)
    text('__str__', str)
    text('__repr__', repr)

    def getattribute(self, name):
        o = _o.__get__(self)
        c = _c.__get__(self)
        c.check('getattr', o, name)
        try:
            v = getattr(o, name)
        except AttributeError:
            if not own_methods or name not in names:
                raise
            v = types.MethodType(ns[name], self)
        return c.wrap(v)
    names = [n for n in ns if n[2:-2] not in CMP
             and n not in ('__init__', '__hash__', '__bool__')]
    ns['__getattribute__'] = getattribute
    if recheck:
        def getattr_(self, name):
            _c.__get__(self).check('getattr', _o.__get__(self), name)
            raise AttributeError(name)
        ns['__getattr__'] = getattr_

    def setattr_(self, name, value):
        o = _o.__get__(self)
        _c.__get__(self).check('setattr', o, name)
        setattr(o, name, value)
    ns['__setattr__'] = setattr_

    def delattr_(self, name):
        o = _o.__get__(self)
        _c.__get__(self).check('setattr', o, name)
        delattr(o, name)
    ns['__delattr__'] = delattr_
    for n, f in ns.items():
        if type(f) is types.FunctionType:
            f.__name__ = n
    cls = type('Ref', (), ns)
    _o = cls.__dict__['_o']
    _c = cls.__dict__['_c']
    cls_o[cls] = _o
    cls_c[cls] = _c
    return cls


cls_o = {}
cls_c = {}
HAS_COMPLEX = hasattr(ProxyType, '__complex__')
REFS = {(r, s, m): make_ref_class(r, HAS_COMPLEX, s, m)
        for r in (False, True) for s in (False, True) for m in (False, True)}

ADDR = re.compile(r'0x[0-9a-fA-F]+|(?<=<bound method )\S+(?= of )')


class Halt(Exception):
    """The kernel is told to stop a run."""


class World:
    """State shared by all threads of one run.

    mode 'sut' drives zope.security, mode 'ref' the reference model; both
    write the same kinds of events.
    """

    def __init__(self, case, kernel, mode, variant=(False, False, False)):
        self.case = case
        self.kernel = kernel
        self.mode = mode
        self.Ref = REFS[variant]
        self.ref_o = cls_o[self.Ref].__get__
        self.ref_c = cls_c[self.Ref].__get__
        self.tid_ = 0             # reference mode: thread being replayed
        self.events = {}          # tid -> list of events of the current op
        self.faults = {}          # tid -> [at, nth, exc]
        self.counts = {}          # (tid, key) -> n
        self.fired = {}           # (at, exc) -> n
        self.muted = {}
        self.objs = {}            # name -> raw probe
        self.checkers = {}        # label -> checker
        self.labels = {}          # id(checker) -> label
        self.keep = []
        self.registry = {}        # ref mode: type -> label/spec
        self.cur = {}             # ref mode: tid -> interaction
        self.prev = {}
        self.defined = []
        self.nevents = 0
        self.harness = []
        self.interrupted = set()  # (tid, index) of interrupted operations
        self.skip = False         # ref mode: leave these out
        self.robust = 0           # how diagnostics deal with failures

    # -- threads ------------------------------------------------------------

    def tid(self):
        if self.mode == 'ref':
            return self.tid_
        return self.kernel.tid

    def count(self, key):
        tid = self.tid()
        k = (tid, bool(self.muted.get(tid)), key)
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        return n

    # -- events -------------------------------------------------------------

    def log(self, verdict, name, ob):
        """The diagnostics report a check (reference mode)."""
        try:
            repr(ob)
            self.ev('l', verdict, name)
        except Exception:
            if self.robust != 1:
                raise

    def ev(self, kind, *data):
        tid = self.tid()
        if self.muted.get(tid):
            return
        self.nevents += 1
        evs = self.events.get(tid)
        if evs is not None:
            evs.append((kind,) + data)
            if len(evs) > 3000:
                raise HarnessError('runaway operation')
        f = self.faults.get(tid)
        if f is not None and f[0] == kind:
            if f[1] == 0:
                self.faults[tid] = None
                key = kind + ':' + f[2]
                if self.mode == 'sut':
                    self.fired[key] = self.fired.get(key, 0) + 1
                raise EXCS[f[2]]('injected')
            f[1] -= 1
        if self.mode == 'sut':
            self.kernel.point(kind)

    # -- canonical descriptions ---------------------------------------------

    def canon(self, v, depth=0):
        k = self.kernel
        if k is not None and depth == 0 and k.current is not None \
                and k.current.traced:
            # (the code of proxies we use here is not to be interrupted)
            k.current.traced = False
            try:
                return self.canon(v, 0)
            finally:
                k.current.traced = True
        t = type(v)
        if t in KINDEX:
            return ('O', st(v).name)
        if t is ProxyType:
            if v is CheckerPublic:
                return 'PUBLIC'
            o = getObject(v)
            return ('P', self.label(getChecker(v), o), self.canon(o, depth))
        if t is self.Ref:
            o = self.ref_o(v)
            return ('P', self.ref_c(v).label, self.canon(o, depth))
        if t in D_BASIC:
            if t is object:
                return 'object'
            if t is int and v.bit_length() > 200:
                return 'int%d' % (v % 1000003)
            if t is str and len(v) > 20:
                return ADDR.sub('0x0', v)
            return repr(v)
        if id(v) in PERM_NAME:
            return 'perm:' + PERM_NAME[id(v)]
        if depth > 4:
            return '...'
        if t in (list, tuple):
            return (t.__name__,) + tuple(
                self.canon(x, depth + 1) for x in v)
        if t is dict:
            return ('dict',) + tuple(
                (repr(k) if type(k) is str else self.canon(k, depth + 1),
                 self.canon(x, depth + 1)) for k, x in v.items())
        if t is types.MethodType:
            return ('M', self.canon(v.__self__, depth + 1),
                    v.__func__.__name__)
        if t is types.FunctionType:
            return ('F', v.__name__)
        if t is slice:
            return ('slice', self.canon(v.start, depth + 1),
                    self.canon(v.stop, depth + 1),
                    self.canon(v.step, depth + 1))
        if isinstance(v, type):
            return ('T', v.__name__)
        return ('?', t.__name__)

    def label(self, checker, ob):
        lab = self.labels.get(id(checker))
        if lab is not None:
            return lab
        probe = type(ob) in KINDEX
        plain = probe or type(ob) in SUB_TYPES
        tid = self.tid()
        was = self.muted.get(tid)
        self.muted[tid] = True
        try:
            same = checker is zchecker.selectChecker(
                _plain_object if plain else ob)
        finally:
            self.muted[tid] = was
        if same:
            return 'default' if probe else 'D'
        return self.composed(checker)

    def composed(self, checker):
        return 'unknown'

    # -- probes ------------------------------------------------------------

    def new_probe(self, name, cls, beh=None, own=None):
        p = CLASSES[cls](State(name, beh or {}, own))
        return p

    def behaviour(self, probe, key):
        s = st(probe)
        spec = s.beh.get(key)
        if spec is None:
            spec = DEFAULTS.get(key)
            if spec is None:
                spec = s.beh.get('*', ['int', 7])
        return spec

    def touch(self, probe, method, args):
        s = st(probe)
        self.ev('t', s.name, method, tuple(self.canon(a) for a in args))
        if method in ('__setattr__',):
            s.store[(self.tid(), args[0])] = args[1]
            return None
        if method == '__delattr__':
            s.store.pop((self.tid(), args[0]), None)
            return None
        if method == '__next__':
            n = self.count('next:' + s.name)
            if n % 3 == ord(s.name[-1]) % 3:
                raise StopIteration('from probe')
        if method == '__getitem__' and type(args[0]) is int and args[0] > 2 \
                and '__iter__' not in type(probe).__dict__:
            raise IndexError
        spec = self.behaviour(probe, method)
        if method == '__pow__' and len(args) > 1 and spec[0] == 'ni':
            if type(args[1]) in (ProxyType, self.Ref):
                return NotImplemented
            spec = ['new', KINDEX[type(probe)]]
        return self.make(spec, probe, method)

    def get(self, probe, name):
        s = st(probe)
        if name[:2] == '__':
            if name not in METHOD_SET:
                # object's own special attributes
                return _oget(probe, name)
            self.ev('t', s.name, 'get', (name,))
            return _oget(probe, name)
        self.ev('t', s.name, 'get', (name,))
        v = s.store.get((self.tid(), name), s)
        if v is not s:
            return v
        return self.make(self.behaviour(probe, 'attr:' + name), probe,
                         'attr:' + name)

    def iter_asked(self):
        """An object is asked for its __iter__, and may fail once."""
        tid = self.tid()
        f = self.faults.get(tid)
        if f is not None and f[0] == 'it' and not self.muted.get(tid):
            self.faults[tid] = None
            if self.mode == 'sut':
                key = 'it:' + f[2]
                self.fired[key] = self.fired.get(key, 0) + 1
            raise EXCS[f[2]]('injected')

    def own_checker(self, probe):
        own = st(probe).own
        tid = self.tid()
        f = self.faults.get(tid)
        if f is not None and f[0] == 'sc' and not self.muted.get(tid):
            key = 'sc:' + f[2]
            if self.mode == 'sut':
                self.fired[key] = self.fired.get(key, 0) + 1
            raise EXCS[f[2]]('injected')
        if own is None:
            raise AttributeError('__Security_checker__')
        return self.checkers[own]

    def make(self, spec, owner, method):
        kind = spec[0]
        if kind in ('int', 'str', 'float', 'bool'):
            return spec[1]
        if kind == 'none':
            return None
        if kind == 'sub':
            t = SUBS[spec[1]]
            return t(SUB_VALUES[spec[1]])
        if kind == 'complex':
            return complex(spec[1], 1)
        if kind == 'self':
            return owner
        if kind == 'obj':
            return self.objs[spec[1]]
        if kind == 'new':
            name = '%s.%s#%d.%d' % (st(owner).name, method,
                                    self.tid(),
                                    self.count('new:' + st(owner).name))
            return self.new_probe(name, spec[1], spec[2] if len(spec) > 2
                                  else st(owner).beh,
                                  spec[3] if len(spec) > 3 else None)
        if kind == 'prx':
            return self.proxied(spec[1])
        if kind == 'ni':
            return NotImplemented
        if kind == 'raise':
            raise EXCS[spec[1]]('from probe')
        if kind == 'list':
            return [self.make(s, owner, method) for s in spec[1]]
        if kind == 'tuple':
            return tuple([self.make(s, owner, method) for s in spec[1]])
        if kind == 'dict':
            return {'k%d' % i: self.make(s, owner, method)
                    for i, s in enumerate(spec[1])}
        if kind == 'iter':
            return iter([self.make(s, owner, method) for s in spec[1]])
        if kind == 'gen':
            vals = [self.make(s, owner, method) for s in spec[1]]
            return (v for v in vals)
        if kind == 'fn':
            world = self
            name = st(owner).name

            def fn(*args):
                world.ev('t', name, 'fn:' + method,
                         tuple(world.canon(a) for a in args))
                return world.make(spec[1], owner, method)
            return fn
        if kind == 'object':
            return _plain_object2
        raise HarnessError('spec %r' % (spec,))

    # -- policy ---------------------------------------------------------

    def answer(self, label, perm, ob):
        self.ev('q', label, self.canon(perm), self.canon(ob))
        table = self.grants[label]
        a = table.get(PERM_NAME.get(id(perm), '?'), 'False')
        if a == 'bomb':
            return BoolBomb(self)
        return ANSWERS[a]

    def custom_check(self, label, spec, kind, ob, name):
        if name == '__next__' and kind == 'getattr':
            kind = 'check'
        self.ev('k', label, kind, name, self.canon(ob))
        v = spec['set' if kind == 'setattr' else 'get'].get(
            name, spec['default'])
        if v == 'ok':
            return
        if v == 'unauth':
            raise Unauthorized(ob, name, label)
        if v == 'forbid':
            raise ForbiddenAttribute(name, ob)
        raise EXCS[v]('custom')


# values of basic types' subclasses, of which nothing is registered
SUB_VALUES = {'str': 'sub', 'int': 3, 'tuple': (1, 'b'), 'list': [2],
              'dict': {'k': 1}, 'float': .5, 'bytes': b'sub',
              'frozenset': (1,)}
SUBS = {t.__name__: type('Sub' + t.__name__, (t,), {})
        for t in (str, int, tuple, list, dict, float, bytes, frozenset)}
SUB_TYPES = frozenset(SUBS.values())

_plain_object = None
_plain_object2 = None


class _Unregistered:
    pass


_plain_object = _Unregistered()
_plain_object2 = object()

from probe import METHODS  # noqa: E402

METHOD_SET = frozenset(METHODS)

DEFAULTS = {
    '__len__': ['int', 2], '__bool__': ['bool', True],
    '__hash__': ['int', 11], '__int__': ['int', 5],
    '__float__': ['float', 1.5], '__complex__': ['complex', 2],
    '__index__': ['int', 1], '__length_hint__': ['int', 2],
    '__str__': ['str', '%probe-str {}'], '__repr__': ['str', 'probe-repr %s 100% {x}'],
    '__iter__': ['self'], '__contains__': ['bool', True],
    '__setitem__': ['none'], '__delitem__': ['none'],
    '__lt__': ['bool', True], '__le__': ['bool', False],
    '__eq__': ['bool', True], '__ne__': ['bool', False],
    '__gt__': ['bool', True], '__ge__': ['bool', False],
}
