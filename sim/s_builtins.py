"""Untrusted code and values of the built-in types, as they are protected by
default (C17)."""
import abc
import bisect
import collections
import copy
import datetime
import decimal
import functools
import io
import itertools
import json
import operator
import pickle
import random
import types
import warnings
import weakref

import boot
from base import BASE_EXC
from base import Base
from base import LINE_EXC
from base import pick
from base import sched_params
from base import show
from ops import CHECKNAME
from ops import OPS
from ops import UNCHECKED
from world import AVAILABLE
from world import D_CALL
from world import D_ITER
from world import D_SET
from world import D_TABLE

import zope.security.checker as zc
from zope.i18nmessageid import Message
from zope.security.interfaces import ForbiddenAttribute
from zope.security.proxy import Proxy
from zope.security.proxy import getChecker
from zope.security.proxy import getObject

warnings.simplefilter('ignore')
PURE = boot.PURE
D_TYPE = frozenset(['__str__', '__name__', '__module__', '__bases__',
                    '__mro__', '__implemented__'])
D_DEC = frozenset(
    ['__bool__', '__cmp__', '__eq__', '__ne__', '__hash__', '__str__',
     '__neg__', '__pos__', '__abs__', '__add__', '__radd__', '__sub__',
     '__rsub__', '__mul__', '__rmul__', '__truediv__', '__rtruediv__',
     '__divmod__', '__rdivmod__', '__mod__', '__rmod__', '__floordiv__',
     '__rfloordiv__', '__float__', '__int__', '__pow__', '__rpow__',
     'adjusted', 'as_tuple', 'compare', 'max', 'min', 'normalize',
     'quantize', 'remainder_near', 'same_quantum', 'sqrt', 'to_eng_string',
     'to_integral'])
TABLE = dict(D_TABLE)
TABLE.update({
    type: D_TYPE, abc.ABCMeta: D_TYPE, decimal.Decimal: D_DEC,
    weakref.ref: frozenset(['__call__']),
    type(io.BytesIO().getbuffer): D_CALL,
})
for _t in (collections.OrderedDict(),):
    for _x in (_t.keys(), _t.values(), _t.items(), iter(_t),
               iter(_t.keys()), iter(_t.values()), iter(_t.items())):
        TABLE.setdefault(type(_x), D_ITER)


class _Seq:
    def __len__(self):
        return 2

    def __getitem__(self, i):
        return [1, 2][i]


ITERTOOLS = {
    'islice': lambda x: itertools.islice(x, 5),
    'perms': itertools.permutations,
    'product': itertools.product,
    'repeat': lambda x: itertools.repeat(x, 3),
    'takewhile': lambda x: itertools.takewhile(lambda y: True, x),
    'dropwhile': lambda x: itertools.dropwhile(lambda y: False, x),
    'tee': lambda x: itertools.tee(x)[0],
    'zip_longest': lambda x: itertools.zip_longest(x),
    'accumulate': lambda x: itertools.accumulate(x, lambda a, b: b),
    'compress': lambda x: itertools.compress(x, [1, 1, 1]),
    'comb': lambda x: itertools.combinations(x, 1),
    'groupby': lambda x: itertools.groupby(x, type),
    'starmap': lambda x: itertools.starmap(lambda *a: x, [(1,), (2,)]),
    'seqiter': lambda x: iter(_Seq()),
}
for _f in ITERTOOLS.values():
    TABLE.setdefault(type(_f([1, 2])), D_ITER)
for _x in (itertools.count(), itertools.cycle('')):
    TABLE.setdefault(type(_x), D_ITER)
TABLE.setdefault(type(next(itertools.groupby([0]))[1]), D_ITER)
NEXTABLE = frozenset(
    t for t, names in TABLE.items() if names is D_ITER
    and hasattr(t, '__next__'))
SINGLE = object()
BASIC = {
    'int': 65536, 'big': 1 << 70, 'float': -1.5, 'complex': 2j,
    'none': None, 'str': 'text', 'bytes': b'abc', 'bool': True,
    'timedelta': datetime.timedelta(3),
    'datetime': datetime.datetime(2003, 1, 1),
    'date': datetime.date(2003, 1, 1), 'time': datetime.time(23, 58),
    'message': Message('message', domain='hello'), 'object': SINGLE,
}
RAW = tuple({type(v) for v in BASIC.values()}) + (type(NotImplemented),)


def stable(x):
    if type(x) in (tuple, frozenset):
        return all(stable(y) for y in x)
    return x is not SINGLE and (type(x) in RAW or type(x) in (
        decimal.Decimal, StrSub, IntSub, Thing))


class StrSub(str):
    pass


class IntSub(int):
    pass


class ListSub(list):
    pass


class DictSub(dict):
    pass


class Thing:
    """Unregistered."""

    def __init__(self, world, label):
        self.w = world
        self.label = label

    def __eq__(self, other):
        self.w.cb('eq', self.label)
        return getObject(other) is self

    def __hash__(self):
        self.w.cb('hash', self.label)
        return 7

    def __lt__(self, other):
        self.w.cb('lt', self.label)
        return True

    def __repr__(self):
        self.w.cb('text', self.label)
        return '<Thing %s>' % self.label

    def meth(self, *args):
        self.w.called.append(('meth', self.label, args))
        self.w.cb('call', self.label)
        return self


class Known(Thing):
    """Registered: one may read a and call it."""
    a = 5


ANYTHING = ['secret', '__dict__', '__class__', '__reduce__',
            '__reduce_ex__', '__globals__', '__code__', '__closure__',
            '__defaults__', '__self__', '__func__', '__subclasses__',
            '__init__', '__new__', 'gi_frame', 'gi_code', 'send', 'throw',
            'close', 'mapping', '__setstate__', '__builtins__',
            '__getattribute__', '__setattr__', '__delattr__', '__wrapped__',
            '__callback__', '__iadd__', '__ior__', 'append', 'clear', 'pop',
            'update', 'add', '__module__', '__name__', '__doc__', '__call__',
            '__next__', '__iter__', '__getitem__', '__len__', '__str__']

# what needs a real list, dict or set, and must not find one in a proxy
def _subclass(p, a):
    class X(p):
        pass


def _match(p, a):
    match p:
        case [x, *y]:
            return [x, y]
        case {'k0': x}:
            return [x]
        case _:
            return []


def _kw(p, a):
    return (lambda **kw: kw)(**p)


def _star(p, a):
    return (lambda *args: args)(*p)


def _setslice(p, a):
    p[0:1] = [a]


def _delall(p, a):
    del p[:]


def _augment(p, a):
    d = {'x': p}
    d['x'] += [a]
    return d['x']


# -> result is made by untrusted code out of what it got
COLLECT = {
    'list': lambda p, a: list(p), 'tuple': lambda p, a: tuple(p),
    'set': lambda p, a: len(set(p)), 'sorted': lambda p, a: sorted(p),
    'dict': lambda p, a: dict(p), 'star': _star, 'kw': _kw,
    'extend': lambda p, a: operator.iadd([], p),
    'unpack': lambda p, a: [*p], 'match': _match,
    'zip': lambda p, a: list(zip(p, [1, 2, 3])),
    'map': lambda p, a: list(map(lambda x: x, p)),
    'enum': lambda p, a: list(enumerate(p)),
    'reversed': lambda p, a: list(reversed(p)),
    'max': lambda p, a: max(p), 'minkey': lambda p, a: min(p, key=lambda x: 3),
    'chain': lambda p, a: list(itertools.chain(p, p))[:9],
    'reduce': lambda p, a: functools.reduce(lambda x, y: y, p),
    'update': lambda p, a: (lambda d: d.update(p) or d)({}),
    'counter': lambda p, a: collections.Counter(p) and 1,
    'deque': lambda p, a: list(collections.deque(p)),
    'pull': lambda p, a: [next(p), next(p)],
    'attrget': lambda p, a: operator.attrgetter('__name__')(p),
    'itemget': lambda p, a: operator.itemgetter(0)(p),
    'slice': lambda p, a: p[0:2], 'slicestep': lambda p, a: p[::2],
    'getitem0': lambda p, a: p[0], 'getitemk': lambda p, a: p['k0'],
    'getitemm': lambda p, a: p[-1],
    'evalk': lambda p, a: eval('k0', {}, p),
    'call': lambda p, a: p(), 'calla': lambda p, a: p(a),
    'callaa': lambda p, a: p(a, a), 'ge': lambda p, a: p >= a,
    'eq': lambda p, a: p == a, 'req': lambda p, a: a == p,
}
COLLECT_NEED = dict.fromkeys(
    ['list', 'tuple', 'star', 'unpack', 'zip', 'map', 'enum', 'chain',
     'reduce', 'deque', 'sorted', 'max'], '__iter__')
COLLECT_NEED.update(dict.fromkeys(
    ['getitem0', 'getitemk', 'getitemm', 'slice', 'slicestep', 'itemget'],
    '__getitem__'))
COLLECT_NEED.update(dict.fromkeys(['eq', 'req', 'ge'], '__eq__'))
# -> must not do anything, whatever comes out
TRY = {
    'delall': _delall, 'setslice': _setslice, 'augment': _augment,
    'subclass': _subclass,
    'lappend': lambda p, a: list.append(p, a),
    'linit': lambda p, a: list.__init__(p, [a]),
    'lsort': lambda p, a: list.sort(p),
    'liadd': lambda p, a: list.__iadd__(p, [a]),
    'lclear': lambda p, a: list.clear(p),
    'dupdate': lambda p, a: dict.update(p, {'n': a}),
    'dset': lambda p, a: dict.__setitem__(p, 'n', a),
    'dclear': lambda p, a: dict.clear(p),
    'dpop': lambda p, a: dict.popitem(p),
    'sadd': lambda p, a: set.add(p, a),
    'sclear': lambda p, a: set.clear(p),
    'supdate': lambda p, a: set.update(p, [a]),
    'odset': lambda p, a: collections.OrderedDict.move_to_end(p, 'k0'),
    'gsend': lambda p, a: types.GeneratorType.send(p, a),
    'gclose': lambda p, a: types.GeneratorType.close(p),
    'gthrow': lambda p, a: types.GeneratorType.throw(p, ValueError),
    'oset': lambda p, a: object.__setattr__(p, 'secret', a),
    'odel': lambda p, a: object.__delattr__(p, 'secret'),
    'tset': lambda p, a: type.__setattr__(p, 'secret', a),
    'mset': lambda p, a: types.ModuleType.__setattr__(p, 'secret', a),
    'heap': lambda p, a: __import__('heapq').heappush(p, a),
    'insort': lambda p, a: bisect.insort(p, 1),
    'shuffle': lambda p, a: random.Random(1).shuffle(p),
    'copy': lambda p, a: copy.copy(p),
    'deepcopy': lambda p, a: copy.deepcopy(p),
    'pickle': lambda p, a: pickle.dumps(p),
    'json': lambda p, a: json.dumps(p),
    'exec': lambda p, a: exec('x = 1', p),
    'execl': lambda p, a: exec('x = 1', {}, p),
    'bytes': lambda p, a: bytes(p), 'ba': lambda p, a: bytearray(p),
    'mv': lambda p, a: memoryview(p), 'join': lambda p, a: ','.join(p),
    'vars': lambda p, a: vars(p) and None, 'with': lambda p, a: OPS['with'][0](p),
    'caller': lambda p, a: operator.methodcaller('append', a)(p),
    'callcl': lambda p, a: operator.methodcaller('clear')(p),
    'partial': lambda p, a: functools.partial(p, a)(),
    'super': lambda p, a: super(type(p), p).__class__ and None,
    'issub': lambda p, a: issubclass(p, object),
    'isinst': lambda p, a: isinstance(a, p),
    'write': lambda p, a: io.BytesIO().readinto(p),
    'setdef': lambda p, a: p.setdefault('n', a),
    'iterset': lambda p, a: iter(p).__setstate__(0),
    'iterred': lambda p, a: iter(p).__reduce__() and None,
    'dictor': lambda p, a: {} | p, 'setor': lambda p, a: len({1} | p),
    'await': lambda p, a: p.__await__(),
    'fmt': lambda p, a: '{0.__dict__}'.format(p),
    'pctmap': lambda p, a: '%(k0)s' % p and None,
}
MUTATORS = ['append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort',
            'reverse', 'popitem', 'setdefault', 'update', 'add', 'discard',
            'difference_update', 'intersection_update',
            'symmetric_difference_update', '__setitem__', '__delitem__',
            '__iadd__', '__imul__', '__ior__', '__iand__', '__isub__',
            '__ixor__', '__init__', '__setattr__', '__delattr__', 'send',
            'throw', 'close', 'move_to_end', '__setstate__', '__setslice__',
            'appendleft', 'rotate', '__reduce__', '__reduce_ex__',
            '__getstate__', '__copy__', '__deepcopy__', '__sizeof__']
READ = {
    list: ['index', 'count', '__getitem__', '__contains__', '__len__',
           '__iter__', '__str__', '__add__'],
    tuple: ['__getitem__', '__contains__', '__len__', '__iter__', '__str__',
            '__add__'],
    dict: ['get', 'copy', 'keys', 'values', 'items', '__getitem__',
           '__len__', '__iter__', '__contains__', '__str__'],
}
for _t in (set, frozenset):
    READ[_t] = ['copy', 'difference', 'intersection', 'issubset',
                'issuperset', 'symmetric_difference', 'union', '__contains__',
                '__len__', '__iter__', '__and__', '__or__', '__sub__',
                '__xor__', '__str__']
READ[decimal.Decimal] = ['sqrt', 'adjusted', 'as_tuple', 'normalize', 'max',
                         'min', 'compare', 'quantize', 'same_quantum',
                         'to_eng_string', 'to_integral', '__add__',
                         '__str__', '__int__', '__float__', '__neg__']
for _t in (type({}.keys()), type({}.items())):
    READ[_t] = ['__iter__', '__len__', '__contains__', '__and__', '__or__',
                '__sub__', '__xor__', '__str__']
READ[type({}.values())] = ['__iter__', '__len__']
READ[types.FunctionType] = READ[types.MethodType] = ['__name__', '__str__']
READ[type] = ['__name__', '__module__', '__str__']
READ[abc.ABCMeta] = READ[type]
SLOT_READ = {
    'str': '__str__', 'len': '__len__', 'item': '__getitem__',
    'contains': '__contains__', 'bin:add': '__add__', 'bin:and': '__and__',
    'bin:or': '__or__', 'bin:sub': '__sub__', 'bin:xor': '__xor__',
    'bin:mul': '__mul__', 'bin:truediv': '__truediv__', 'neg': '__neg__',
    'abs': '__abs__', 'float': '__float__', 'int': '__int__',
    'bin:mod': '__mod__', 'bin:divmod': '__divmod__', 'slice': '__getitem__',
    'bin:floordiv': '__floordiv__', 'pos': '__pos__',
}


GOOD = {t: sorted(
    [o for o, name in CHECKNAME.items() if name in names
     and (hasattr(t, name) or name in ('__iter__', '__next__'))]
    + ['cmp:eq', 'cmp:ne', 'bool', 'hash', 'rcmp:eq', 'hint'])
    for t, names in TABLE.items()}


class World(Base):

    TAGS = ('C17',)

    def setup(self):
        self.called = []
        self.given = []         # values the caller had itself
        self.always_traced = any(
            (o.get('f') or [''])[0] == 'line'
            for th in self.case['threads'] for o in th['ops'])
        self.muted = True
        self.objs = []            # the application's objects
        self.shadow = []          # what their state should be
        self.gens = {}            # label -> [events, items, taken]
        self.module_names = {}
        self.module_ck = []
        zc.defineChecker(Known, zc.NamesChecker(['a', '__call__', 'meth']))
        for n, spec in enumerate(self.case['objs']):
            self.objs.append(self.build(n, spec))
        self.ids = {id(x): n for n, x in enumerate(self.objs)
                    if type(x) not in RAW and not (
                        type(x) in (tuple, frozenset) and not x)}
        self.iters = {}
        for n in range(len(self.objs)):
            self.shadow.append(self.state(n))
        self.muted = False

    def teardown(self):
        self.muted = True
        zc.undefineChecker(Known)
        for m in self.module_ck:
            zc.undefineChecker(m)

    def ref(self, r):
        if isinstance(r, int):
            return self.objs[r % len(self.objs)] if self.objs else None
        return BASIC[r]

    def hashable(self, r):
        x = self.ref(r)
        try:
            hash(x)
        except TypeError:
            return 'key%s' % r
        return x

    def member(self, r, n):
        """A set of several has none that is hashed by its address, or the
        order it is gone through would differ from run to run."""
        x = self.hashable(r)
        return x if n == 1 or stable(x) else 'key%s' % r

    def container(self, r, kinds=(list, tuple, dict, set, frozenset)):
        x = self.ref(r)
        if type(x) in kinds:
            return x
        for y in self.objs:
            if type(y) in kinds:
                return y
        return kinds[0]()

    def build(self, n, spec):
        k = spec[0]
        args = spec[1]
        if k in ('list', 'tuple', 'deque', 'listsub'):
            t = {'list': list, 'tuple': tuple, 'deque': collections.deque,
                 'listsub': ListSub}[k]
            return t([self.ref(r) for r in args])
        if k in ('set', 'frozenset'):
            t = {'set': set, 'frozenset': frozenset}[k]
            return t([self.member(r, len(args)) for r in args])
        if k in ('dict', 'odict', 'dictsub'):
            t = {'dict': dict, 'odict': collections.OrderedDict,
                 'dictsub': DictSub}[k]
            d = t(('k%d' % i, self.ref(r)) for i, r in enumerate(args))
            if args and len(args) > 2:
                d[self.hashable(args[0])] = self.ref(args[1])
            return d
        if k in ('keys', 'values', 'items'):
            return getattr(self.container(args[0], (dict,)), k)()
        if k == 'oview':
            return collections.OrderedDict(
                [('k0', self.ref(args[0]))]).items()
        if k == 'iter':
            return iter(self.container(args[0]))
        if k == 'itertools':
            return ITERTOOLS[args[1]](list(self.container(args[0])))
        if k == 'gen':
            return self.generator(n, [self.ref(r) for r in args])
        if k == 'func':
            return self.function(n, self.ref(args[0]))
        if k == 'method':
            return Thing(self, n).meth
        if k == 'wrapper':
            return self.container(args[0]).__len__
        if k == 'builtin':
            return 'a b c'.split
        if k == 'class':
            return type('C%d' % n, (), {'secret': self.ref(args[0]),
                                        'm': lambda self: 5})
        if k == 'abc':
            return abc.ABCMeta('A%d' % n, (), {'secret': self.ref(args[0])})
        if k == 'module':
            m = types.ModuleType('m%d' % n)
            m.secret = self.ref(args[0])
            m.a = self.ref(args[0])
            if args[1]:
                zc.defineChecker(m, zc.NamesChecker(['a']))
                self.module_ck.append(m)
                self.module_names[id(m)] = frozenset(['a'])
            return m
        if k == 'decimal':
            return decimal.Decimal(args[0])
        if k == 'thing':
            return Thing(self, n)
        if k == 'known':
            return Known(self, n)
        if k == 'weakref':
            x = self.ref(args[0])
            if not isinstance(x, Thing):
                x = self.keep = Thing(self, n)
                self.called.append(x)
            return weakref.ref(x)
        if k == 'strsub':
            return StrSub('sub')
        if k == 'intsub':
            return IntSub(5)
        if k == 'bytearray':
            return bytearray(b'abc')
        if k == 'proxy':
            return types.MappingProxyType(self.container(args[0], (dict,)))
        raise ValueError(k)

    def generator(self, n, items):
        rec = self.gens[n] = [[], items, 0, 0]

        def gen():
            try:
                for x in items:
                    rec[2] += 1
                    got = yield x
                    if got is not None:
                        rec[0].append('sent')
            except BaseException as e:
                rec[0].append(type(e).__name__)
                raise
            rec[3] = 1
            return 'done %d' % n
        g = gen()
        return g

    def function(self, n, result):
        w = self

        def fun(*args, **kw):
            w.called.append(('fun', n, args))
            w.cb('call', n)
            return result
        fun.secret = 1
        fun.__name__ = 'fun%d' % n
        return fun

    # -- states -----------------------------------------------------------

    def name(self, x, depth=0):
        """What something is."""
        t = type(x)
        if t is Proxy:
            return ('P', self.name(getObject(x), depth))
        n = self.ids.get(id(x))
        if n is not None and self.objs[n] is x:
            return 'o%d' % n
        if t is object:
            return 'object'
        if t in RAW or t in (decimal.Decimal, StrSub, IntSub, bytearray):
            if isinstance(x, int):
                return (t.__name__, hex(x) if t is not bool else repr(x))
            return (t.__name__, repr(x) if t is not str or len(x) < 30
                    else 'long')
        if depth > 3:
            return '...'
        if t in (list, tuple):
            return (t.__name__,) + tuple(self.name(y, depth + 1) for y in x)
        if t in (set, frozenset):
            return (t.__name__,) + tuple(sorted(
                repr(self.name(y, depth + 1)) for y in x))
        if t is dict:
            return ('dict',) + tuple((self.name(k, depth + 1),
                                      self.name(v, depth + 1))
                                     for k, v in x.items())
        if isinstance(x, type):
            return ('T', x.__name__)
        return ('?', t.__name__)

    def plain(self, x, depth=0):
        """Ditto, protected or not."""
        if type(x) is Proxy:
            x = getObject(x)
        if type(x) in (list, tuple, dict, set, frozenset) \
                and id(x) not in self.ids and depth < 4:
            if type(x) is dict:
                return ('dict',) + tuple(
                    (self.plain(k, depth + 1), self.plain(v, depth + 1))
                    for k, v in x.items())
            out = [self.plain(y, depth + 1) for y in x]
            if type(x) in (set, frozenset):
                out = sorted(map(repr, out))
            return (type(x).__name__,) + tuple(out)
        return self.name(x)

    def state(self, n):
        x = self.objs[n]
        t = type(x)
        if t in (list, tuple, ListSub, collections.deque):
            return tuple([self.name(y) for y in x])
        if t in (set, frozenset):
            return sorted(repr(self.name(y)) for y in x)
        if t in (dict, collections.OrderedDict, DictSub):
            return tuple([(self.name(k), self.name(v))
                          for k, v in t.items(x)])
        if n in self.gens and t is types.GeneratorType:
            return list(self.gens[n][0])
        if t is types.FunctionType:
            return (x.__name__, x.__defaults__, id(x.__code__),
                    tuple(x.__dict__.items()), len(x.__closure__))
        if t is types.MethodType:
            return (id(x.__self__), id(x.__func__), repr(vars(x.__self__)
                    .keys()))
        if isinstance(x, type) or t is types.ModuleType:
            return (sorted((k, id(v)) for k, v in vars(x).items()
                           if k not in ('__abstractmethods__', '_abc_impl')),
                    x.__bases__ if isinstance(x, type) else None)
        if isinstance(x, Thing):
            return sorted(vars(x))
        if t in (bytearray, StrSub, IntSub, decimal.Decimal):
            return (repr(x), getattr(x, '__dict__', None))
        if t is weakref.ref:
            return id(x())
        return None

    def table(self, ob):
        t = type(ob)
        if t is types.ModuleType:
            return self.module_names.get(id(ob), frozenset(['__name__']))
        if t is Known:
            return frozenset(['a', '__call__', 'meth'])
        return TABLE.get(t, frozenset())

    def grants(self, ob, name):
        return name in self.table(ob) or name in AVAILABLE or (
            name == '__iter__' and not hasattr(ob, '__iter__'))

    # -- verdicts on a result ---------------------------------------------

    def judge(self, v, what, depth=0):
        """Nothing unprotected may come out."""
        t = type(v)
        if t is Proxy:
            ob = getObject(v)
            if v is zc.CheckerPublic:
                return
            ck = getChecker(v)
            want = self.table(ob)
            get = getattr(ck, 'get_permissions', None)
            self.expect(get is not None and set(get) == want
                        and not ck.set_permissions, 'wrong-protection:'
                        + type(ob).__name__, what=what)
            self.expect(type(ob) not in RAW[:-1], 'protected-basic',
                        type=type(ob).__name__)
            return
        if t in RAW or any(v is x for x in self.given):
            return
        self.expect(id(v) not in self.ids or self.objs[self.ids[id(v)]]
                    is not v, 'unprotected:' + what, type=t.__name__)
        if t in (list, tuple, dict, set) and depth < 4:
            for y in (list(v.items()) if t is dict else v):
                self.judge(y, what, depth + 1)
            return
        if t in (slice, type(NotImplemented), StrSub, IntSub):
            self.expect(t not in (StrSub, IntSub), 'unprotected:' + what,
                        type=t.__name__)
            return
        if PURE and t is types.MethodType and type(v.__self__) is Proxy:
            # a special method of the proxy itself; it asks when called
            return
        self.bad('unprotected:' + what, type=t.__name__)

    def same(self, what):
        for n, was in enumerate(self.shadow):
            now = self.state(n)
            self.expect(now == was, 'changed:' + what,
                        kind=self.case['objs'][n][0], expected=was,
                        observed=now)

    # -- operations -------------------------------------------------------

    def thread(self, tid):
        th = self.case['threads'][tid]
        self.hs = getattr(self, 'hs', {})
        self.muted = True
        hs = self.hs[tid] = []
        for r in th['roots']:
            x = self.ref(r)
            if type(x) not in RAW:
                hs.append(zc.ProxyFactory(x))
        self.muted = False
        for h in hs:
            if type(h) is Proxy:
                self.judge(h, 'factory')
            else:
                self.bad('unprotected:factory', type=type(h).__name__)
        if not hs:
            return
        Base.thread(self, tid)

    def arg(self, hs, a):
        if a[0] == 'h':
            return hs[a[1] % len(hs)]
        if a[0] == 'b':
            return BASIC[a[1]]
        if a[0] == 'l':
            return [self.arg(hs, x) for x in a[1]]
        if a[0] == 's':
            return {1, 'text', 65536}
        if a[0] == 'd':
            return {'k0': self.arg(hs, a[1])}
        if a[0] == 'i':
            return a[1]
        if a[0] == 'k':
            return 'k%d' % a[1]
        if a[0] == 'dec':
            return decimal.Decimal(a[1])
        raise ValueError(a)

    def op(self, tid, o):
        if o['o'] == 'mutate':
            return self.mutate(tid, o)
        hs = self.hs[tid]
        p = hs[o['h'] % len(hs)]
        args = [self.arg(hs, a) for a in o['a']]
        ob = getObject(p)
        n = self.k.switches
        before = len(self.called)
        gen = self.gens.get(self.ids.get(id(ob))) \
            if type(ob) is types.GeneratorType else None
        done = gen and gen[3]
        kind = o['o']
        r, need, name = getattr(self, 'do_' + kind)(tid, o, p, args)
        f = self.fired(tid)
        what = '%s:%s:%s' % (kind, name, type(ob).__name__)
        self.same(what)
        if kind in ('set', 'del'):
            self.expect(r[0] == 'exc' and (f or isinstance(
                r[1], ForbiddenAttribute)), 'set-not-refused:' + what,
                observed=show(r))
        alone = self.k.switches == n and not f
        if r[0] == 'exc':
            if gen and name == 'next' and done != gen[3] \
                    and self.k.switches == n:
                # the result of a generator
                self.expect(type(r[1]) is StopIteration and r[1].args == (
                    'done %d' % self.ids[id(ob)],), 'result:' + what,
                    observed=show(r))
                self.res.probe('finished')
            if alone and need is not None:
                self.twin(o, p, ob, args, r, need, name, what)
            return r[0] + ' ' + type(r[1]).__name__
        v = r[1]
        self.given += [x for a in args for x in (
            a if type(a) is list else [a]) if type(x) is decimal.Decimal]
        if kind != 'try':
            self.judge(v, what)
        self.called_right(ob, name, args, v, what, before)
        if need is not None and not self.grants(ob, need):
            if kind in ('slot', 'good') and name in ('str', 'repr', 'format', 'fstr',
                                           'fstrr', 'pct'):
                self.expect('<security proxied ' in v, 'text:' + what,
                            observed=v)
            elif not f:
                self.expect(
                    (name in ('get_default', 'hasattr')
                     and v in ('dflt', False))
                    or any(type(a) is Proxy for a in args)
                    or self.dual(kind, name, args)
                    or (PURE and type(v) is types.MethodType),
                    'not-refused:' + what, observed=show(r))
        elif alone and need is not None:
            self.twin(o, p, ob, args, r, need, name, what)
        if type(v) in (list, tuple):
            new = [x for x in v if type(x) is Proxy][:3]
        else:
            new = [v] if type(v) is Proxy else []
        if type(v) is dict:
            new = [x for x in v.values() if type(x) is Proxy][:3]
        for x in new:
            if len(hs) < 40:
                hs.append(x)
        self.res.probe('got:%s' % (
            type(getObject(v)).__name__ if type(v) is Proxy else 'value'))
        if 'hash' in name:
            return 'hash'       # of addresses, mostly
        return ('ret', self.name(v))

    def called_right(self, ob, name, args, v, what, before):
        """What the application's functions and generators have seen."""
        new = self.called[before:]
        if type(ob) is types.FunctionType and ob.__name__[:3] == 'fun' \
                and name in ('call0', 'call1', 'call2', 'call', 'calla',
                             'callaa'):
            n = int(ob.__name__[3:])
            got = [c for c in new if c[0] == 'fun' and c[1] == n]
            k = {'0': 0, 'l': 0, '1': 1, '2': 2}.get(
                name[-1], name.count('a') - 1)
            want = [args[0]] * k if name[-1] == 'a' else args[:k]
            self.expect(len(got) >= 1 and any(
                len(c[2]) == k and all(x is y for x, y in zip(c[2], want))
                for c in got), 'call:' + what,
                observed=[len(c[2]) for c in got])
            self.expect(self.plain(v) == self.plain(
                ob.__closure__[1].cell_contents
                if ob.__code__.co_freevars[1] == 'result'
                else ob.__closure__[0].cell_contents), 'called:' + what) \
                if 'result' in ob.__code__.co_freevars[:2] else None
            self.res.probe('called')
        if type(ob) is types.GeneratorType and name == 'next':
            n = self.ids.get(id(ob))
            if n in self.gens:
                rec = self.gens[n]
                # another thread may have taken further ones since
                last = rec[1][rec[2] - 1:rec[2]] if len(
                    self.case['threads']) == 1 else rec[1][:rec[2]]
                self.expect(self.plain(v) in [self.plain(x) for x in last],
                            'next:' + what, observed=self.plain(v))
                self.res.probe('generated')

    def dual(self, kind, name, args):
        """Operations the other operand may do on its own."""
        return kind in ('slot', 'good') and (
            name.startswith(('rbin:', 'cmp:', 'rcmp:')) or name in (
                'rcontains', 'min', 'sorted2', 'pct', 'hint', 'ident',
                # by length and items, if there are any
                'reversed'))

    def do_slot(self, tid, o, p, args):
        fn, k = OPS[o['n']]
        need = CHECKNAME.get(o['n'])
        if o['n'] in UNCHECKED:
            need = None
        return (self.call(tid, o.get('f'), fn, p, *args[:k]), need, o['n'])

    def do_good(self, tid, o, p, args):
        """An operation that is granted."""
        names = GOOD.get(type(getObject(p))) or ['cmp:eq']
        return self.do_slot(tid, dict(o, n=names[o['i'] % len(names)]), p,
                            args)

    def do_get(self, tid, o, p, args):
        n = o['n']
        return self.call(tid, o.get('f'), getattr, p, n), n, 'get ' + n

    def do_set(self, tid, o, p, args):
        return (self.call(tid, o.get('f'), setattr, p, o['n'], args[0]),
                None, o['n'])

    def do_del(self, tid, o, p, args):
        return (self.call(tid, o.get('f'), delattr, p, o['n']), None,
                o['n'])

    def do_meth(self, tid, o, p, args):
        n = o['n']
        pick_ = READ.get(type(getObject(p)))
        if n == '*':
            n = pick_[o['i'] % len(pick_)] if pick_ else 'a'

        def fn():
            return getattr(p, n)(*args[:o['k']])
        return self.call(tid, o.get('f'), fn), n, 'meth ' + n

    def do_collect(self, tid, o, p, args):
        ob = getObject(p)
        need = COLLECT_NEED.get(o['n'])
        if need and not (type(ob) in READ and self.grants(ob, need)):
            need = None
        return (self.call(tid, o.get('f'), COLLECT[o['n']], p, args[0]),
                need, o['n'])

    def do_try(self, tid, o, p, args):
        return (self.call(tid, o.get('f'), TRY[o['n']], p, args[0]),
                None, o['n'])

    def twin(self, o, p, ob, args, r, need, name, what):
        """What the object itself says to the same."""
        t = type(ob)
        kind = o['o']
        if not self.grants(ob, need):
            if kind in ('get', 'meth') and r[0] == 'exc':
                self.expect(isinstance(r[1], ForbiddenAttribute) or (
                    PURE and kind == 'meth'),
                            'refusal:' + what, observed=show(r))
            return
        if kind == 'collect':
            if t in (types.FunctionType, types.MethodType) or (
                    name == 'req' and type(getObject(args[0]))
                    is decimal.Decimal):
                # Decimal asks the proxy for its class with isinstance()
                return

            def raw():
                return COLLECT[name](ob, args[0])
        elif kind in ('slot', 'good'):
            if SLOT_READ.get(name) not in READ.get(t, ()) and (
                    t is not decimal.Decimal):
                return
            if name not in SLOT_READ or (name in ('hash', 'str')
                                         and t is not list
                                         and t is not decimal.Decimal):
                return
            fn, k = OPS[name]

            def raw():
                return fn(ob, *args[:k])
        elif kind == 'meth':
            if need not in READ.get(t, ()):
                return
            n = need
            if n == '__str__' and t is not list:
                return

            def raw():
                return getattr(ob, n)(*args[:o['k']])
        elif kind == 'get' and need in ('__name__', '__module__',
                                        '__bases__', '__mro__') \
                and self.grants(ob, need):
            def raw():
                return getattr(ob, need)
        else:
            return
        if any(self.consumed(a) for a in args):
            return
        self.muted = True
        try:
            try:
                want = ('ret', raw())
            except Exception as e:
                want = ('exc', e)
        finally:
            self.muted = False
        self.res.probe('compared')
        if r[0] == 'exc' and type(r[1]) is TypeError and str(
                r[1]) == 'issubclass() arg 1 must be a class':
            # a Decimal met a proxy as its other operand and asked it for
            # its class with isinstance(): see DESIGN.md
            self.res.probe('decimal-meets-proxy')
            return
        if want[0] == 'exc':
            self.expect(r[0] == 'exc' and (
                type(r[1]) is type(want[1])
                or PURE and isinstance(r[1], (TypeError, AttributeError))),
                'reading:' + what, expected=show(want), observed=show(r))
            return
        self.expect(r[0] == 'ret', 'reading:' + what, expected=show(want),
                    observed=show(r))
        if name in ('str', 'meth __str__'):
            return
        a, b = r[1], want[1]
        if name == 'tuple':
            a, b = list(a), list(b)
        a, b = self.plain(a), self.plain(b)
        self.expect(a == b, 'reading:' + what, expected=b, observed=a)

    def consumed(self, a):
        if type(a) is list:
            return any(self.consumed(x) for x in a)
        return type(a) is Proxy and hasattr(type(getObject(a)), '__next__')

    def mutate(self, tid, o):
        """The application changes one of its own objects."""
        self.muted = True
        try:
            n = o['h'] % len(self.objs)
            x = self.objs[n]
            t = type(x)
            v = self.ref(o['v'])
            try:
                if t is list:
                    if o['how'] == 'grow' or not x:
                        x.append(v)
                    elif o['how'] == 'shrink':
                        x.pop()
                    else:
                        x.clear()
                elif t is dict:
                    if o['how'] == 'grow':
                        x['n%d' % len(x)] = v
                    elif x and o['how'] == 'shrink':
                        x.popitem()
                    else:
                        x.clear()
                elif t is set:
                    if o['how'] == 'grow':
                        x.add('n%d' % len(x))
                    else:
                        x.clear()
                else:
                    return 'no'
            finally:
                self.shadow[n] = self.state(n)
        finally:
            self.muted = False
        return 'mutated'


KINDS = [('list', 6), ('dict', 6), ('set', 4), ('tuple', 4), ('frozenset', 2),
         ('keys', 2), ('values', 2), ('items', 2), ('oview', 1), ('iter', 2),
         ('itertools', 2), ('gen', 4), ('func', 3), ('method', 2),
         ('wrapper', 1), ('builtin', 1), ('class', 3), ('abc', 1),
         ('module', 3), ('decimal', 2), ('thing', 4), ('known', 2),
         ('weakref', 1), ('strsub', 1), ('intsub', 1), ('bytearray', 1),
         ('proxy', 1), ('deque', 1), ('odict', 1.5), ('listsub', 1),
         ('dictsub', 1)]


def gen_ref(rng, n):
    if n and rng.random() < .6:
        return rng.randrange(n)
    return rng.choice(sorted(BASIC))


def gen_obj(rng, n, kinds):
    k = pick(rng, kinds)
    if k in ('list', 'dict', 'set', 'tuple', 'frozenset', 'deque', 'odict',
             'listsub', 'dictsub', 'gen'):
        return [k, [gen_ref(rng, n) for _ in range(rng.choice([0, 1, 2, 3,
                                                               4]))]]
    if k == 'itertools':
        return [k, [rng.randrange(99), rng.choice(sorted(ITERTOOLS))]]
    if k == 'module':
        return [k, [gen_ref(rng, n), rng.random() < .5]]
    if k == 'decimal':
        return [k, [rng.choice(['1.50', '-3', '0', '2E+3', '16'])]]
    if k in ('func', 'class', 'abc', 'weakref', 'oview'):
        return [k, [gen_ref(rng, n)]]
    return [k, [rng.randrange(99)]]


def gen_arg(rng, depth=0):
    k = pick(rng, [('h', 5), ('b', 3), ('l', 1.5), ('s', 1), ('d', .7),
                   ('i', 3), ('k', 2), ('dec', .5)])
    if depth > 1 and k in 'ld':
        k = 'i'
    if k == 'h':
        return ['h', rng.randrange(64)]
    if k == 'b':
        return ['b', rng.choice(sorted(BASIC))]
    if k == 'l':
        return ['l', [gen_arg(rng, depth + 1) for _ in range(2)]]
    if k == 'd':
        return ['d', gen_arg(rng, depth + 1)]
    if k == 'i':
        return ['i', rng.choice([0, 1, -1, 2, 7])]
    if k == 'k':
        return ['k', rng.randrange(4)]
    if k == 'dec':
        return ['dec', rng.choice(['1', '2.5', '-1', '0'])]
    return [k]


def generate(rng, profile):
    nt = pick(rng, [(1, 5), (2, 2), (3, 1)])
    case = sched_params(rng, nt)
    kinds = [kw for kw in KINDS if rng.random() < .7] or KINDS
    case['objs'] = []
    for n in range(rng.choice([3, 6, 10])):
        case['objs'].append(gen_obj(rng, n, kinds))
    faults = rng.random() < .4
    slots = [n for n in sorted(OPS) if n not in ('complex', 'range', 'hex')]
    case['threads'] = []
    for _ in range(nt):
        th = {'roots': [rng.randrange(99) for _ in range(
            rng.choice([1, 2, 4]))], 'ops': []}
        for _ in range(rng.choice([6, 15, 30])):
            k = pick(rng, [('slot', 4), ('good', 9), ('get', 4), ('set', 1.5),
                           ('del', 1), ('meth', 6), ('collect', 4),
                           ('try', 3), ('mutate', 1)])
            o = {'o': k, 'h': rng.randrange(64)}
            if k == 'mutate':
                o['how'] = rng.choice(['grow', 'grow', 'shrink', 'clear'])
                o['v'] = gen_ref(rng, len(case['objs']))
                th['ops'].append(o)
                continue
            o['a'] = [gen_arg(rng) for _ in range(2)]
            if k == 'slot':
                o['n'] = rng.choice(slots)
            elif k == 'good':
                o['i'] = rng.randrange(999)
            elif k in ('get', 'set', 'del'):
                o['n'] = rng.choice(ANYTHING + MUTATORS)
            elif k == 'meth':
                o['n'] = '*' if rng.random() < .65 else rng.choice(
                    MUTATORS + ANYTHING)
                o['i'] = rng.randrange(64)
                o['k'] = rng.choice([0, 1, 1, 2])
            elif k == 'collect':
                o['n'] = rng.choice(sorted(COLLECT))
            else:
                o['n'] = rng.choice(sorted(TRY))
            if faults and rng.random() < .25:
                kind = pick(rng, [('eq', 3), ('hash', 2), ('text', 1),
                                  ('call', 2), ('lt', 1), ('line', 3)])
                o['f'] = [kind, rng.randrange(10) if kind == 'line'
                          else rng.choice([0, 0, 1]),
                          rng.choice(LINE_EXC if kind == 'line'
                                     else BASE_EXC)]
            th['ops'].append(o)
        case['threads'].append(th)
    return case


def execute(case, schedule=None):
    return World(case, schedule).go()
