"""Probe objects: every way of touching one is recorded, and is a point at
which the simulator may switch threads or inject a failure."""

BIN = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'divmod', 'lshift',
       'rshift', 'and', 'xor', 'or']
INPLACE = ['add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'lshift',
           'rshift', 'and', 'xor', 'or', 'pow']
CMP = ['lt', 'le', 'eq', 'ne', 'gt', 'ge']
UNARY = ['neg', 'pos', 'abs', 'invert']
CONV = ['int', 'float', 'complex', 'index']
METHODS = (
    ['__%s__' % n for n in UNARY + CONV + CMP]
    + ['__%s__' % n for n in BIN] + ['__r%s__' % n for n in BIN]
    + ['__pow__', '__rpow__', '__matmul__', '__rmatmul__']
    + ['__i%s__' % n for n in INPLACE]
    + ['__call__', '__len__', '__getitem__', '__setitem__', '__delitem__',
       '__contains__', '__iter__', '__next__', '__bool__', '__hash__',
       '__str__', '__repr__', '__length_hint__'])
# read by the machinery at any time without saying anything about access
SILENT = frozenset([
    '__class__', '__module__', '__name__', '__doc__', '__iter__',
    '__providedBy__', '__provides__', '__implemented__', '__conform__',
    '__qualname__', '__next__', '__Security_checker__', '__dict__', '__slots__'])

_oget = object.__getattribute__
_oset = object.__setattr__


class State:
    """What the probe needs; kept out of reach of attribute access."""
    __slots__ = ('name', 'beh', 'own', 'store')

    def __init__(self, name, beh, own):
        self.name = name
        self.beh = beh
        self.own = own
        self.store = {}


class Current:
    world = None


CUR = Current()


def st(probe):
    return _oget(probe, '_st')


def _mk(name):
    def method(self, *args, **kw):
        if kw:
            args = args + (kw,)
        return CUR.world.touch(self, name, args)
    method.__name__ = name
    method.__qualname__ = 'Probe.' + name
    return method


class ProbeBase:
    __slots__ = ('_st', '__weakref__')

    def __init__(self, state):
        if type(state) is not State:
            raise TypeError('not by way of a proxied class')
        _oset(self, '_st', state)

    def __getattribute__(self, name):
        if name in SILENT:
            if name == '__Security_checker__':
                return CUR.world.own_checker(self)
            if name == '__iter__':
                CUR.world.iter_asked()
            return _oget(self, name)
        return CUR.world.get(self, name)

    def __setattr__(self, name, value):
        CUR.world.touch(self, '__setattr__', (name, value))

    def __delattr__(self, name):
        CUR.world.touch(self, '__delattr__', (name,))


class ProbeException(Exception):
    __slots__ = ('_st', '__weakref__')
    __init__ = ProbeBase.__init__
    __getattribute__ = ProbeBase.__getattribute__
    __setattr__ = ProbeBase.__setattr__
    __delattr__ = ProbeBase.__delattr__


NPLAIN = 12
# not every object has every method, and some protocols fall back to others
LACKS = {
    1: ['__iter__'],
    3: ['__iter__', '__contains__', '__len__', '__bool__'],
    5: ['__iter__', '__getitem__'] + ['__i%s__' % n for n in INPLACE],
    6: ['__contains__', '__len__', '__int__', '__float__'],
    8: ['__float__', '__neg__'],
    10: ['__int__', '__index__', '__complex__'],
    7: ['__iter__', '__bool__'],
    9: ['__contains__', '__bool__'] + ['__r%s__' % n for n in BIN],
}


def probe_class(i):
    ns = {'__slots__': (), '__module__': 'simworld'}
    for n in METHODS:
        if n not in LACKS.get(i % NPLAIN, ()):
            ns[n] = _mk(n)
    return type('K%d' % i, (ProbeBase if i < NPLAIN else ProbeException,),
                ns)


# the second half are exceptions
CLASSES = [probe_class(i) for i in range(2 * NPLAIN)]
KINDEX = {c: i for i, c in enumerate(CLASSES)}


def is_probe(x):
    return type(x) in KINDEX
