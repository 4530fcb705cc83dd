"""The operations of the data model, as untrusted code performs them."""
import math
import operator

try:
    import _testcapi
except ImportError:
    _testcapi = None

from probe import BIN, CMP, INPLACE

OPS = {}


def op(name, arity=0):
    def deco(f):
        OPS[name] = (f, arity)
        return f
    return deco


for _n in BIN:
    _f = divmod if _n == 'divmod' else getattr(
        operator, _n + '_' if _n in ('and', 'or') else _n)
    OPS['bin:' + _n] = (_f, 1)
    OPS['rbin:' + _n] = ((lambda f: lambda x, a: f(a, x))(_f), 1)
for _n in INPLACE:
    OPS['inp:' + _n] = (getattr(operator, '__i%s__' % _n), 1)
for _n in CMP:
    OPS['cmp:' + _n] = (getattr(operator, _n), 1)
    OPS['rcmp:' + _n] = ((lambda f: lambda x, a: f(a, x))(
        getattr(operator, _n)), 1)
OPS['bin:pow'] = (pow, 1)
OPS['rbin:pow'] = (lambda x, a: pow(a, x), 1)
OPS['pow3'] = (lambda x, a, b: pow(x, a, b), 2)
OPS['matmul'] = (operator.matmul, 1)
for _n, _f in (('neg', operator.neg), ('pos', operator.pos), ('abs', abs),
               ('invert', operator.invert), ('int', int), ('float', float),
               ('complex', complex), ('index', operator.index),
               ('bool', bool), ('hash', hash), ('len', len), ('str', str),
               ('repr', repr), ('iter', iter), ('next', next),
               ('hint', operator.length_hint), ('list', list),
               ('hintd', lambda x: type(x).__length_hint__(x)),
               ('tuple', tuple), ('not', operator.not_),
               ('format', format), ('bytes', bytes), ('round', round),
               ('floor', math.floor), ('hex', hex)):
    OPS[_n] = (_f, 0)
OPS['call0'] = (lambda x: x(), 0)
OPS['call1'] = (lambda x, a: x(a), 1)
OPS['call2'] = (lambda x, a, b: x(a, b), 2)
OPS['callk'] = (lambda x, a: x(a, key=a), 1)
OPS['callself'] = (lambda x, a: x(self=a), 1)
OPS['item'] = (lambda x, a: x[a], 1)
OPS['setitem'] = (operator.setitem, 2)
OPS['delitem'] = (operator.delitem, 1)
OPS['slice'] = (lambda x, a: x[1:a], 1)
OPS['contains'] = (lambda x, a: a in x, 1)
OPS['rcontains'] = (lambda x, a: x in [a], 1)
OPS['reversed'] = (lambda x: list(reversed(x)), 0)
OPS['fstr'] = (lambda x: f'<{x}>', 0)
OPS['fstrr'] = (lambda x: f'<{x!r}>', 0)
OPS['pct'] = (lambda x: '%s' % (x,), 0)
OPS['range'] = (lambda x: list(range(x)), 0)
OPS['index_of'] = (lambda x: [7, 8, 9][x], 0)
OPS['unpack2'] = (lambda x: (lambda a, b: [a, b])(*x), 0)
OPS['min'] = (lambda x, a: min([x, a]), 1)
OPS['sorted2'] = (lambda x, a: sorted([x, a]), 1)
OPS['sum'] = (lambda x: sum(x, 0), 0)
OPS['any'] = (lambda x: any(x), 0)
OPS['ident'] = (lambda x: x, 0)
OPS['concat'] = (operator.concat, 1)
OPS['iconcat'] = (operator.iconcat, 1)


def _with(x):
    with x:
        return 1


OPS['with'] = (_with, 0)


def _for(x):
    out = []
    for i in x:
        out.append(i)
        if len(out) > 5:
            break
    return out


OPS['for'] = (_for, 0)
if _testcapi is not None and hasattr(_testcapi, 'sequence_setitem'):
    OPS['sq_set'] = (lambda x, a: _testcapi.sequence_setitem(x, 1, a), 1)
    OPS['sq_del'] = (lambda x: _testcapi.sequence_delitem(x, 1), 0)
# operations taking an attribute name
NAMED = {
    'get': lambda x, n: getattr(x, n),
    'get_default': lambda x, n: getattr(x, n, 'dflt'),
    'hasattr': lambda x, n: hasattr(x, n),
    'set': lambda x, n, v: setattr(x, n, v),
    'del': lambda x, n: delattr(x, n),
    'method': lambda x, n: getattr(x, n)(),
    'method1': lambda x, n, v: getattr(x, n)(v),
}
# the special-method name under which an operation is checked
CHECKNAME = {}
for _n in BIN + ['pow']:
    CHECKNAME['bin:' + _n] = '__%s__' % _n
    CHECKNAME['rbin:' + _n] = '__r%s__' % _n
for _n in INPLACE:
    CHECKNAME['inp:' + _n] = '__i%s__' % _n
for _n in ('neg', 'pos', 'abs', 'invert', 'int', 'float', 'complex', 'index',
           'len', 'str', 'repr', 'iter', 'next'):
    CHECKNAME[_n] = '__%s__' % _n
CHECKNAME.update({
    'pow3': '__pow__', 'list': '__iter__', 'tuple': '__iter__',
    'format': '__str__', 'call0': '__call__', 'call1': '__call__',
    'call2': '__call__', 'callk': '__call__', 'callself': '__call__', 'item': '__getitem__',
    'slice': '__getitem__', 'setitem': '__setitem__',
    'delitem': '__delitem__', 'contains': '__contains__',
    'reversed': '__getitem__', 'fstr': '__str__', 'fstrr': '__repr__',
    'range': '__index__', 'index_of': '__index__', 'unpack2': '__iter__',
    'for': '__iter__', 'sum': '__iter__', 'any': '__iter__',
    'sq_set': '__setitem__', 'sq_del': '__delitem__', 'hex': '__index__',
    'bytes': '__index__', 'floor': '__float__', 'concat': '__add__',
    'iconcat': '__iadd__'})
UNCHECKED = {'bool', 'hash', 'hint', 'hintd', 'not', 'ident'} | {
    'cmp:' + n for n in CMP} | {'rcmp:' + n for n in CMP}
MAIN_OPS = [o for o in CHECKNAME]
ODD_OPS = ['matmul', 'round', 'with', 'rcontains', 'min', 'sorted2', 'pct',
           'complex']
ATTRS = ['alpha', 'beta', 'gamma', 'delta', '_under', '__dunder',
         '__len__', '__add__', '__getitem__', '__call__', '__str__',
         '__int__', '__name__', 'naïve', 'x' * 60, '__class__']
