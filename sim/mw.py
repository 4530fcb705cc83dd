"""The mediation world: programs of untrusted code over proxied objects,
run against zope.security and against the reference model."""
import random
import types

import boot
from kernel import HarnessError
from kernel import Kernel
from ops import (ATTRS, CHECKNAME, MAIN_OPS, NAMED, ODD_OPS, OPS, UNCHECKED)
from probe import CLASSES, CMP, CUR, KINDEX, METHODS, NPLAIN, st
from world import (ADDR, ANSWERS, AVAILABLE, D_BASIC, D_TABLE, EXCS, PERMS, SUBS,
                   CheckerPublic, ProxyType, RefChecker, SutMethodChecker,
                   SutSideChecker, SutSlotChecker, World, getChecker, getObject, zchecker,
                   zmanagement)
from zope.security import interfaces as zinterfaces

ATTRERR = ('AttributeError',)


class Shifty(str):
    """A name that is one name first and another one later."""

    def __new__(cls, name, k, first, then):
        self = str.__new__(cls, name)
        self.left = k
        self.both = first, then
        return self

    def __hash__(self):
        self.left -= 1
        return hash(self.both[self.left < 0])

    def __eq__(self, other):
        return not self.left or str.__eq__(
            self.both[self.left < 0], other) is True

    def __ne__(self, other):
        return not self == other


class SimParticipation:
    def __init__(self, label):
        self.label = label
        self.interaction = None


class SimInteraction:
    """What the policy of the simulated application makes."""

    def __init__(self, *participations):
        self.participations = list(participations)
        self.label = participations[0].label
        for p in participations:
            p.interaction = self

    def checkPermission(self, permission, object):
        return CUR.world.answer(self.label, permission, object)

    # one of each thread's looks like none

    def __len__(self):
        return self.label[-1] == '0'

    def __eq__(self, other):
        return self is other or other is None and not self

    def __hash__(self):
        return 1


class False_:
    """A checker may be a container, and an empty one."""

    def __bool__(self):
        return False


# class, is its truth false? -> class
PLAIN_FALSE = {(c, f): type('False' + c.__name__, (False_, c), {})
               if f else c for f in (False, True) for c in (
                   SutMethodChecker, SutSlotChecker, zchecker.Checker,
                   zchecker.CombinedChecker)}


class MW(World):

    def __init__(self, case, kernel, mode, variant=(False, False, False)):
        super().__init__(case, kernel, mode, variant)
        self.grants = {k: dict(v) for k, v in case['grants'].items()}
        self.reg = {}
        self.roots = {}
        self.defined = []
        self.interactions = {}

    # -- set-up ---------------------------------------------------------

    def perm(self, p):
        if p == 'PUB':
            return CheckerPublic
        if p is None:
            return None
        return PERMS[p]

    def build(self):
        case = self.case
        for label, spec in case['checkers'].items():
            c = self.make_checker(label, spec)
            self.checkers[label] = c
            self.labels[id(c)] = label
        for name, spec in case['objs'].items():
            self.objs[name] = self.new_probe(name, spec['cls'], spec['beh'],
                                             spec.get('own'))
        for idx, spec in case['registry'].items():
            self.define(int(idx), spec)
        for name, (obj, label, how) in case['roots'].items():
            self.roots[name] = self.make_root(obj, label, how)

    def make_checker(self, label, spec):
        kind = spec['kind']
        if self.mode == 'ref':
            if kind in ('method', 'slot'):
                return RefChecker(self, label, kind, spec=spec)
            if kind == 'combined':
                a, b = spec['sides']
                return RefChecker(self, label, kind,
                                  get=self.checkers[a].get,
                                  set=self.checkers[a].set,
                                  second=self.checkers[b])
            return RefChecker(self, label, 'plain', dict(spec['get']),
                              dict(spec['set']))
        false = bool(spec.get('false'))
        if kind == 'method':
            return PLAIN_FALSE[SutMethodChecker, false](self, label, spec)
        if kind == 'slot':
            return PLAIN_FALSE[SutSlotChecker, false](self, label, spec)
        if kind == 'combined':
            a, b = spec['sides']
            sb = self.case['checkers'][b]
            second = self.checkers[b]
            if sb['kind'] == 'method':
                second = SutSideChecker(self, b, sb)
            return PLAIN_FALSE[zchecker.CombinedChecker, false](
                self.checkers[a], second)
        get = {n: self.perm(p) for n, p in spec['get'].items()}
        make = PLAIN_FALSE[zchecker.Checker, false]
        if spec.get('noset') and not spec['set']:
            return make(get)
        return make(
            get, {n: self.perm(p) for n, p in spec['set'].items()})

    def define(self, idx, spec):
        cls = CLASSES[idx]
        if self.mode == 'ref':
            if cls in self.reg:
                raise zchecker.DuplicationError(cls)
            self.reg[cls] = spec
            return
        zchecker.defineChecker(cls, self.sut_registered(spec))
        self.defined.append(cls)

    def undefine(self, idx):
        cls = CLASSES[idx]
        if self.mode == 'ref':
            del self.reg[cls]
            return
        zchecker.undefineChecker(cls)

    def sut_registered(self, spec):
        if spec[0] == 'checker':
            return self.checkers[spec[1]]
        if spec[0] == 'noproxy':
            return zchecker.NoProxy
        if spec[0] == 'factory':
            def factory(ob):
                self.ev('f', spec[1], self.canon(ob))
                if spec[2][0] == 'none':
                    return None
                return self.sut_registered(spec[2])
            return factory
        raise HarnessError(spec)

    def teardown(self):
        for cls in self.defined:
            try:
                zchecker.undefineChecker(cls)
            except KeyError:
                pass
        self.defined = []

    def make_root(self, obj, label, how):
        raw = self.objs[obj]
        if self.mode == 'ref':
            if label is None:
                return self.ref_factory(raw)
            return self.Ref(raw, self.checkers[label])
        if label is None:
            return zchecker.ProxyFactory(raw)
        if how == 'factory':
            return zchecker.ProxyFactory(raw, self.checkers[label])
        return ProxyType(raw, self.checkers[label])

    def proxied(self, name):
        return self.roots[name]

    # -- reference model of wrapping ------------------------------------

    def ref_factory(self, value):
        t = type(value)
        if t is self.Ref:
            return value
        if t in KINDEX:
            try:
                own = self.own_checker(value)
            except AttributeError:
                own = None
            if own is not None:
                return self.Ref(value, own)
            c = self.ref_select(value)
            if c is None:
                return value
            return self.Ref(value, c)
        if t in D_BASIC:
            return value
        if value is CheckerPublic:
            return value
        return self.Ref(value, self.builtin_checker(t))

    def builtin_checker(self, t):
        names = D_TABLE.get(t, ())
        if isinstance(t, type) and issubclass(t, type):
            names = TYPE_NAMES
        return RefChecker(self, 'D', 'plain', {n: 'PUB' for n in names}, {},
                          quiet=not boot.PURE and not names)

    def ref_select(self, value):
        spec = self.reg.get(type(value))
        if spec is None:
            if not boot.PURE and isinstance(value, Exception):
                return None     # the C implementation lets them pass
            return RefChecker(self, 'default', 'plain', {}, {},
                              quiet=not boot.PURE)
        while True:
            if spec[0] == 'checker':
                return self.checkers[spec[1]]
            if spec[0] in ('noproxy', 'none'):
                return None
            self.ev('f', spec[1], self.canon(value))
            spec = spec[2]

    def ask(self, perm, ob):
        label = self.cur.get(self.tid_)
        if label is None:
            raise AttributeError('interaction')
        return self.answer(label, perm, ob)

    # -- operations -----------------------------------------------------

    def operand(self, handles, a):
        k = a[0]
        if k in ('i', 's', 'f', 'b'):
            return a[1]
        if k == 'n':
            return None
        if k == 'h':
            return handles[a[1] % len(handles)]
        if k == 'raw':
            return self.objs[a[1]]
        if k == 'sl':
            return slice(a[1], a[2])
        if k == 'l':
            return [self.operand(handles, x) for x in a[1]]
        if k == 'c':
            return complex(1, 2)
        raise HarnessError(a)

    def do(self, handles, o):
        name = o['o']
        if name in OPS:
            x = handles[o['h'] % len(handles)]
            args = [self.operand(handles, a) for a in o['a']]
            return OPS[name][0](x, *args[:OPS[name][1]])
        if name == 'pow3m':
            return self.pow3m(handles[o['h'] % len(handles)],
                              *[self.operand(handles, a) for a in o['a']])
        if name in NAMED:
            x = handles[o['h'] % len(handles)]
            args = [self.operand(handles, a) for a in o['a'][1:]]
            n = o['a'][0]
            if n[:2] == '__' and n != '__dunder' and not self.on_probe(x):
                return 'skipped'
            if o.get('ev') and type(x) is ProxyType:
                n = Shifty(n, *o['ev'])
            if name in ('set', 'method1'):
                return NAMED[name](x, n, args[0])
            return NAMED[name](x, n)
        return getattr(self, 'op_' + name)(handles, o)

    def pow3m(self, x, a, b):
        """pow(a, b, x), for plain b"""
        if type(x) is not self.Ref:
            return pow(a, b, x)
        if type(a) in KINDEX:
            r = type(a).__pow__(a, b, x)
            if r is not NotImplemented:
                return r
        if boot.PURE:
            raise TypeError
        c = self.ref_c(x)
        c.check('check', self.ref_o(x), '__3pow__')
        return c.wrap(pow(a, b, self.ref_o(x)))

    # trusted operations: interactions, grants, declarations

    def op_new(self, handles, o):
        label = o['a'][0]
        tid = self.tid()
        if self.mode == 'ref':
            if self.cur.get(tid) is not None:
                raise zmanagement.ExistingInteraction
            self.cur[tid] = label
            return None
        zmanagement.newInteraction(SimParticipation(label))

    def op_end(self, handles, o):
        if self.mode == 'ref':
            tid = self.tid()
            self.prev[tid] = self.cur.get(tid)
            self.cur[tid] = None
            return None
        zmanagement.endInteraction()

    def op_restore(self, handles, o):
        if self.mode == 'ref':
            tid = self.tid()
            self.cur[tid] = self.prev.get(tid)
            return None
        zmanagement.restoreInteraction()

    def op_query(self, handles, o):
        if self.mode == 'ref':
            return self.cur.get(self.tid()) or 'none'
        i = zmanagement.queryInteraction()
        try:
            j = zmanagement.getInteraction()
        except zmanagement.NoInteraction:
            j = None
        if i is not j:
            return 'query and get disagree'
        return 'none' if i is None else i.label

    def op_grant(self, handles, o):
        label, perm, ans = o['a']
        self.grants[label][perm] = ans

    def op_declare(self, handles, o):
        label, which, name, perm = o['a']
        c = self.checkers[label]
        if self.mode == 'ref':
            d = c.get if which == 'get' else c.set
            if perm == 'DEL':
                d.pop(name, None)
            else:
                d[name] = perm
            return
        d = c.get_permissions if which == 'get' else c.set_permissions
        if perm == 'DEL':
            d.pop(name, None)
        else:
            d[name] = self.perm(perm)

    def op_define(self, handles, o):
        self.define(o['a'][0], o['a'][1])

    def op_undefine(self, handles, o):
        self.undefine(o['a'][0])

    def op_wrap(self, handles, o):
        """Trusted code wraps one of its objects."""
        raw = self.objs[o['a'][0]]
        if self.mode == 'ref':
            return self.ref_factory(raw)
        return zchecker.ProxyFactory(raw)

    def op_rewrap(self, handles, o):
        x = handles[o['h'] % len(handles)]
        label = o['a'][0]
        if self.mode == 'ref':
            if type(x) is self.Ref:
                if label is None or self.ref_c(x) is self.checkers[label]:
                    return x
                raise TypeError
            if label is None:
                return self.ref_factory(x)
            return self.Ref(x, self.checkers[label])
        if label is None:
            return zchecker.ProxyFactory(x)
        return zchecker.ProxyFactory(x, self.checkers[label])

    def op_can(self, handles, o):
        """canAccess / canWrite: asked for a proxy by trusted code."""
        x = handles[o['h'] % len(handles)]
        which, name = o['a'][:2]
        if len(o['a']) > 2:
            x = self.objs[o['a'][2]]
        if self.mode == 'ref':
            if type(x) in KINDEX:
                x = self.ref_factory(x)
            if type(x) is not self.Ref:
                return 'raw'
            c = self.ref_c(x)
            from zope.security.interfaces import ForbiddenAttribute
            from zope.security.interfaces import Unauthorized
            if which == 'access':
                try:
                    c.check('getattr', x, name)
                except Unauthorized:
                    return False
                return True
            try:
                c.check('setattr', x, name)
            except Unauthorized:
                return False
            except ForbiddenAttribute:
                try:
                    c.check('getattr', x, name)
                except Unauthorized:
                    pass
                return False
            return True
        if type(x) is not ProxyType and type(x) not in KINDEX:
            return 'raw'
        f = zchecker.canAccess if which == 'access' else zchecker.canWrite
        try:
            return f(x, name)
        except TypeError as e:
            if type(x) is ProxyType or e.args == ('injected',):
                raise
            if not boot.WATCH:
                return 'raw'
            # it needs no proxy, and so has no checker to ask
            tid = self.tid()
            was = self.muted.get(tid)
            self.muted[tid] = True
            try:
                if type(zchecker.ProxyFactory(x)) is ProxyType:
                    raise
            finally:
                self.muted[tid] = was
            return 'raw'

    def op_ask(self, handles, o):
        """A permission is checked directly."""
        perm, given = o['a'][:2]
        x = handles[o['h'] % len(handles)]
        if len(o['a']) > 2:
            x = self.objs[o['a'][2]]
        if self.mode == 'ref':
            if perm is None or perm == 'PUB':
                return 'True'
            label = given or self.cur.get(self.tid())
            if label is None:
                raise zmanagement.NoInteraction
            r = self.answer(label, PERMS[perm], x)
        else:
            args = (self.perm(perm), x)
            if given:
                args += SimInteraction(SimParticipation(given)),
            r = zmanagement.checkPermission(*args)
        if type(r).__name__ == 'BoolBomb':
            return 'bomb'
        for k, v in ANSWERS.items():
            if v is r:
                return k
        return 'another answer'

    def op_steal(self, handles, o):
        """Untrusted code tries to get around the proxy."""
        x = handles[o['h'] % len(handles)]
        how = o['a'][0]
        if self.mode == 'ref' or type(x) is not ProxyType:
            return 'kept'
        ob = getObject(x)
        ch = getChecker(x)
        tid = self.tid()
        was = self.muted.get(tid)
        self.muted[tid] = True
        try:
            try:
                got = STEAL[how](x)
            except BaseException:
                got = None
            if getObject(x) is not ob or getChecker(x) is not ch:
                return 'REPLACED by %s' % how
            spec = self.case['checkers'].get(self.labels.get(id(ch)))
            if got is not None and (got is ob or got is ch) and (
                    spec is None or spec['kind'] == 'plain'):
                return 'LEAKED by %s' % how
        finally:
            self.muted[tid] = was
        return 'kept'

    # -- running --------------------------------------------------------

    def on_probe(self, x):
        """Special names of built-in values are left to other worlds."""
        if type(x) is ProxyType:
            x = getObject(x)
        elif type(x) is self.Ref:
            x = self.ref_o(x)
        return type(x) in KINDEX

    def run_thread(self, tid, trace):
        th = self.case['threads'][tid]
        handles = [self.roots[r] for r in th['roots']]
        canon0 = [self.canon(h) for h in handles]
        for n, o in enumerate(th['ops']):
            self.events[tid] = evs = []
            f = o.get('f')
            line = f and f[0] == 'line'
            self.faults[tid] = list(f) if f and not line else None
            res = None
            ok = False
            if line and self.mode == 'ref' and self.skip:
                self.events[tid] = None
                trace.append(('skipped', None))
                continue
            if line and self.mode == 'sut':
                task = self.kernel.tasks[tid]
                task.fired = False
                task.interrupt = EXCS[f[2]]('injected')
                task.countdown = f[1]
                task.traced = True
            try:
                res = self.do(handles, o)
                ok = True
            except HarnessError:
                raise
            except BaseException as e:
                if line and self.mode == 'sut':
                    task.traced = False
                out = self.describe(e)
                if out == ('exc', 'AttributeError') and o['o'] in NEXTING:
                    out = ('exc', 'TypeError')
                e.__traceback__ = None
                del e
            if line and self.mode == 'sut':
                task.traced = False
                task.countdown = task.interrupt = None
                if task.fired:
                    self.interrupted.add((tid, n))
                    key = 'line:' + f[2]
                    self.fired[key] = self.fired.get(key, 0) + 1
            self.faults[tid] = None
            self.events[tid] = None
            drop = (tid, n) in self.interrupted
            if ok:
                out = ('ret', self.canon(res))
                if o['o'] in ('str', 'repr', 'format', 'fstr', 'fstrr',
                              'pct'):
                    out = ('ret', addr_free(out[1]))
                elif o['o'] == 'hash' and not self.on_probe(
                        handles[o['h'] % len(handles)]):
                    res = 'hash'
                    out = ('ret', 'hash')
                if not drop and len(handles) < 40 and (
                        abs(res) < 100 if type(res) is int
                        else type(res) not in D_BASIC):
                    handles.append(res)
                    canon0.append(self.canon(res))
            trace.append((tuple(evs), out))
            if self.mode == 'sut':
                self.kernel.point('op')
        trace.append((('end',), tuple(self.canon(h) == c or ('REBOUND', c)
                                      for h, c in zip(handles, canon0)
                                      if c[0] == 'P')))

    def describe(self, e):
        name = type(e).__name__
        if name in ('Unauthorized', 'ForbiddenAttribute'):
            if self.mode == 'sut' and tuple(
                    isinstance(e, c) for c in (
                        zinterfaces.Forbidden, AttributeError,
                        zinterfaces.Unauthorized, LookupError)) != (
                            KIND_OF[name]):
                name += ' of another kind'
            return ('exc', name, tuple(self.canon(a) for a in e.args))
        if e.args and type(e.args[0]) is str \
                and e.args[0] in ('injected', 'custom', 'from probe') \
                and name not in ('AttributeError', 'TypeError'):
            return ('exc', name, e.args[0])
        return ('exc', name)


# what the callers that handle refusals see them as
KIND_OF = {'ForbiddenAttribute': (True, True, False, False),
           'Unauthorized': (False, False, True, False)}

# what calls __next__ of something that may have none
NEXTING = frozenset(['next', 'for', 'list', 'tuple', 'sum', 'any', 'unpack2',
                     'rcontains', 'sorted2', 'min', 'contains'])
ITERATING = frozenset(['iter', 'for', 'list', 'tuple', 'sum', 'any', 'unpack2',
                       'rcontains', 'sorted2'])
INTERRUPTIBLE = frozenset(MAIN_OPS) | frozenset(ODD_OPS) | frozenset(
    UNCHECKED) | {'get', 'set', 'del', 'method', 'method1', 'hasattr',
                  'get_default', 'can'}
TYPE_NAMES = ('__str__', '__name__', '__module__', '__bases__', '__mro__',
              '__implemented__')


def addr_free(s):
    return ADDR.sub('0x0', s) if isinstance(s, str) else s


def _inner(x):
    def f(self):
        return self._wrapped
    return f(x)


def _inner2(x):
    def f(self):
        return self._checker
    return f(x)


class _Evil:
    def __init__(self, x):
        self.x = x


def _evil_gen(x):
    self = x
    yield self._wrapped


_pub = zchecker.NamesChecker(['alpha', '__call__', '__getitem__'])

STEAL = {
    'wrapped': lambda x: x._wrapped,
    'checker': lambda x: x._checker,
    'self': _inner,
    'self2': _inner2,
    'gen': lambda x: next(_evil_gen(x)),
    'setw': lambda x: setattr(x, '_wrapped', 5),
    'setc': lambda x: setattr(x, '_checker', _pub),
    'delw': lambda x: delattr(x, '_wrapped'),
    'delc': lambda x: delattr(x, '_checker'),
    'dict': lambda x: x.__dict__,
    'vars': lambda x: vars(x),
    'getobj': lambda x: x.proxy_object,
    'slots': lambda x: x.__slots__,
    'setclass': lambda x: setattr(x, '__class__', object),
    'init': lambda x: x.__init__(5, _pub),
    'self_attr': lambda x: x.__self__,
    'reduce': lambda x: x.__reduce__(),
    'getattribute': lambda x: x.__getattribute__('_wrapped'),
}
if not boot.PURE:
    STEAL['ogetw'] = lambda x: object.__getattribute__(x, '_wrapped')
    STEAL['ogeta'] = lambda x: object.__getattribute__(x, 'alpha')
    STEAL['tinit'] = lambda x: type(x).__init__(x, 5, _pub)
    STEAL['osetw'] = lambda x: object.__setattr__(x, '_wrapped', 5)


# ---------------------------------------------------------------------------
# Running one case on both sides


def run_sut(case, schedule=None):
    k = Kernel(case['sched'], p_switch=case.get('p_switch', 0.3),
               schedule=schedule, traced=case.get('traced', False),
               opcodes=case.get('opcodes', False))
    w = MW(case, k, 'sut')
    CUR.world = w
    old = zmanagement.setSecurityPolicy(SimInteraction)
    traces = [[] for _ in case['threads']]
    try:
        w.muted[-1] = True
        w.build()
        for tid in range(len(case['threads'])):
            k.spawn(lambda tid=tid: w.run_thread(tid, traces[tid]))
        k.run(case.get('lines'))
    finally:
        w.teardown()
        zmanagement.setSecurityPolicy(old)
        CUR.world = None
    return w, k, traces


def run_ref(case, variant, robust=0, interrupted=(), skip=False):
    w = MW(case, None, 'ref', variant)
    w.robust = robust
    w.interrupted = interrupted
    w.skip = skip
    CUR.world = w
    traces = [[] for _ in case['threads']]
    try:
        w.tid_ = -1
        w.muted[-1] = True
        w.build()
        for tid in range(len(case['threads'])):
            w.tid_ = tid
            w.run_thread(tid, traces[tid])
    finally:
        CUR.world = None
    return traces


VARIANTS = [(True, True, True), (True, True, False), (False, False, False),
            (True, False, True), (True, False, False), (False, True, True),
            (False, True, False), (False, False, True)]
if not boot.PURE:
    VARIANTS = [(False, False, False), (False, True, False)]


def norm_watch(case, traces):
    """What diagnostics that fail have said is of no interest."""
    out = []
    for th, tr in zip(case['threads'], traces):
        new = []
        for n, (evs, res) in enumerate(tr):
            if n < len(th['ops']) and fails_log(th['ops'][n], case):
                evs = tuple(e for e in evs if e[0] != 'l' and not (
                    e[0] == 't' and e[2] == '__repr__'))
            new.append((evs, res))
        out.append(new)
    return out


def fails_log(o, case):
    return o.get('f') or case.get('badrepr')


def compare(case, sut, refs):
    """First difference per thread: (tid, op index, sut entry, ref entry)."""
    for tid in range(len(case['threads'])):
        best = None
        for ref in refs:
            d = None
            for i, (a, b) in enumerate(zip(sut[tid], ref[tid])):
                if a != b:
                    d = (tid, i, a, b)
                    break
            else:
                if len(sut[tid]) != len(ref[tid]):
                    d = (tid, len(sut[tid]), None, None)
            if d is None:
                best = None
                break
            if best is None or d[1] > best[1]:
                best = d
        if best is not None:
            return best
    return None


def classify(case, d):
    """Which properties does a difference break?"""
    tid, i, a, b = d
    ops = case['threads'][tid]['ops']
    if i >= len(ops) or a is None:
        return {'C01', 'C02', 'C03', 'C16'}, 'handle-rebound'
    o = ops[i]
    name = o['o']
    (eva, outa), (evb, outb) = a, b
    tags = set()
    fault = bool(o.get('f'))
    if name == 'steal':
        return {'C01'}, 'steal:' + str(outa)
    if name in ('new', 'end', 'restore', 'query'):
        return {'C05', 'C06', 'C04'}, 'interaction:' + name
    if name in ('can', 'ask'):
        return {'C10'}, name
    if name in ('define', 'undefine', 'wrap', 'rewrap'):
        return {'C08', 'C02'}, 'registry:' + name

    def sel(ev, kinds):
        return [e for e in ev if e[0] in kinds]
    qa, qb = sel(eva, 'qkb'), sel(evb, 'qkb')
    ta, tb = sel(eva, 't'), sel(evb, 't')
    fx = sel(eva, 'fx') != sel(evb, 'fx')
    denied_b = outb[0] == 'exc' and outb[1] in ('Unauthorized',
                                                'ForbiddenAttribute')
    denied_a = outa[0] == 'exc' and outa[1] in ('Unauthorized',
                                                'ForbiddenAttribute')
    kind = []
    if sel(eva, 'l') != sel(evb, 'l'):
        kind.append('log')
    if qa != qb:
        tags |= {'C01', 'C04'}
        kind.append('checks')
        la = {e[1] for e in qa if e[0] == 'q'}
        lb = {e[1] for e in qb if e[0] == 'q'}
        if la != lb:
            tags.add('C05')
            kind.append('interaction')
    if denied_a != denied_b or (denied_a and outa != outb):
        tags |= {'C01', 'C04'}
        kind.append('decision')
    if ta != tb:
        if denied_b or (fault and len(ta) > len(tb)):
            tags |= {'C01', 'C03'}
            kind.append('touched')
        else:
            tags |= {'C16'}
            if len(ta) > len(tb):
                tags.add('C01')
            kind.append('touches')
    if fx:
        tags |= {'C02', 'C08'}
        kind.append('selection')
    if outa != outb and not kind:
        tags |= {'C16'}
        kind.append('outcome')
    if outa != outb and has_proxy(outa, outb):
        tags |= {'C02'}
        kind.append('wrapping')
    if list(eva) != list(evb) and not kind:
        tags |= {'C01', 'C16', 'C04'}
        kind.append('order')
    if outb[0] == 'exc' and not denied_b and not tb and (
            outa != outb or ta):
        # it failed before the object was reached
        tags |= {'C03'}
    if fault:
        tags |= {'C03'}
        kind.append('fault')
    if name in UNCHECKED:
        tags |= {'C16', 'C01'}
    return tags, '+'.join(kind) + ':' + name.split(':')[0]


def has_proxy(*outs):
    for o in outs:
        if isinstance(o, tuple):
            if o and o[0] in ('P', 'O', 'M', 'F', 'list', 'tuple', 'dict',
                              'T', '?'):
                return True
            if has_proxy(*o):
                return True
    return False


# ---------------------------------------------------------------------------
# Generation

# read as attributes; for comparisons, truth value and hash the Python
# implementation gives away its own methods
SPECIAL = [m for m in METHODS if m[2:-2] not in CMP
           and m not in ('__hash__', '__bool__')]
BASE_EXC = ['ValueError', 'KeyError', 'RuntimeError', 'MemoryError',
            'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'OSError',
            'Injected', 'InjectedBase', 'RecursionError', 'AssertionError',
            'ZeroDivisionError']
ODD_EXC = ['StopIteration', 'TypeError', 'AttributeError', 'Unauthorized',
           'ForbiddenAttribute', 'Forbidden', 'IndexError']


def pick(rng, pairs):
    total = sum(w for _, w in pairs)
    x = rng.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


class Gen:
    """Swarm-style generator: every run has its own mix."""

    def __init__(self, rng, profile):
        self.rng = rng
        self.p = profile

    def case(self):
        rng = self.rng
        p = self.p
        nt = pick(rng, p.get('threads', [(1, 6), (2, 3), (3, 1)]))
        self.nt = nt
        self.grant = rng.choice(p.get('grant', [0.2, 0.5, 0.8, 0.95]))
        self.pubshare = rng.choice([0.0, 0.3, 0.7])
        self.fault = rng.choice(p.get('fault', [0.0]))
        self.custom = rng.choice(p.get('custom', [0.0, 0.3, 0.7]))
        case = {'kind': 'mw', 'sched': rng.randrange(1 << 30),
                'p_switch': rng.choice([0.02, 0.15, 0.5]),
                'grants': {}, 'checkers': {}, 'objs': {}, 'registry': {},
                'roots': {}, 'threads': []}
        self.c = case
        if nt > 1 and p.get('traced', True) and rng.random() < 0.4:
            case['traced'] = True
            case['opcodes'] = rng.random() < 0.3
        self.focus = rng.sample(METHODS, rng.randrange(3, 14)) \
            if rng.random() < .6 else list(METHODS)
        # shared things: constant while the run lasts
        shared = self.zone('S', [0, 1], range(0))
        for t in range(nt):
            for n in range(2):
                case['grants']['I%d.%d' % (t, n)] = {
                    k: self.ans() for k in PERMS}
        zones = []
        for t in range(nt):
            zones.append(self.zone('T%d' % t, [2 + 2 * t, 3 + 2 * t],
                                   [0, 1], shared))
        nops = rng.choice(p.get('nops', [4, 10, 25]))
        for t in range(nt):
            z = zones[t]
            roots = z['roots'] + (shared['roots']
                                  if nt > 1 or rng.random() < .3 else [])
            if p.get('shared') and rng.random() < .5:
                roots = shared['roots'] + z['roots'][:1]
            ops = []
            if rng.random() < 0.95:
                ops.append({'o': 'new', 'h': 0, 'a': ['I%d.0' % t]})
            for _ in range(rng.randrange(1, nops + 1)):
                ops.append(self.op(t, z))
            case['threads'].append({'roots': roots, 'ops': ops})
            if p.get('interrupt'):
                self.interrupt(ops)
        return case

    def ans(self):
        rng = self.rng
        if self.p.get('bomb') and rng.random() < 0.02:
            return 'bomb'
        if rng.random() < self.grant:
            return rng.choice(['True', 'True', 'True', '1', 'str', 'list0',
                               'truthy'])
        return rng.choice(['False', 'False', 'False', '0', 'empty', 'list',
                           'None', 'falsy', '0.0', 'tuple'])

    def perm(self):
        rng = self.rng
        if rng.random() < self.pubshare:
            return 'PUB'
        return rng.choice(['p0', 'p1', 'p2', 'p3', 'p0', 'p1', 'p2', 'p3',
                           'zero', 'empty', 'false', 'obj', 'tup', 'zpub', 'zpub2',
                           'same'])

    def zone(self, tag, own, other, shared=None):
        """Objects, checkers and registrations of one thread (or shared)."""
        rng = self.rng
        case = self.c
        if rng.random() < .3:
            own = own + [own[0] + NPLAIN]
        z = {'tag': tag, 'classes': own, 'allowed': list(own) + list(other),
             'checkers': [], 'plain': [], 'objs': [], 'roots': []}
        for n in range(rng.randrange(1, 4)):
            label = '%s.c%d' % (tag, n)
            kind = 'plain'
            if rng.random() < self.custom:
                kind = rng.choice(['method', 'slot', 'method', 'combined'])
            if kind == 'combined' and len(z['checkers']) == 0:
                kind = 'plain'
            if kind == 'combined':
                a = [x for x in z['plain']]
                if not a:
                    kind = 'plain'
                else:
                    spec = {'kind': kind, 'sides': [
                        rng.choice(a), rng.choice(z['checkers'])]}
            if kind == 'plain':
                spec = {'kind': kind, 'get': {}, 'set': {}}
                for m in METHODS + ATTRS + ['__3pow__']:
                    if rng.random() < 0.8:
                        spec['get'][m] = self.perm()
                    elif rng.random() < 0.2:
                        spec['get'][m] = None
                for m in ATTRS:
                    if rng.random() < 0.7:
                        spec['set'][m] = self.perm()
                    elif rng.random() < 0.1:
                        spec['set'][m] = None
                if rng.random() < 0.15:
                    spec['set'] = {}
                    spec['noset'] = True
                z['plain'].append(label)
            elif kind in ('method', 'slot'):
                spec = {'kind': kind, 'get': {}, 'set': {},
                        'proxy': rng.choice(['same', 'std', 'std', 'raw']),
                        'default': rng.choice(['ok', 'ok', 'forbid',
                                               'unauth'])}
                for d in ('get', 'set'):
                    for m in METHODS + ATTRS:
                        if rng.random() < 0.3:
                            spec[d][m] = (
                                'ok' if rng.random() < self.grant else
                                rng.choice(['forbid', 'unauth', 'unauth',
                                            'ValueError'
                                            if self.p.get('fault')
                                            else 'forbid']))
            if rng.random() < .15:
                spec['false'] = True
            case['checkers'][label] = spec
            z['checkers'].append(label)
        vis = z['checkers'] + (shared['checkers'] if shared else [])
        for c in own:
            r = rng.random()
            if r < 0.65:
                case['registry'][str(c)] = self.regspec(z)
        for n in range(rng.randrange(1, 4)):
            name = '%s.o%d' % (tag, n)
            z['objs'].append(name)
            case['objs'][name] = {'cls': rng.choice(own), 'beh': None,
                                  'own': rng.choice(vis)
                                  if rng.random() < .2 else None}
        for name in z['objs']:
            r = 'R' + name
            how = rng.choice(['factory', 'direct', None])
            case['roots'][r] = [name, None if how is None else
                                rng.choice(vis), how]
            z['roots'].append(r)
        for name in z['objs']:
            case['objs'][name]['beh'] = self.behaviour(z)
        z['vis'] = vis
        return z

    def regspec(self, z, depth=0):
        rng = self.rng
        r = rng.random()
        if r < 0.6 or depth > 2:
            usable = [c for c in z['checkers'] if self.c['checkers'][c][
                'kind'] in ('plain', 'combined')]
            if not usable:
                return ['noproxy']
            return ['checker', rng.choice(usable)]
        if r < 0.75:
            return ['noproxy'] if depth == 0 or rng.random() < .5 \
                else ['none']
        n = rng.randrange(1 << 20)
        return ['factory', 'f%d' % n, self.regspec(z, depth + 1)]

    def result(self, z, depth=0):
        rng = self.rng
        k = pick(rng, [('new', 6), ('self', 1.5), ('obj', 2), ('prx', 1),
                       ('int', 1), ('str', 1), ('none', .5), ('list', 1),
                       ('tuple', .7), ('dict', .5), ('iter', .6),
                       ('gen', .5), ('fn', 1), ('raise', .4), ('bool', .7),
                       ('object', .2), ('sub', .4)])
        if depth > 1 and k in ('list', 'tuple', 'dict', 'iter', 'gen', 'fn'):
            k = 'new'
        if k == 'new':
            return ['new', rng.choice(z['allowed'])]
        if k == 'obj':
            return ['obj', rng.choice(z['objs'])]
        if k == 'prx':
            return ['prx', rng.choice(z['roots'])]
        if k == 'int':
            return ['int', rng.choice([0, 1, 7, -3, 10 ** 20])]
        if k == 'str':
            return ['str', rng.choice(['', 'abc', 'é'])]
        if k == 'bool':
            return ['bool', rng.random() < .5]
        if k == 'sub':
            return ['sub', rng.choice(sorted(SUBS))]
        if k in ('list', 'tuple', 'dict', 'iter', 'gen'):
            return [k, [self.result(z, depth + 1)
                        for _ in range(rng.randrange(0, 3))]]
        if k == 'fn':
            return ['fn', self.result(z, depth + 1)]
        if k == 'raise':
            return ['raise', rng.choice(['ValueError', 'KeyError',
                                         'ZeroDivisionError', 'OSError'])]
        return [k]

    def behaviour(self, z):
        rng = self.rng
        beh = {'*': self.result(z)}
        for m in self.focus:
            if m in ('__len__', '__bool__', '__hash__', '__int__',
                     '__float__', '__complex__', '__index__',
                     '__length_hint__', '__str__', '__repr__'):
                r = rng.random()
                if r < 0.15:
                    beh[m] = ['raise', rng.choice(
                        ['ValueError', 'RuntimeError', 'KeyboardInterrupt'])]
                elif r < 0.25 and m not in ('__str__', '__repr__'):
                    beh[m] = ['none']
                elif m in ('__len__', '__length_hint__', '__int__',
                           '__index__', '__hash__'):
                    beh[m] = ['int', rng.choice([0, 1, 2, 3])]
                elif m == '__bool__':
                    beh[m] = ['bool', rng.random() < .5]
                continue
            if m == '__iter__':
                beh[m] = rng.choice([['self'], ['iter', [self.result(z, 1)]],
                                     ['gen', [self.result(z, 1)]],
                                     ['obj', rng.choice(z['objs'])]])
                continue
            if m[2:3] in 'r' or m.strip('_') in (
                    'add', 'sub', 'mul', 'and', 'or', 'xor', 'mod',
                    'lt', 'eq', 'ne', 'gt', 'iadd', 'isub', 'imul', 'ior',
                    'iand', 'pow', 'ipow'):
                if rng.random() < 0.2:
                    beh[m] = ['ni']
                    continue
            if m[2:3] == 'i' and m not in ('__iter__', '__int__',
                                           '__invert__', '__index__'):
                beh[m] = rng.choice([['self'], ['self'], ['ni'],
                                     self.result(z)])
                continue
            beh[m] = self.result(z)
        for a in ATTRS:
            if a[:2] != '__' and rng.random() < 0.7:
                beh['attr:' + a] = self.result(z)
        return beh

    def operand(self, z):
        rng = self.rng
        k = pick(rng, [('i', 4), ('s', 2), ('h', 5), ('raw', 1.2), ('n', .3),
                       ('f', .3), ('sl', .3), ('l', .3), ('c', .1)])
        if k == 'i':
            return ['i', rng.choice([0, 1, 2, 5, -1])]
        if k == 's':
            return ['s', rng.choice(['k', '', 'zz'])]
        if k == 'f':
            return ['f', 2.5]
        if k == 'h':
            return ['h', rng.randrange(64)]
        if k == 'raw':
            return ['raw', rng.choice(z['objs'])]
        if k == 'sl':
            return ['sl', 0, 2]
        if k == 'l':
            return ['l', [['i', 1], ['h', rng.randrange(64)]]]
        return [k]

    def op(self, t, z):
        rng = self.rng
        p = self.p
        k = pick(rng, p.get('mix', [
            ('main', 10), ('attr', 5), ('un', 3), ('odd', 1), ('steal', .5),
            ('trust', 2)]))
        h = rng.randrange(64)
        if k == 'main':
            n = rng.choice(MAIN_OPS)
            if n == 'callself' and (boot.PURE or self.p.get('noself')):
                n = 'callk'     # not supported, see DESIGN.md
            if rng.random() < .01:
                n = 'pow3m'
            o = {'o': n, 'h': h, 'a': [self.operand(z), self.operand(z)]}
            if n == 'pow3m':
                o['a'] = [rng.choice([['i', 2],
                                      ['raw', rng.choice(z['objs'])]]),
                          ['i', 3]]
            if n == 'pow3':
                o['a'] = [rng.choice([['i', 2], ['s', 'k']]),
                          rng.choice([['i', 3], ['raw', rng.choice(z['objs'])]])]
        elif k == 'un':
            n = rng.choice(sorted(UNCHECKED) + ['hint', 'hintd', 'bool'])
            o = {'o': n, 'h': h, 'a': [self.operand(z)]}
        elif k == 'odd':
            n = rng.choice(ODD_OPS)
            o = {'o': n, 'h': h, 'a': [self.operand(z)]}
        elif k == 'attr':
            n = rng.choice(['get', 'get', 'get', 'set', 'del', 'method',
                            'method1', 'hasattr', 'get_default'])
            o = {'o': n, 'h': h, 'a': [rng.choice(ATTRS), self.operand(z)]}
            if rng.random() < .15 and n not in ('set', 'del'):
                o['a'][0] = rng.choice(SPECIAL)
            if rng.random() < .06:
                o['ev'] = [rng.randrange(7), rng.choice(ATTRS),
                           rng.choice(ATTRS)]
            if n in ('set', 'del') and o['a'][0][:2] == '__':
                o['a'][0] = 'alpha'
            if n in ('method', 'method1') and rng.random() < .4:
                o['a'][0] = rng.choice(['append', 'pop', 'keys', 'values',
                                        'copy', 'get', '__call__', 'send',
                                        '__self__', '__func__', 'count',
                                        '__next__', '__iter__', 'close'])
        elif k == 'steal':
            return {'o': 'steal', 'h': h, 'a': [rng.choice(sorted(STEAL))]}
        elif k == 'inter':
            n = rng.choice(['new', 'end', 'restore', 'query', 'grant'])
            return self.trusted(t, z, n)
        elif k == 'can':
            o = self.trusted(t, z, 'can' if rng.random() < .75 else 'ask')
        else:
            return self.trusted(t, z)
        if rng.random() < self.fault:
            o['f'] = self.faultspec(o)
        return o

    def interrupt(self, ops):
        """Interrupt one operation at a line or bytecode."""
        rng = self.rng
        can = [o for o in ops if o['o'] in INTERRUPTIBLE]
        if not can:
            return
        case = self.c
        case['lines'] = True
        case['opcodes'] = rng.random() < .3
        o = rng.choice(can)
        most = rng.choice([8, 16, 30])
        if case['opcodes']:
            most *= 6
        o['f'] = ['line', rng.randrange(most), rng.choice(
            ['KeyboardInterrupt', 'SystemExit', 'Injected', 'InjectedBase',
             'MemoryError', 'OSError'])]

    def faultspec(self, o):
        rng = self.rng
        at = pick(rng, [('q', 5), ('k', 2), ('f', 2), ('x', 1.5), ('sc', 2),
                        ('t', 2),
                        ('b', .7 if self.p.get('bomb') else .1)])
        excs = BASE_EXC if rng.random() < 0.75 or self.p.get('plainexc') \
            else ODD_EXC
        if o['o'] in UNCHECKED and rng.random() < .7:
            at = 't'
            excs = rng.choice([BASE_EXC, ODD_EXC])
        exc = rng.choice(excs)
        if o['o'] in ITERATING or o.get('n') == '__iter__':
            if rng.random() < .5:
                at = 'it'
                exc = rng.choice(BASE_EXC)
        if o['o'] == 'next' and rng.random() < .4:
            at = 't'
            exc = 'StopIteration'
        if at == 'b':
            exc = rng.choice(BASE_EXC + ODD_EXC)
        nth = 0
        if at != 'sc' and rng.random() < 0.25 and not self.p.get('plainexc'):
            nth = rng.choice([1, 1, 2, 3])
        if at == 't' and exc in ODD_EXC and o['o'] not in UNCHECKED and (
                o['o'] != 'next' or exc != 'StopIteration'):
            exc = 'ValueError'
        if o['o'] in ('str', 'repr', 'format', 'fstr', 'fstrr', 'pct') \
                and exc == 'TypeError':
            exc = 'ValueError'
        return [at, nth, exc]

    def trusted(self, t, z, k=None):
        rng = self.rng
        k = k or rng.choice(['new', 'end', 'restore', 'query', 'grant', 'grant',
                        'grant', 'declare', 'declare', 'declare', 'define',
                        'undefine', 'wrap', 'rewrap', 'can', 'can', 'ask'])
        h = rng.randrange(64)
        if k == 'new':
            a = ['I%d.%d' % (t, rng.randrange(2))]
        elif k == 'grant':
            a = ['I%d.%d' % (t, rng.randrange(2)), rng.choice(list(PERMS)),
                 self.ans()]
        elif k == 'declare':
            if not z['plain']:
                return {'o': 'query', 'h': 0, 'a': []}
            a = [rng.choice(z['plain']), rng.choice(['get', 'get', 'set']),
                 rng.choice(METHODS + ATTRS * 2),
                 pick(rng, [(None, 1), ('DEL', 2), ('x', 4)])]
            if a[3] == 'x':
                a[3] = self.perm()
        elif k == 'define':
            a = [rng.choice(z['classes']), self.regspec(z)]
        elif k == 'undefine':
            a = [rng.choice(z['classes'])]
        elif k == 'wrap':
            a = [rng.choice(z['objs'])]
        elif k == 'rewrap':
            a = [rng.choice([None, None, rng.choice(z['vis'])])]
        elif k == 'can':
            a = [rng.choice(['access', 'write']),
                 rng.choice(ATTRS + METHODS[:4])]
            if rng.random() < .4:
                a.append(rng.choice(z['objs']))
        elif k == 'ask':
            a = [rng.choice(['PUB', None] + list(PERMS)),
                 'I%d.%d' % (t, rng.randrange(2))
                 if rng.random() < .3 else None]
            if rng.random() < .4:
                a.append(rng.choice(z['objs']))
        else:
            a = []
        return {'o': k, 'h': h, 'a': a}


TEXT = ('str', 'repr', 'format', 'fstr', 'fstrr', 'pct')


def cut(case, sut, ref, interrupted, skipped):
    """What the reference says of a run with an interrupted operation: that
    has the first of the events it has otherwise, ends with the interrupt, and
    afterwards all is as if it had been done or had not been tried."""
    (tid, n), = interrupted
    o = case['threads'][tid]['ops'][n]
    exc = ('exc', o['f'][2], 'injected')
    evs, out = sut[tid][n]
    full = ref[tid][n][0]
    new = list(ref[tid])
    generic = (o['o'] in TEXT and out[0] == 'ret'
               and '<security proxied' in out[1])
    ok = out == exc or generic
    want = full[:len(evs)]
    if generic:
        # (only this one of the objects in a container is not described)
        it = iter(full)
        if all(e in it for e in evs):
            want = evs
    new[n] = (want, out if ok else exc)
    if not [e for e in evs if e[0] == 't']:
        # (nothing was touched)
        new[n + 1:] = skipped()[tid][n + 1:]
    elif [e for e in evs if e[0] == 't'] != [e for e in full if e[0] == 't']:
        # (it was half done)
        new[n + 1:] = sut[tid][n + 1:]
    ref = list(ref)
    ref[tid] = new
    return ref


def evaluate(case, schedule=None):
    """-> dict(violation=None | {...}, ...)"""
    w, k, sut = run_sut(case, schedule)
    refs = []
    diff = None
    variants = [(v, 0) for v in VARIANTS]
    if boot.WATCH:
        sut = norm_watch(case, sut)
        variants += [(v, n) for n in (1, 2) for v in VARIANTS]
    for v, robust in variants:
        ref = run_ref(case, v, robust, w.interrupted)
        if w.interrupted:
            ref = cut(case, sut, ref, w.interrupted,
                      lambda: run_ref(case, v, robust, w.interrupted, True))
        if boot.WATCH:
            ref = norm_watch(case, ref)
        refs.append(ref)
        diff = compare(case, sut, refs)
        if diff is None:
            break
    res = {'w': w, 'k': k, 'sut': sut, 'ref': refs[0], 'violation': None}
    if diff is not None:
        tags, kind = classify(case, diff)
        tid, i, a, b = diff
        if any(t == tid and n < i for t, n in w.interrupted):
            tags |= {'C03'}
        ops = case['threads'][tid]['ops']
        res['violation'] = {
            'tags': sorted(tags), 'class': kind, 'thread': tid, 'op_index': i,
            'op': ops[i] if i < len(ops) else 'end of thread',
            'observed': repr(a), 'expected': repr(b)}
    return res
