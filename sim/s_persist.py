"""Declarations kept in stored data, across faults of the store, crashes and
restarts into either implementation; and what may be stored at all."""
import base64
import copy
import io
import pickle

import boot
from base import Base
from base import injected
from base import pick
from base import show
from peer import Peer
from scen import Result
from world import AVAILABLE

import zope.security.checker as zc
import zope.security.management as zm
import zope.security.permission as zper
from zope.interface import Interface
from zope.security.interfaces import Forbidden
from zope.security.interfaces import Unauthorized
from zope.security.proxy import Proxy
from zope.security.proxy import removeSecurityProxy
from zope.security.simplepolicies import ParanoidSecurityPolicy

MARK = zc.CheckerPublic
RAW = removeSecurityProxy(MARK)
OWN = zc.Global('OWN', __name__)
NAMES = ['a', 'b', 'm', '__len__', '__call__', 'x']
PERMS = ['p', 'q', 'zope.Public', 'CheckerPublic', 'zope.security']
SPECIAL = ['__reduce__', '__reduce_ex__', '__getstate__', '__class__',
           '__module__', '__dict__', '__getnewargs__', '__getnewargs_ex__',
           '__setstate__', '__copy__', '__deepcopy__', '__slots__',
           '__getinitargs__', '__reduce_cython__', '__qualname__',
           '__name__']

peers = {}


class Tab:
    """A table of declarations, as an application would keep it."""

    def __init__(self, get, set):
        self.get = get
        self.set = set


class Slots:
    __slots__ = ('get', 'set')

    def __init__(self, get, set):
        self.get = get
        self.set = set


class Reduced(Tab):

    def __reduce__(self):
        return Reduced, (self.get, self.set)


class Stated(Tab):

    def __getstate__(self):
        return [self.get, self.set]

    def __setstate__(self, state):
        self.get, self.set = state


class NewArgs(Slots):
    __slots__ = ()

    def __new__(cls, get, set):
        self = Slots.__new__(cls)
        self.get, self.set = get, set
        return self

    def __getnewargs__(self):
        return self.get, self.set


class Dict(dict):
    """A mapping with the settable names beside it."""

    @property
    def get_(self):
        return self


TABS = {'Tab': Tab, 'Slots': Slots, 'Reduced': Reduced, 'Stated': Stated,
        'NewArgs': NewArgs}


class Full(Exception):
    """The store's own kind of failure."""


class Writer:
    """A file that may be full, fail, or go away with the machine."""

    def __init__(self, world, limit):
        self.world = world
        self.data = b''
        self.limit = limit        # bytes that still arrive

    def write(self, b):
        b = bytes(b)
        self.world.cb('write')
        if self.limit is not None and len(self.data) + len(b) > self.limit:
            self.data += b[:self.limit - len(self.data)]
            self.world.fired_op[self.world.k.tid] = 'full'
            self.world.res.fault('full or torn')
            raise Full('injected')
        self.data += b
        return len(b)


class Reader:

    def __init__(self, world, data):
        self.world = world
        self.f = io.BytesIO(data)

    def read(self, n=-1):
        self.world.cb('read')
        return self.f.read(n)

    def readline(self):
        self.world.cb('read')
        return self.f.readline()


class Probe:
    """Something protected, that notes what is asked of it."""

    def __init__(self, asked):
        object.__setattr__(self, 'asked', asked)
        object.__setattr__(self, 'a', 1)

    def __getattribute__(self, name):
        object.__getattribute__(self, 'asked').append(name)
        return object.__getattribute__(self, name)

    def __reduce__(self):
        object.__getattribute__(self, 'asked').append('__reduce__()')
        return 'SOMETHING'

    def __reduce_ex__(self, proto):
        object.__getattribute__(self, 'asked').append('__reduce_ex__()')
        return 'SOMETHING'

    def __getstate__(self):
        object.__getattribute__(self, 'asked').append('__getstate__()')
        return {}

    def __copy__(self):
        object.__getattribute__(self, 'asked').append('__copy__()')
        return self

    def __deepcopy__(self, memo):
        object.__getattribute__(self, 'asked').append('__deepcopy__()')
        return self


class Plain:
    pass


SOMETHING = Plain()


class World(Base):
    """One life of a process: from its start to its crash."""

    TAGS = ('C18',)
    always_traced = True

    def __init__(self, case, disk):
        Base.__init__(self, dict(case, threads=[case]), None)
        # name -> (bytes, what it stands for or None if it is not whole)
        self.disk = disk
        self.heap = {}
        self.asked = []
        self.grants = set()

    def setup(self):
        world = self

        class Policy(ParanoidSecurityPolicy):
            def checkPermission(self, permission, object):
                world.asked.append(permission)
                return type(permission) is str and permission in world.grants
        self.old = zm.setSecurityPolicy(Policy)
        self.policy = Policy

    def teardown(self):
        zm.endInteraction()
        zm.setSecurityPolicy(self.old)

    # -- values -------------------------------------------------------------

    def build(self, d):
        k = d[0]
        if k == 'pub':
            return MARK
        if k == 'wrapped':
            return zc.ProxyFactory(MARK)
        if k == 'module':
            return zc.CheckerPublic
        if k == 'own':
            return OWN
        if k == 'val':
            return d[1]
        if k == 'perm':
            return ''.join(list(d[1]))
        if k == 'list':
            return [self.build(x) for x in d[1]]
        if k == 'tuple':
            return tuple([self.build(x) for x in d[1]])
        if k == 'dict':
            return {self.build(a): self.build(b) for a, b in d[1]}
        if k == 'set':
            # several are hashed by value, for a fixed order
            return frozenset(self.build(x) for x in d[1]
                             if len(d[1]) == 1 or x[0] in ('val', 'perm'))
        if k == 'cycle':
            x = [self.build(y) for y in d[1]]
            x.append(x)
            return x
        if k == 'ref':
            if not self.heap:
                return None
            return self.heap[sorted(self.heap)[d[1] % len(self.heap)]]
        if k == 'tab':
            return TABS[d[1]](*[{n: self.build(x) for n, x in t.items()}
                                for t in d[2:]])
        if k == 'checker':
            return zc.CheckerPy(*[{n: self.build(x) for n, x in t.items()}
                                  for t in d[1:]])
        raise AssertionError(k)

    def tables(self, ob, seen=None):
        """All tables in it."""
        if seen is None:
            seen = set()
        t = type(ob)
        if id(ob) in seen or ob is MARK:
            return []
        seen.add(id(ob))
        if t in (list, tuple):
            return [y for x in ob for y in self.tables(x, seen)]
        if t is dict:
            return [y for x in ob.values() for y in self.tables(x, seen)]
        if t in TABS.values():
            return [ob]
        return []

    # -- operations -----------------------------------------------------------

    def op(self, tid, o):
        out = getattr(self, 'op_' + o['o'])(tid, o)
        self.expect(zc.CheckerPublic is MARK, 'marker-replaced')
        self.expect(removeSecurityProxy(MARK) is RAW, 'marker-unwrapped')
        return out

    def op_make(self, tid, o):
        self.heap[o['to']] = ob = self.build(o['v'])
        return repr(canon(ob))

    def op_save(self, tid, o):
        if o['from'] not in self.heap:
            return
        ob = self.heap[o['from']]
        want = canon(ob)
        w = Writer(self, o.get('limit'))

        def dump():
            if o['py']:
                p = pickle._Pickler(w, o['proto'])
            else:
                p = pickle.Pickler(w, o['proto'])
            if o.get('pid'):
                p.persistent_id = self.persistent_id
            if o.get('table'):
                p.dispatch_table = {Plain: None}
            p.dump(ob)
        r = self.call(tid, o.get('f'), dump)
        if o['how'] == 'bare':
            self.disk[o['to']] = (w.data, want if r[0] == 'ret' else None)
        if r[0] == 'exc':
            self.expect(self.fired(tid) and injected(r[1])
                        or self.unfit(ob, o['proto']),
                        'save-failed', observed=show(r), value=repr(want))
            return show(r)
        if self.fired(tid):
            # nothing catches it but what reads an attribute
            self.expect(o.get('f') is not None, 'failure-lost')
        self.disk[o['to']] = (w.data, want)
        self.res.probe('saved:%d' % o['proto'])
        return repr(want)

    def persistent_id(self, ob):
        # the usual comparison of objects that may be anything
        if type(ob) is Plain:
            return 'plain'
        return None

    def unfit(self, ob, proto):
        """What no pickle of this kind can hold."""
        k = kinds(ob)
        if proto < 2 and ('slots' in k or 'checker' in k):
            return True
        return False

    def op_load(self, tid, o):
        if not self.disk:
            return
        name = sorted(self.disk)[o['from'] % len(self.disk)]
        data, want = self.disk[name]
        ref = None
        if o.get('cut') is not None and data:
            # the tail never reached the disk
            data, want = data[:o['cut'] % len(data)], None
            self.res.fault('lost tail')
        r = self.call(tid, o.get('f'), self.load, data, o)
        if r[0] == 'exc':
            self.expect(want is None
                        or self.fired(tid) and injected(r[1]),
                        'load-failed', observed=show(r), value=repr(want))
            return show(r)
        self.expect(want is not None, 'loaded-what-was-cut',
                    observed=repr(canon(r[1])), data=data.hex())
        ref = canon(r[1])
        self.expect(ref == want, 'loaded-another', expected=repr(want),
                    observed=repr(ref))
        self.heap[o['to']] = r[1]
        self.res.probe('loaded')
        return repr(ref)

    def load(self, data, o):
        f = Reader(self, data)
        if o['py']:
            u = pickle._Unpickler(f)
        else:
            u = pickle.Unpickler(f)
        u.persistent_load = lambda pid: SOMETHING
        return u.load()

    def op_cuts(self, tid, o):
        """No beginning of stored data is taken for the whole."""
        if not self.disk:
            return
        name = sorted(self.disk)[o['from'] % len(self.disk)]
        data, want = self.disk[name]
        n = len(data)
        for i in range(n):
            if n > 120 and (i * 7 + o['seed']) % n > 120:
                continue
            r = self.call(tid, None, self.load, data[:i], o)
            self.expect(r[0] == 'exc', 'loaded-what-was-cut', at=i,
                        data=data.hex(), observed=repr(r))
            self.res.fault('lost tail')

    def op_copy(self, tid, o):
        if o['from'] not in self.heap:
            return
        ob = self.heap[o['from']]
        if not o['deep'] and 'cycle' in kinds(ob):
            return
        want = canon(ob)
        r = self.call(tid, o.get('f'),
                      copy.deepcopy if o['deep'] else copy.copy, ob)
        if self.fired(tid) and r[0] == 'exc':
            self.expect(injected(r[1]), 'failure-lost', observed=show(r))
            return show(r)
        self.expect(r[0] == 'ret', 'copy-failed', observed=show(r))
        self.expect(canon(r[1]) == want, 'copied-another',
                    expected=repr(want), observed=repr(canon(r[1])))
        self.heap[o['to']] = r[1]
        return repr(want)

    def op_marker(self, tid, o):
        """The marker alone, in all ways at once."""
        m = {'pub': MARK, 'wrapped': zc.ProxyFactory(zc.CheckerPublic),
             'own': OWN}[o['which']]
        want = OWN if o['which'] == 'own' else MARK
        for proto in range(pickle.HIGHEST_PROTOCOL + 1):
            for dumps in pickle.dumps, pickle._dumps:
                r = self.call(tid, o.get('f'), dumps, m, proto)
                if self.fired(tid) and r[0] == 'exc':
                    self.expect(injected(r[1]), 'failure-lost',
                                observed=show(r))
                    return show(r)
                self.expect(r[0] == 'ret', 'marker-not-stored', proto=proto,
                            observed=show(r))
                for loads in pickle.loads, pickle._loads:
                    r2 = self.call(tid, o.get('f'), loads, r[1])
                    self.expect(r2[0] == 'ret' and r2[1] is want,
                                'marker-not-loaded', proto=proto,
                                observed=show(r2), data=r[1].hex())
        for c in copy.copy, copy.deepcopy:
            r = self.call(tid, o.get('f'), c, m)
            if self.fired(tid) and r[0] == 'exc':
                self.expect(injected(r[1]), 'failure-lost', observed=show(r))
                return show(r)
            self.expect(r[0] == 'ret' and r[1] is want, 'marker-copied',
                        observed=show(r))
        self.expect(hash(m) == hash(removeSecurityProxy(m)) and m == want,
                    'marker-differs')
        # as little as that
        if o['which'] != 'own':
            for n in '__dict__', '_name', 'a', '__doc__', '__init__':
                r = self.call(tid, None, getattr, m, n)
                self.expect(r[0] == 'exc' and isinstance(r[1], Forbidden),
                            'marker-open', name=n, observed=show(r))
            r = self.call(tid, None, setattr, m, o['name'], 1)
            self.expect(r[0] == 'exc' and isinstance(r[1], Forbidden),
                        'marker-open', name='set', observed=show(r))

    def op_decide(self, tid, o):
        """What a stored table decides, after whatever happened to it."""
        tabs = []
        for s in sorted(self.heap):
            tabs.extend(self.tables(self.heap[s]))
        if not tabs:
            return
        t = tabs[o['n'] % len(tabs)]
        name = o['name']
        table = t.set if o['set'] else t.get
        want = table.get(name)
        how = o['how']
        checker = None
        if how == 'checker':
            checker = zc.Checker(t.get, t.set)
        elif how == 'py':
            checker = zc.CheckerPy(t.get, t.set)
        elif o['set']:
            checker = zc.Checker({}, t.set)
        elif how == 'names':
            checker = zc.NamesChecker((name,) if name in t.get else (),
                                      want)
        elif how == 'kw':
            checker = zc.NamesChecker((), MARK, **t.get)
        elif how == 'multi':
            checker = zc.MultiChecker([((n,), p) for n, p in t.get.items()])
        elif how == 'multidict':
            checker = zc.MultiChecker([t.get, t.get])
        elif how == 'both':
            checker = zc.CombinedChecker(zc.Checker(t.get, t.set),
                                         zc.Checker({}))
        self.grants = set(o['grants'])
        self.asked = []
        ob = Plain()
        ob.a = ob.b = ob.m = ob.x = None
        zm.endInteraction()
        if o['inter']:
            zm.newInteraction()
        try:
            if o['set']:
                r = self.call(tid, None, checker.check_setattr, ob, name)
            elif o['ask'] == 'can':
                r = self.call(tid, None, zc.canAccess, Proxy(ob, checker),
                              name)
            elif o['ask'] == 'check':
                r = self.call(tid, None, checker.check, ob, name)
            elif o['ask'] == 'get' and not name.startswith('__'):
                r = self.call(tid, None, getattr, Proxy(ob, checker), name)
            else:
                r = self.call(tid, None, checker.check_getattr, ob, name)
        finally:
            zm.endInteraction()
        if want is MARK:
            exp, asked = 'yes', []
        elif want is None:
            exp, asked = 'never', []
        elif not o['inter']:
            exp, asked = None, []
        elif type(want) is str:
            exp, asked = ('yes' if want in self.grants else 'no'), [want]
        else:
            exp, asked = 'no', [want]
        got = 'yes'
        if r[0] == 'exc':
            if isinstance(r[1], Forbidden):
                got = 'never'
            elif isinstance(r[1], Unauthorized):
                got = 'no'
            else:
                got = show(r)
                if exp is None:
                    got = None
        elif r[1] is False:
            got = 'no'
        if exp is None and o['ask'] == 'can':
            pass
        self.expect(got == exp or exp is None and got != 'yes', 'decision',
                    expected=exp, observed=show(r), how=how,
                    name=name, table=repr(canon(table)), ask=o['ask'])
        self.expect(len(self.asked) == len(asked) and all(
            a is b for a, b in zip(self.asked, asked)),
            'asked', expected=repr(asked), observed=repr(self.asked))
        self.res.probe('decided:%s' % exp)
        return got

    def op_general(self, tid, o):
        """What the rest of the package makes of a stored permission."""
        tabs = []
        for s in sorted(self.heap):
            tabs.extend(self.tables(self.heap[s]))
        if not tabs:
            return
        t = tabs[o['n'] % len(tabs)]
        p = t.get.get(o['name'])
        self.grants = set(o['grants'])
        self.asked = []
        ob = Plain()
        how = o['how']
        if how == 'policy':
            i = ParanoidSecurityPolicy()
            part = Plain()
            part.interaction = None
            part.principal = 'bob'
            i.add(part)
            r = self.call(tid, None, i.checkPermission, p, ob)
            want = ('ret', p is MARK)
        elif how == 'management':
            zm.newInteraction()
            r = self.call(tid, None, zm.checkPermission, p, ob)
            zm.endInteraction()
            want = ('ret', p is MARK or p is None or
                    type(p) is str and p in self.grants)
        else:
            r = self.call(tid, None, zper.checkPermission, None, p)
            if p is MARK:
                want = 'ret', None
            else:
                self.expect(r[0] == 'exc', 'permission-defined',
                            observed=show(r))
                return
        self.expect(r == want, 'general', how=how, expected=repr(want),
                    observed=show(r), perm=repr(canon(p)))
        self.res.probe('general:' + how)

    def op_proxied(self, tid, o):
        """Nothing else is stored, or even asked, unless granted."""
        asked = []
        if o['kind'] == 'probe':
            ob = Probe(asked)
        elif o['kind'] == 'global':
            ob = zc.Global('OTHER', __name__)
        elif o['kind'] == 'raw':
            ob = RAW
        elif o['kind'] == 'tab':
            ob = Tab({'a': MARK}, {})
        elif o['kind'] == 'dict':
            ob = {'a': MARK}
        elif o['kind'] == 'class':
            ob = Tab
        elif o['kind'] == 'exc':
            ob = ValueError('a')
        else:
            ob = Plain()
        grants = set(o['grants'])
        p = Proxy(ob, zc.Checker({n: MARK for n in grants}))
        v = {'alone': p, 'list': [p], 'key': {p: 1} if o['kind'] not in (
            'dict',) else [p], 'attr': Tab(p, None), 'value': {'a': p}
             }[o['in']]
        del asked[:]
        for step in o['steps']:
            how = step[0]
            if how == 'dump':
                fn = (pickle._dumps if step[2] else pickle.dumps)
                r = self.call(tid, o.get('f'), fn, v, step[1])
            elif how == 'copy':
                r = self.call(tid, o.get('f'), copy.copy, p)
            elif how == 'deepcopy':
                r = self.call(tid, o.get('f'), copy.deepcopy, v)
            elif how == 'attr':
                r = self.call(tid, o.get('f'), getattr, p, step[1])
            elif how == 'call':
                r = self.call(tid, o.get('f'), invoke, p, step[1], step[2])
            else:
                r = self.call(tid, o.get('f'), object.__reduce_ex__, p,
                              step[1])
            touched = {a.rstrip('()') for a in asked}
            extra = set(grants)
            if '__class__' in asked:
                # answered by default, as for any object
                extra.add('__class__')
            # this is how the call of a granted one ends
            self.expect(
                touched <= extra | DEFAULT, 'touched', step=repr(step),
                grants=repr(sorted(grants)), observed=repr(sorted(touched)))
            if how in ('attr', 'call') and step[1] not in grants | DEFAULT:
                self.expect(r[0] == 'exc' and isinstance(r[1], Forbidden)
                            or self.fired(tid), 'open', step=repr(step),
                            observed=show(r))
            if not grants & {'__reduce__', '__reduce_ex__'}:
                if how in ('dump', 'deepcopy', 'copy'):
                    self.expect(r[0] == 'exc' or how == 'deepcopy'
                                and '__deepcopy__' in grants
                                or how == 'copy' and '__copy__' in grants,
                                'stored', step=repr(step), observed=show(r))
            if r[0] == 'ret' and how == 'dump':
                self.res.probe('stored proxy')
                # by a name that it gives itself, or not at all
                q = self.call(tid, None, pickle.loads, r[1])
                self.expect('__reduce__' in grants
                            or '__reduce_ex__' in grants, 'stored')
                del q
            self.res.probe('proxied:' + how)
            del asked[:]

    def thread(self, tid):
        Base.thread(self, tid)


DEFAULT = AVAILABLE | {'__Security_checker__'}


def invoke(p, name, args):
    return getattr(p, name)(*args)


def kinds(ob, seen=None):
    """What there is in it that not every protocol can hold."""
    if seen is None:
        seen = []
    if ob is MARK or ob is OWN or type(ob) in (str, int, type(None)):
        return set()
    if any(x is ob for x in seen):
        return {'cycle'}
    seen = seen + [ob]
    t = type(ob)
    out = set()
    if t in (list, tuple, frozenset):
        for x in ob:
            out |= kinds(x, seen)
    elif t is dict:
        for a, b in ob.items():
            out |= kinds(a, seen) | kinds(b, seen)
    elif t is zc.CheckerPy:
        out.add('checker')
    else:
        if t in (Slots, NewArgs):
            out.add('slots')
        out |= kinds(ob.get, seen) | kinds(ob.set, seen)
    return out


def canon(ob, seen=None):
    """What a value means, sharing included."""
    if ob is MARK:
        return 'PUBLIC'
    if ob is RAW:
        return 'the bare marker'
    if ob is OWN:
        return 'OWN'
    t = type(ob)
    if t in (str, int, float, bool, type(None)):
        return ('v', t.__name__, ob)
    if issubclass(t, Proxy):
        return 'a proxy'
    if seen is None:
        seen = {}
    if id(ob) in seen and t is not tuple and t is not frozenset:
        return ('again', seen[id(ob)][0])
    seen[id(ob)] = len(seen), ob
    if t in (list, tuple):
        return (t.__name__, [canon(x, seen) for x in ob])
    if t is frozenset:
        return ('set', sorted(repr(canon(x, seen)) for x in ob))
    if t is dict:
        return ('dict', [(canon(a, seen), canon(b, seen))
                         for a, b in ob.items()])
    if t in TABS.values():
        return (t.__name__, canon(ob.get, seen), canon(ob.set, seen))
    if t is zc.CheckerPy:
        return ('checker', canon(ob.get_permissions, seen),
                canon(ob.set_permissions, seen))
    return 'a ' + t.__name__


# -- generation ---------------------------------------------------------------

def gen_leaf(rng):
    k = pick(rng, [('pub', 5), ('wrapped', 1), ('module', 1), ('perm', 4),
                   ('val', 1), ('own', .7)])
    if k == 'perm':
        return ['perm', rng.choice(PERMS)]
    if k == 'val':
        return ['val', None]
    return [k]


def gen_table(rng):
    return {n: gen_leaf(rng)
            for n in rng.sample(NAMES, rng.randrange(len(NAMES)))}


def gen_value(rng, depth=0):
    k = pick(rng, [('tab', 10), ('leaf', 1), ('list', 3), ('tuple', 2),
                   ('dict', 3), ('set', .5), ('cycle', 1), ('ref', 2),
                   ('checker', .3)])
    if depth > 2 and k not in ('tab', 'leaf', 'ref', 'checker'):
        k = 'tab'
    if k == 'leaf':
        return gen_leaf(rng)
    if k == 'tab':
        return ['tab', rng.choice(sorted(TABS)), gen_table(rng),
                gen_table(rng)]
    if k == 'checker':
        return ['checker', gen_table(rng), gen_table(rng)]
    n = rng.randrange(4)
    if k == 'dict':
        return ['dict', [[gen_leaf(rng), gen_value(rng, depth + 1)]
                         for _ in range(n)]]
    if k == 'set':
        return ['set', [gen_leaf(rng) for _ in range(n)]]
    if k == 'ref':
        return ['ref', rng.randrange(9)]
    return [k, [gen_value(rng, depth + 1) for _ in range(n)]]


def gen_fault(rng, kinds):
    k = rng.choice(kinds)
    return [k, rng.randrange(30 if k == 'line' else 6),
            rng.choice(['KeyboardInterrupt', 'MemoryError', 'InjectedBase',
                        'SystemExit'] if k == 'line' else
                       ['OSError', 'MemoryError', 'Injected',
                        'KeyboardInterrupt', 'ValueError'])]


def gen_op(rng, faults):
    k = pick(rng, [('make', 5), ('save', 6), ('load', 6), ('cuts', .5),
                   ('copy', 3), ('marker', .5), ('decide', 8),
                   ('general', 2), ('proxied', 3)])
    o = {'o': k}
    if k == 'make':
        o.update(to=rng.randrange(4), v=gen_value(rng))
    elif k == 'save':
        o.update({'from': rng.randrange(4), 'to': rng.randrange(3),
                  'proto': rng.randrange(6), 'py': rng.random() < .3,
                  'how': rng.choice(['bare', 'safe'])})
        if rng.random() < .2:
            o['pid'] = True
        if rng.random() < .1:
            o['table'] = True
        if faults and rng.random() < .2:
            o['limit'] = int(rng.expovariate(1 / 60))
        elif faults and rng.random() < .3:
            o['f'] = gen_fault(rng, ['write', 'line', 'line'])
    elif k == 'load':
        o.update({'from': rng.randrange(9), 'to': rng.randrange(4),
                  'py': rng.random() < .3})
        if faults and rng.random() < .2:
            o['cut'] = rng.randrange(1 << 20)
        elif faults and rng.random() < .3:
            o['f'] = gen_fault(rng, ['read'])
    elif k == 'cuts':
        o.update({'from': rng.randrange(9), 'py': rng.random() < .3,
                  'seed': rng.randrange(999)})
    elif k == 'copy':
        o.update({'from': rng.randrange(4), 'to': rng.randrange(4),
                  'deep': rng.random() < .7})
        if faults and rng.random() < .2:
            o['f'] = gen_fault(rng, ['line'])
    elif k == 'marker':
        o.update(which=pick(rng, [('pub', 3), ('wrapped', 2), ('own', 1)]),
                 name=rng.choice(['__name__', 'a', '__reduce__',
                                  '__module__']))
        if faults and rng.random() < .2:
            o['f'] = gen_fault(rng, ['line'])
    elif k == 'decide':
        o.update(n=rng.randrange(30), name=rng.choice(NAMES),
                 set=rng.random() < .3, inter=rng.random() < .8,
                 grants=rng.sample(PERMS, rng.randrange(3)),
                 how=rng.choice(['checker', 'py', 'names', 'kw', 'multi',
                                 'multidict', 'both']),
                 ask=rng.choice(['can', 'check', 'get', 'getattr']))
    elif k == 'general':
        o.update(n=rng.randrange(30), name=rng.choice(NAMES),
                 grants=rng.sample(PERMS, rng.randrange(3)),
                 how=rng.choice(['policy', 'management', 'permission']))
    else:
        g = pick(rng, [([], 3), (['__module__'], 1), (['__reduce__'], 1),
                       (['__reduce_ex__'], 1),
                       (['__reduce__', '__module__'], 1),
                       (rng.sample(SPECIAL, rng.randrange(len(SPECIAL))),
                        4)])
        o.update(grants=sorted(g),
                 kind=rng.choice(['probe', 'probe', 'global', 'raw', 'tab',
                                  'dict', 'class', 'exc', 'plain']),
                 steps=[gen_step(rng) for _ in range(rng.randrange(1, 5))])
        o['in'] = rng.choice(['alone', 'alone', 'list', 'key', 'attr',
                              'value'])
    return o


def gen_step(rng):
    k = pick(rng, [('dump', 5), ('copy', 2), ('deepcopy', 2), ('attr', 3),
                   ('call', 2), ('object', 2)])
    if k == 'dump':
        return [k, rng.randrange(6), rng.random() < .3]
    if k == 'attr':
        return [k, rng.choice(SPECIAL)]
    if k == 'call':
        return [k, *rng.choice([['__reduce__', []], ['__reduce_ex__', [2]],
                                ['__reduce_ex__', [4]],
                                ['__reduce_ex__', [0]],
                                ['__getstate__', []], ['__copy__', []],
                                ['__deepcopy__', [{}]]])]
    if k == 'object':
        return [k, rng.randrange(5)]
    return [k]


def generate(rng, profile):
    faults = rng.random() < .7
    lives = []
    for n in range(pick(rng, [(1, 2), (2, 4), (3, 3), (4, 1)])):
        lives.append({
            'where': rng.choice(['c', 'pure']),
            'sched': rng.randrange(1 << 30), 'traced': True,
            'ops': [gen_op(rng, faults)
                    for _ in range(rng.choice([6, 12, 20]))]})
        if n and rng.random() < .8:
            # what there is, is read
            lives[-1]['ops'][:0] = [
                {'o': 'load', 'from': i, 'to': i, 'py': False}
                for i in range(2)]
    if rng.random() < .8:
        lives[0]['ops'][:0] = [
            {'o': 'make', 'to': i, 'v': gen_value(rng)} for i in range(2)]
    lives[0]['where'] = None
    return {'threads': lives}


def live(case, disk):
    w = World(case, disk)
    return w.go()


def answer(case):
    disk = {k: (base64.b64decode(a), eval(b))
            for k, (a, b) in case['disk'].items()}
    disk = {int(k): v for k, v in disk.items()}
    r = live(case['life'], disk)
    return (disk, r.trace, r.violations, r.ops, r.points, r.faults,
            r.probes)


def execute(case, schedule=None):
    disk = {}
    res = Result()
    traces = []
    here = 'pure' if boot.PURE else 'c'
    last = here
    for n, life in enumerate(case['threads']):
        where = life['where'] or here
        if n == 0:
            r = live(life, disk)
            trace, violations, ops, points, faults, probes = (
                r.trace, r.violations, r.ops, r.points, r.faults, r.probes)
        else:
            if where not in peers:
                peers[where] = Peer(where, 'persist')
            ask = {'life': life, 'disk': {
                k: (base64.b64encode(a).decode(), repr(b))
                for k, (a, b) in disk.items()}}
            disk, trace, violations, ops, points, faults, probes = (
                peers[where].ask(ask))
            res.probe('restart:%s-%s' % (last, where))
            last = where
        traces.append(trace)
        res.ops += ops
        res.points += points
        for k, m in faults.items():
            res.fault(k, m)
        for k, m in probes.items():
            res.probe(k, m)
        if n:
            res.fault('crash and restart')
        if violations:
            for v in violations:
                v['life'] = n
                v['where'] = where
            res.violations = violations
            break
    res.trace = traces
    res.nontrivial = True
    return res


def close():
    for p in peers.values():
        p.close()


def simplify(case):
    # fewer lives
    for n in reversed(range(1, len(case['threads']))):
        c = copy.deepcopy(case)
        del c['threads'][n]
        yield c
    for n, th in enumerate(case['threads']):
        for i, o in enumerate(th['ops']):
            if o['o'] == 'proxied' and len(o['steps']) > 1:
                for j in range(len(o['steps'])):
                    c = copy.deepcopy(case)
                    del c['threads'][n]['ops'][i]['steps'][j]
                    yield c
            if o['o'] == 'proxied':
                for g in o['grants']:
                    c = copy.deepcopy(case)
                    c['threads'][n]['ops'][i]['grants'].remove(g)
                    yield c
