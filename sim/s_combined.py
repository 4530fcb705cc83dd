"""Combined checkers, decorators and location proxies."""
import boot
from base import BASE_EXC
from base import Base
from base import LINE_EXC
from base import injected
from base import pick
from base import sched_params
from base import show
from world import EXCS

import zope.security.checker as zc
import zope.security.management as zm
from zope.location.location import LocationProxy
from zope.proxy import ProxyBase
from zope.security.checker import Checker
from zope.security.checker import CheckerPublic
from zope.security.checker import CombinedChecker
from zope.security.checker import ProxyFactory
from zope.security.decorator import DecoratorBase
from zope.security.decorator import SecurityCheckerDecoratorBase
from zope.security.interfaces import ForbiddenAttribute
from zope.security.interfaces import Unauthorized
from zope.security.proxy import Proxy
from zope.security.proxy import getChecker
from zope.security.proxy import removeSecurityProxy

NAMES = ['a', 'b', 'c', '__len__', '__getitem__', '__str__', 'own']
PERMS = ['p', 'q', 'r']


class UnauthorizedSub(Unauthorized):
    pass


class ForbiddenSub(ForbiddenAttribute):
    pass


class Thing:
    """An object to protect."""

    def __init__(self, world, label):
        object.__setattr__(self, 'w', (world, label))

    def touch(self, *what):
        world, label = object.__getattribute__(self, 'w')
        world.cb('touch', label, *what)

    @property
    def a(self):
        self.touch('a')
        return 1

    b = c = a

    def __setattr__(self, name, v):
        self.touch('=' + name)

    def __delattr__(self, name):
        self.touch('=' + name)

    def __len__(self):
        self.touch('len')
        return 3

    def __getitem__(self, i):
        self.touch('item')
        return 7


class Odd(str):
    """A name that compares in its own way, and may fail to."""

    __hash__ = str.__hash__

    def __eq__(self, other):
        self.world.cb('eq')
        return str.__eq__(self, other)

    def __ne__(self, other):
        return not self == other


EXACT = {'u': Unauthorized, 'f': ForbiddenAttribute,
         'us': UnauthorizedSub, 'fs': ForbiddenSub}


class Scripted:
    """A checker of the application."""

    def __init__(self, world, label, script):
        self.world, self.label, self.script = world, label, script

    def _do(self, op, name):
        name = str.__str__(name)
        self.world.cb('side', self.label, op, name)
        v = self.script.get(op[0] + name, 'f')
        if boot.WATCH and name == '__class__':
            v = 'ok'        # so that every text is generic, not a failure
        if v == 'ok':
            return
        raise EXACT.get(v, KeyError)(name, self.label)

    def check(self, ob, name):
        self._do('get', name)

    def check_getattr(self, ob, name):
        self._do('get', name)

    def check_setattr(self, ob, name):
        self._do('set', name)

    def proxy(self, ob):
        return ob


class Oddly:
    """A checker with a truth value, or equality, of its own."""

    def __eq__(self, other):
        return self.odd == 'eq' or self is other

    def __hash__(self):
        return 1

    def __bool__(self):
        return self.odd != 'false'


class OddlyScripted(Oddly, Scripted):
    pass


class Lines:
    """Where a watched checker writes."""

    def __init__(self, world):
        self.world, self.got = world, {}

    def write(self, text):
        self.got.setdefault(self.world.k.tid, []).append(text)


class Watched(zc.CheckerLoggingMixin, Scripted):
    """A checker of the application with the diagnostics mixed in."""


class OddlyWatched(Oddly, Watched):
    pass


class Inter:
    participations = ()

    def __init__(self, world, tid):
        self.world, self.tid = world, tid

    def checkPermission(self, permission, object):
        self.world.cb('ask', permission, self.world.label(object))
        return self.world.grants[self.tid].get(permission, False)


class World(Base):

    TAGS = ('C09',)

    def setup(self):
        c = self.case
        self.always_traced = any(
            (o.get('f') or [''])[0] == 'line'
            for th in c['threads'] for o in th['ops'])
        self.grants = [dict(th['grants']) for th in c['threads']]
        self.labels = {}
        self.build()
        self.old = zm.setSecurityPolicy(
            lambda *parts: Inter(self, self.k.tid))

    def teardown(self):
        zm.setSecurityPolicy(self.old)
        for t in self.types:
            zc._checkers.pop(t, None)

    def label(self, ob):
        return self.labels.get(id(ob), '?')

    def build(self):
        c = self.case
        self.cks, self.models = [], []
        for n, spec in enumerate(c['checkers']):
            k = spec['k']
            if k == 'plain':
                ck = Checker(self.perms(spec['get']), *(
                    [self.perms(spec['set'])] if spec['set'] else []))
                m = ('plain', dict(spec['get']), dict(spec['set']))
            elif k == 'script':
                odd = spec.get('odd')
                if boot.WATCH:
                    ck = (OddlyWatched if odd else Watched)(
                        self, n, spec['script'])
                    ck.verbosity = boot.WATCH
                    ck._file = Lines(self)
                else:
                    ck = (OddlyScripted if odd else Scripted)(
                        self, n, spec['script'])
                ck.odd = odd
                m = ('script', n, spec['script'])
            else:
                firsts = [i for i in range(n)
                          if c['checkers'][i]['k'] == 'plain']
                if not firsts or n < 2:
                    ck = Checker({})
                    m = ('plain', {}, {})
                else:
                    i = firsts[spec['a'] % len(firsts)]
                    j = spec['b'] % n
                    ck = CombinedChecker(self.cks[i], self.cks[j])
                    m = ('both', self.models[i], self.models[j])
            self.cks.append(ck)
            self.models.append(m)
        # decorated things
        self.types = []
        self.things = []        # (object, model checker or None)
        world = self

        class Deco(DecoratorBase):
            @property
            def own(self):
                world.cb('touch', 'deco', 'own')
                return 5

        class Deco2(SecurityCheckerDecoratorBase):
            pass

        class T1(Thing):
            pass

        class T2(Thing):
            pass
        self.byname = {'Deco': Deco, 'Deco2': Deco2, 'Loc': LocationProxy,
                       'T1': T1, 'T2': T2}
        self.reg = {}
        for name, what in c['registry'].items():
            t = self.byname[name]
            if what == 'noproxy':
                zc.defineChecker(t, zc.NoProxy)
                self.reg[name] = None
            else:
                n = what[1] % len(self.cks)
                if what[0] == 'direct' and isinstance(self.cks[n], Checker):
                    zc.defineChecker(t, self.cks[n])
                else:
                    if not isinstance(self.cks[n], Checker):
                        # a factory has to end in a real one
                        n = next((i for i, x in enumerate(self.cks)
                                  if isinstance(x, Checker)), None)
                        if n is None:
                            continue

                    def factory(ob, n=n):
                        self.cb('factory', n)
                        return self.cks[n]
                    zc.defineChecker(t, factory)
                self.reg[name] = self.models[n]
            self.types.append(t)
        for n, spec in enumerate(c['things']):
            self.make_thing(n, spec)

    EMPTY = ('plain', {}, {})

    def make_thing(self, n, spec):
        """-> appends (object, checker model, chain)

        The chain lists what a use of the thing goes through below.
        """
        k = spec['k']
        if k in ('T1', 'T2') or not self.things:
            k = k if k in ('T1', 'T2') else 'T1'
            ob = self.byname[k](self, n)
            m = self.reg.get(k, self.EMPTY)
            below = None
            if spec.get('own') is not None:
                i = spec['own'] % len(self.cks)
                object.__setattr__(ob, '__Security_checker__', self.cks[i])
                m = self.models[i]
            deco = False
        elif k == 'proxied':
            raw, m, below, deco = self.things[spec['of'] % len(self.things)]
            i = spec['with'] % len(self.cks)
            if type(raw) is Proxy:
                # (a proxy in a proxy cannot be had any other way either)
                ob = raw
            else:
                ob = Proxy(raw, self.cks[i])
                below = ('check', self.models[i], self.label(raw), below,
                         deco)
                m = self.models[i]
            deco = False
        else:
            inner, im, below, _ = self.things[spec['of'] % len(self.things)]
            ob = self.byname[k](inner)
            wm = self.reg.get(k, self.EMPTY)
            if wm is None:
                m = im
            elif im is None:
                m = wm
            else:
                # of a combined first side the names alone count
                while wm[0] == 'both':
                    wm = wm[1]
                m = ('both', wm, im)
            deco = k == 'Deco'
            if deco:
                below = ('deco', below)
        if type(ob) is not Proxy:
            self.labels[id(ob)] = n
        self.things.append((ob, m, below, deco))

    def perms(self, d):
        return {k: CheckerPublic if v == 'pub' else v for k, v in d.items()}

    # -- the model ------------------------------------------------------------

    def verdict(self, tid, m, op, name, label, ev):
        """-> 'ok', 'u', 'f', 'other'; ev gets the questions asked"""
        if m[0] == 'plain':
            perm = m[1 if op == 'get' else 2].get(name)
            if perm == 'pub':
                return 'ok'
            if perm is None:
                if op == 'get' and name in zc._available_by_default:
                    return 'ok'
                return 'f'
            ev.append(('ask', perm, label))
            return 'ok' if self.grants[tid].get(perm) else 'u'
        if m[0] == 'script':
            ev.append(('side', m[1], op, name))
            v = m[2].get(op[0] + name, 'f')
            return {'us': 'u', 'fs': 'f'}.get(v, v)
        v = self.verdict(tid, m[1], op, name, label, ev)
        if v in ('ok', 'other'):
            return v
        v2 = self.verdict(tid, m[2], op, name, label, ev)
        if v2 == 'f' and v == 'u':
            return 'u'
        return v2

    def use(self, tid, below, op, name, ev):
        """What happens below the outermost check."""
        while below is not None:
            if below[0] == 'deco':
                if name == 'own' and op == 'get':
                    ev.append(('touch', 'deco', 'own'))
                    return 'ok'
                if name == 'own':
                    return 'attr'
                below = below[1]
                continue
            v = self.verdict(tid, below[1], op, name, below[2], ev)
            if v != 'ok':
                return v
            below = below[3]
        return 'object'

    OUT = {'u': Unauthorized, 'f': ForbiddenAttribute, 'other': KeyError}

    def matches(self, r, v):
        if v == 'ok':
            return r[0] == 'ret'
        return r[0] == 'exc' and isinstance(r[1], self.OUT[v]) and (
            v != 'other' or type(r[1]) is KeyError)

    # -- operations -----------------------------------------------------------

    def thread(self, tid):
        zm.newInteraction()
        try:
            Base.thread(self, tid)
        finally:
            zm.endInteraction()

    def events(self, tid, mark):
        return [x[1:] for x in self.log[mark:]
                if x[0] == tid and x[1] in ('ask', 'side', 'touch')
                and not (boot.WATCH and (
                    '__repr__' in x or '__class__' in x))]

    def op(self, tid, o):
        return getattr(self, 'op_' + o['o'])(tid, o)

    def after_fault(self, tid, r, got, ev, what):
        """Whether a fault has decided."""
        f = self.fired(tid)
        if not f:
            return False
        if boot.WATCH and got[:len(ev)] == ev and set(got) == set(ev) \
                and not (r[0] == 'exc' and injected(r[1])):
            # met by the diagnostics, inside of a text
            return False
        self.expect(got == ev[:len(got)] or (
            what == 'use' and not zc._c_available
            and got[:len(ev)] == ev and set(got) == set(ev)),
            'questions-before-failure:' + what,
                    expected=ev, observed=got)
        if f == 'line' or f == 'factory':
            self.expect(r[0] == 'exc' and injected(r[1]),
                        'failure-lost:' + what, observed=show(r))
            return True
        e = type(r[1]) if r[0] == 'exc' else None
        self.expect(e is not None and injected(r[1]),
                    'failure-lost:' + what, observed=show(r))
        return True

    def op_ask(self, tid, o):
        n = o['ck'] % len(self.cks)
        ob = self.things[0][0]
        op, name = o['op'], o['name']
        ck = self.cks[n]
        fn = {'get': ck.check_getattr, 'set': ck.check_setattr,
              'check': ck.check}[op]
        mark = len(self.log)
        lines = getattr(ck, '_file', None)
        lines = lines.got if type(lines) is Lines else None
        if lines is not None:
            lines[tid] = []
        odd = name
        if o.get('odd') and not boot.WATCH:
            odd = Odd(name)
            odd.world = self
            self.res.probe('odd-name')
        r = self.call(tid, o.get('f'), fn, ob, odd)
        ev = []
        v = self.verdict(tid, self.models[n],
                         'set' if op == 'set' else 'get', name,
                         self.label(ob), ev)
        got = self.events(tid, mark)
        if self.after_fault(tid, r, got, ev, 'ask'):
            return 'failed'
        self.expect(self.matches(r, v), 'verdict', expected=v,
                    observed=show(r), checker=self.models[n])
        self.expect(got == ev, 'questions', expected=ev, observed=got)
        m = self.models[n]
        if m[0] == 'script':
            if v != 'ok':
                raw = m[2].get(('set' if op == 'set' else 'get')[0] + name,
                               'f')
                self.expect(
                    type(r[1]) is EXACT.get(raw, KeyError)
                    and r[1].args == (name, n), 'other-refusal',
                    expected=raw, observed=show(r))
            if lines is not None:
                self.told(v, op, name, ''.join(lines[tid]))
        return v

    def told(self, v, op, name, text):
        """What the diagnostics wrote."""
        want = {'u': '- Unauthorized', 'f': '- Forbidden'}.get(v)
        if v == 'ok' and boot.WATCH > 1:
            want = '+ '
        if want is None:
            self.expect(not text, 'line-of-nothing', observed=text)
            return
        self.expect(text.startswith('[CHK] ' + want)
                    and (' %s on ' % name) in text
                    and text.count('[CHK]') == 1 and text.endswith('\n'),
                    'line', expected=[v, op, name], observed=text)

    def op_use(self, tid, o):
        """Through the proxy that the thing gets."""
        ob, m, below, deco = self.things[o['t'] % len(self.things)]
        name = o['name']
        op = o['op']
        mark = len(self.log)
        r = self.call(tid, o['f'] if (o.get('f') or [''])[0] == 'factory'
                      else None, ProxyFactory, ob)
        if self.fired(tid):
            self.expect(r[0] == 'exc' and injected(r[1]),
                        'failure-lost:wrap', observed=show(r))
            return 'failed'
        self.expect(r[0] == 'ret', 'wrap-failed', observed=show(r))
        p = r[1]
        if type(ob) is Proxy:
            self.expect(p is ob, 'wrapped-again')
        elif m is None:
            self.expect(p is ob, 'wrapped-needlessly')
            return 'bare'
        else:
            self.expect(type(p) is Proxy, 'not-wrapped',
                        observed=type(p).__name__)
        ev = []
        if type(ob) is Proxy:
            v = 'ok'
        else:
            v = self.verdict(tid, m, op, name, self.label(ob), ev)
        if v == 'ok':
            v = self.use(tid, below, op, name, ev)
        mark = len(self.log)
        if op == 'set':
            if name.startswith('__'):
                return
            if o.get('del'):
                if name == 'own':
                    return      # zope.proxy's own matter
                def fn():
                    delattr(p, name)
            else:
                def fn():
                    setattr(p, name, 1)
        elif name == '__len__':
            fn = p.__len__ if False else (lambda: len(p))
        elif name == '__getitem__':
            def fn():
                return p[0]
        elif name == '__str__':
            return
        else:
            def fn():
                return getattr(p, name)
        f = o.get('f')
        r = self.call(tid, f if f and f[0] != 'factory' else None, fn)
        got = self.events(tid, mark)
        asked = [x for x in got if x[0] != 'touch']
        evasked = [x for x in ev if x[0] != 'touch']
        if self.fired(tid):
            self.after_fault(tid, r, asked, evasked, 'use')
            return 'failed'
        if not zc._c_available and v in ('f', 'attr', 'object'):
            # reads that end in an AttributeError are tried again
            self.expect(asked[:len(evasked)] == evasked
                        and set(asked) == set(evasked), 'use-questions',
                        expected=evasked, observed=asked)
            asked = evasked
        self.expect(asked == evasked, 'use-questions', expected=evasked,
                    observed=asked, name=name, op=op)
        touched = [x for x in got if x[0] == 'touch']
        if v in self.OUT:
            self.expect(self.matches(r, v) or (
                v == 'f' and op == 'get' and not zc._c_available
                and below is not None and r[0] == 'exc'
                and type(r[1]) is AttributeError),
                'use-verdict', expected=v, observed=show(r))
            self.expect(not touched, 'touched-though-refused',
                        observed=touched)
        elif v == 'attr' or name == 'own' and v == 'object':
            pass
        elif op == 'set':
            self.expect(r[0] == 'ret', 'set-failed', observed=show(r))
            self.expect(len(touched) == 1, 'set-touched', observed=touched)
        elif op == 'get':
            want = {'__len__': 3, '__getitem__': 7, 'own': 5}.get(name, 1)
            self.expect(r[0] == 'ret', 'use-failed', observed=show(r))
            self.expect(removeSecurityProxy(r[1]) == want, 'use-result',
                        observed=show(r))
            self.expect(len(touched) == 1, 'use-touched', observed=touched)
        return v

    def op_grant(self, tid, o):
        self.grants[tid][o['perm']] = o['to']
        return o['to']

    def op_declare(self, tid, o):
        if len(self.case['threads']) > 1:
            return
        plain = [i for i, m in enumerate(self.models) if m[0] == 'plain'
                 and type(self.cks[i]) is Checker]
        if not plain:
            return
        i = plain[o['ck'] % len(plain)]
        which = 1 if o['op'] == 'get' else 2
        d = (self.cks[i].get_permissions if which == 1
             else self.cks[i].set_permissions)
        m = self.models[i][which]
        if which == 2 and not m:
            return      # (the empty one is not kept)
        if o['to'] is None:
            if which == 2 and len(m) == 1:
                return
            d.pop(o['name'], None)
            m.pop(o['name'], None)
        else:
            d[o['name']] = CheckerPublic if o['to'] == 'pub' else o['to']
            m[o['name']] = o['to']
        return 'declared'

    def op_assign(self, tid, o):
        decos = [x[0] for x in self.things
                 if isinstance(type(x[0]), type)
                 and issubclass(type(x[0]), (DecoratorBase,
                                             SecurityCheckerDecoratorBase))]
        if not decos:
            return
        ob = decos[o['t'] % len(decos)]
        r = self.call(tid, None, setattr, ob, '__Security_checker__',
                      Checker({}))
        self.expect(r[0] == 'exc' and type(r[1]) is TypeError,
                    'checker-assigned', observed=show(r))
        return 'refused'


def gen_plain(rng):
    special = ['__Security_checker__'] if rng.random() < .15 else []
    return {'k': 'plain',
            'get': {n: rng.choice(['pub', 'p', 'q', 'r']) for n in NAMES + special
                    if rng.random() < .55},
            'set': {n: rng.choice(['pub', 'p', 'q', 'r'])
                    for n in NAMES[:3] + ['own'] if rng.random() < .5}}


def gen_script(rng):
    return {'k': 'script', 'odd': pick(rng, [(None, 5), ('eq', 1),
                                             ('false', 1)]), 'script': {
        o + n: pick(rng, [('ok', 3), ('u', 2), ('f', 2), ('us', 1),
                          ('fs', 1), ('other', 1)])
        for o in 'gs' for n in NAMES if rng.random() < .8}}


def generate(rng, profile):
    nt = pick(rng, [(1, 5), (2, 3)])
    case = sched_params(rng, nt)
    cks = [gen_plain(rng) for _ in range(rng.choice([1, 2, 3]))]
    for _ in range(rng.randrange(1, 7)):
        cks.append(pick(rng, [(gen_plain(rng), 1), (gen_script(rng), 3),
                              ({'k': 'both', 'a': rng.randrange(9),
                                'b': rng.randrange(9)}, 5)]))
    case['checkers'] = cks
    case['registry'] = {
        t: rng.choice(['noproxy', ['direct', rng.randrange(9)],
                       ['direct', rng.randrange(9)],
                       ['factory', rng.randrange(9)]])
        for t in ('Deco', 'Deco2', 'T1', 'T2', 'Loc')
        if rng.random() < .65}
    things = [{'k': rng.choice(['T1', 'T2']),
               'own': rng.choice([None, None, rng.randrange(9)])}]
    for _ in range(rng.randrange(1, 7)):
        things.append({'k': pick(rng, [('T1', 1), ('T2', 1), ('Deco', 3),
                                       ('Deco2', 2), ('Loc', 2),
                                       ('proxied', 2)]),
                       'of': rng.randrange(9), 'with': rng.randrange(9),
                       'own': rng.choice([None, None, rng.randrange(9)])})
    case['things'] = things
    faults = rng.random() < .5
    case['threads'] = []
    for _ in range(nt):
        ops = []
        for _ in range(rng.choice([8, 20, 40])):
            k = pick(rng, [('ask', 6), ('use', 6), ('grant', 2),
                           ('declare', 1), ('assign', .2)])
            o = {'o': k, 'ck': rng.randrange(9), 't': rng.randrange(9),
                 'name': rng.choice(NAMES),
                 'op': rng.choice(['get', 'get', 'set'])}
            if k == 'ask':
                o['op'] = rng.choice(['get', 'set', 'check'])
                o['odd'] = rng.random() < .3
            elif k == 'use' and o['op'] == 'set':
                o['del'] = rng.random() < .2
            elif k == 'grant':
                o['perm'] = rng.choice(PERMS)
                o['to'] = rng.random() < .5
            elif k == 'declare':
                o['to'] = rng.choice(['pub', 'p', 'q', None])
            if faults and k in ('ask', 'use') and rng.random() < .35:
                kind = rng.choice(['ask', 'ask', 'side', 'line',
                                   'factory'])
                o['f'] = [kind, rng.choice([0, 0, 1, 2])
                          if kind != 'line' else rng.randrange(12),
                          rng.choice(LINE_EXC if kind == 'line'
                                     # (reads are repeated after these)
                                     else BASE_EXC if rng.random() < .3 and (
                                         k == 'ask' or o['op'] == 'set')
                                     and kind != 'factory'
                                     else [e for e in BASE_EXC
                                           if e != 'AttributeError'])]
                if kind in ('ask', 'side') and rng.random() < .2 and (
                        k == 'ask' or o['op'] == 'set'):
                    o['f'][2] = 'AttributeError'
                if o.get('odd') and rng.random() < .6:
                    o['f'] = ['eq', rng.randrange(4), rng.choice(BASE_EXC)]
            ops.append(o)
        case['threads'].append({
            'ops': ops, 'grants': {p: rng.random() < .5 for p in PERMS}})
    return case


def execute(case, schedule=None):
    return World(case, schedule).go()
