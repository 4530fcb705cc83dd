"""Histories of checker definitions and of checker selections."""
import types

from base import BASE_EXC
from base import Base
from base import exc_name
from base import injected
from base import pick
from base import sched_params
from base import show
from world import EXCS

import zope.security.checker as zc
from zope.security.checker import Checker
from zope.security.checker import DuplicationError
from zope.security.checker import ProxyFactory
from zope.security.checker import defineChecker
from zope.security.checker import getCheckerForInstancesOf
from zope.security.checker import moduleChecker
from zope.security.checker import selectChecker
from zope.security.checker import undefineChecker
from zope.security.proxy import Proxy
from zope.security.proxy import getChecker
from zope.security.proxy import getObject
from zope.security.proxy import removeSecurityProxy
from zope.testing.cleanup import cleanUp

ABSENT = object()
IS_C = zc._c_available


class Custom:
    """A checker written by an application."""

    def check(self, ob, name):
        pass

    check_getattr = check_setattr = check

    def proxy(self, ob):
        return ob


class CallableCustom(Custom):
    def __init__(self, world, result):
        self.world, self.result = world, result

    def __call__(self, ob):
        self.world.cb('factory', 'custom')
        return self.result


class Falsy(Custom):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Alike(Checker):
    """Equal to any other one, and false."""

    def __bool__(self):
        return False

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Raised(Exception):
    pass


class World(Base):

    TAGS = ('C08',)

    def setup(self):
        cleanUp()
        self.reg = dict(zc._checkers)
        self.basic = {}
        self.defaults = dict(self.reg)
        self.default = selectChecker(types.SimpleNamespace())
        self.per = {}

    def teardown(self):
        for t in self.basic:
            dict.pop(zc.BasicTypes, t, None)
        cleanUp()

    # -- one thread's things -------------------------------------------------

    def thread(self, tid):
        c = self.case['threads'][tid]
        self.per[tid] = d = {'objs': {}, 'proxies': []}
        self.build_entries(d, c)
        self.build_types(d, c)
        for n, o in enumerate(c['objs']):
            d['objs'][n] = self.build_obj(d, o)
        Base.thread(self, tid)

    def build_entries(self, d, c):
        world = self
        made = []
        d['entries'] = made
        d['model'] = model = []
        for n, (kind, arg) in enumerate(c['entries']):
            if kind == 'checker':
                e = Checker({'a': 'p%d' % n})
                m = ('checker', e)
            elif kind == 'sub':
                class Sub(Checker):
                    pass
                e = (Alike if arg % 2 else Sub)({'a': 'p%d' % n})
                m = ('checker', e)
            elif kind == 'combined':
                e = zc.CombinedChecker(Checker({}), Checker({}))
                m = ('checker', e)
            elif kind == 'noproxy':
                e = zc.NoProxy
                m = ('noproxy',)
            elif kind == 'custom':
                e = Custom()
                m = ('bad',)
            elif kind == 'ccustom':
                e = CallableCustom(self, made[arg % len(made)]
                                   if made else zc.NoProxy)
                m = ('factory', 'custom',
                     model[arg % len(made)] if made else ('noproxy',))
            else:
                if kind == 'none':
                    result, m = None, ('none',)
                elif kind == 'flip':
                    result, m = None, None
                elif made:
                    result = made[arg % len(made)]
                    m = model[arg % len(made)]
                else:
                    result, m = zc.NoProxy, ('noproxy',)

                def e(ob, n=n, kind=kind, result=result, arg=arg):
                    world.cb('factory', n)
                    if kind == 'raise':
                        raise Raised
                    if kind == 'undef':
                        # changes the registration it came from
                        t = d['types'][arg % len(d['types'])]
                        if t in world.reg:
                            del world.reg[t]
                            undefineChecker(t)
                    if kind == 'flip':
                        d['flips'] = d.get('flips', 0) + 1
                        if d['flips'] % 2 and made:
                            return made[arg % n] if n else None
                        return None
                    return result
                if kind == 'flip':
                    m = ('flip', n, model[arg % n] if n else ('none',))
                elif kind == 'raise':
                    m = ('raise', n)
                elif kind == 'undef':
                    m = ('undef', n, m)
                else:
                    m = ('factory', n, m)
            made.append(e)
            model.append(m)

    def build_types(self, d, c):
        world = self
        d['types'] = ts = []

        class Meta(type):

            def __hash__(cls):
                f = world.fault_at.get(world.k.tid)
                if f and f[0] == 'hash':
                    world.cb('hash')
                return type.__hash__(cls)
        for n, (kind, own) in enumerate(c['types']):
            ns = {}
            if own == 'class':
                e = d['entries'][n % len(d['entries'])]
                ns['__Security_checker__'] = (
                    staticmethod(e) if type(e) is types.FunctionType else e)
            elif own == 'raise':
                def get(ob):
                    world.cb('own')
                    raise Raised
                ns['__Security_checker__'] = property(get)
            elif own == 'attrerr':
                def get(ob):
                    world.cb('own')
                    raise AttributeError('x')
                ns['__Security_checker__'] = property(get)
            elif own == 'prop':
                def get(ob):
                    world.cb('own')
                    return ob.mine
                ns['__Security_checker__'] = property(get)
            base = (object,)
            if kind == 'sub' and ts:
                base = (ts[n % len(ts)],)
                if base[0] in (types.ModuleType,) or not isinstance(
                        base[0], type):
                    base = (object,)
            elif kind == 'list':
                base = (list,)
            elif kind == 'int':
                base = (int,)
            elif kind == 'liar' and ts:
                other = ts[n % len(ts)]
                ns['__class__'] = property(lambda ob: other)
            if kind == 'module':
                ts.append(types.ModuleType('m%d' % n))
                continue
            meta = Meta if kind == 'meta' else type(base[0])
            if kind == 'modtype':
                base = (types.ModuleType,)
            try:
                t = meta('T%d' % n, base, ns)
            except TypeError:
                t = type('T%d' % n, (), {})
            ts.append(t)

    def build_obj(self, d, o):
        t = d['types'][o['t'] % len(d['types'])]
        if o['k'] == 'type' or not isinstance(t, type):
            return t
        if issubclass(t, types.ModuleType):
            ob = t('mm')
        else:
            ob = t()
        if o.get('own') is not None:
            try:
                v = {'none': None, 'falsy': Falsy(),
                     'str': 'a string'}.get(o['own'], ABSENT)
                if v is ABSENT:
                    v = d['entries'][o['own'] % len(d['entries'])]
                try:
                    ob.__Security_checker__ = v
                except AttributeError:
                    ob.mine = v
            except (AttributeError, TypeError):
                pass
        return ob

    # -- the model ------------------------------------------------------------

    def select(self, d, ob, calls):
        """-> ('checker', c) or ('none',) or ('raise',...) per the model"""
        e = self.reg.get(type(ob), self.default)
        if e is zc.NoProxy:
            return ('none',)
        return self.follow(d, e, ob, calls)

    def follow(self, d, e, ob, calls):
        if isinstance(e, Checker):
            return ('checker', e)
        if e is self.reg.get(types.ModuleType) and issubclass(
                type(ob), types.ModuleType) and all(
                    e is not x for x in d['entries']):
            # the module factory
            e2 = self.reg.get(ob)
            if e2 is None:
                return ('checker', zc._namedChecker)
            if e2 is zc.NoProxy:
                return ('none',)
            return self.follow(d, e2, ob, calls)
        for x, m in zip(d['entries'], d['model']):
            if x is e:
                return self.run(d, m, calls)
        return ('unknown',)

    def run(self, d, m, calls):
        while True:
            if m[0] == 'checker':
                return m
            if m[0] in ('noproxy', 'none'):
                return ('none',)
            if m[0] == 'bad':
                return ('exc', 'TypeError')
            calls.append(m[1])
            if m[0] == 'raise':
                return ('exc', 'Raised')
            if m[0] == 'flip':
                # the factory has been called already: see d['flips']
                d['mflips'] = d.get('mflips', 0) + 1
                if not d['mflips'] % 2:
                    return ('none',)
                m = m[2]
            else:
                m = m[2]

    def own(self, d, ob):
        """What the object says about its own checker."""
        try:
            self.muted = True
            return getattr(ob, '__Security_checker__')
        except AttributeError:
            return ABSENT
        except Raised:
            return Raised
        except BaseException:
            return ABSENT
        finally:
            self.muted = False

    def whole(self, what):
        got = zc._checkers
        self.expect(len(got) == len(self.reg), 'registry-size:' + what,
                    expected=len(self.reg), observed=len(got))
        for t, v in self.reg.items():
            self.expect(got.get(t, ABSENT) is v, 'registry:' + what,
                        type=getattr(t, '__name__', '?'))

    # -- operations -----------------------------------------------------------

    def op(self, tid, o):
        out = getattr(self, 'op_' + o['o'])(tid, self.per[tid], o)
        if len(self.case['threads']) == 1:
            self.whole(o['o'])
        else:
            for t in self.per[tid]['types']:
                self.expect(zc._checkers.get(t, ABSENT)
                            is self.reg.get(t, ABSENT),
                            'registry:' + o['o'])
        return out

    def hash_failed(self, tid, r, what):
        """Has a class failed to say its hash?"""
        if self.fired(tid) != 'hash':
            return False
        self.expect(r[0] == 'exc' and injected(r[1]), 'hash-failure:' + what,
                    _tags=('C03', 'C08'), observed=show(r))
        return True

    def thing(self, d, o):
        return d['types'][o['t'] % len(d['types'])]

    def op_define(self, tid, d, o):
        t = self.thing(d, o)
        if o.get('what') == 'junk':
            t = ['x', 1, None, (), Checker({}), object()][o['t'] % 6]
        e = d['entries'][o['e'] % len(d['entries'])]
        r = self.call(tid, o.get('f'), defineChecker, t, e)
        if self.hash_failed(tid, r, 'define'):
            return 'failed'
        if not isinstance(t, (type, types.ModuleType)):
            self.expect(exc_name(r) == 'TypeError', 'define-junk',
                        observed=show(r))
            return 'junk'
        if t in self.reg:
            self.expect(r[0] == 'exc' and isinstance(
                r[1], DuplicationError), 'define-twice', observed=show(r))
            return 'twice'
        self.expect(r == ('ret', None), 'define-failed', observed=show(r))
        self.reg[t] = e
        return 'defined'

    def op_undefine(self, tid, d, o):
        t = self.thing(d, o)
        r = self.call(tid, o.get('f'), undefineChecker, t)
        if self.hash_failed(tid, r, 'undefine'):
            return 'failed'
        if t not in self.reg:
            self.expect(exc_name(r) == 'KeyError', 'undefine-missing',
                        observed=show(r))
            return 'missing'
        self.expect(r == ('ret', None), 'undefine-failed', observed=show(r))
        del self.reg[t]
        return 'undefined'

    def op_lookup(self, tid, d, o):
        t = self.thing(d, o)
        fn = moduleChecker if o.get('mod') else getCheckerForInstancesOf
        r = self.call(tid, o.get('f'), fn, t)
        if self.hash_failed(tid, r, 'lookup'):
            return 'failed'
        self.expect(r[0] == 'ret' and r[1] is self.reg.get(t), 'lookup',
                    observed=show(r))
        return r[1] is None

    def op_basic(self, tid, d, o):
        if len(self.case['threads']) > 1:
            return
        t = self.thing(d, o)
        how = o['how']
        bt = zc.BasicTypes
        e = d['entries'][o['e'] % len(d['entries'])]
        if how == 'set':
            r = self.call(tid, None, bt.__setitem__, t, e)
            self.expect(r == ('ret', None), 'basic-set', observed=show(r))
            self.reg[t] = self.basic[t] = e
        elif how == 'update':
            r = self.call(tid, None, bt.update, {t: e})
            self.expect(r == ('ret', None), 'basic-update', observed=show(r))
            self.reg[t] = self.basic[t] = e
        elif how == 'clear':
            r = self.call(tid, None, bt.clear)
            self.expect(exc_name(r) == 'NotImplementedError', 'basic-clear',
                        observed=show(r))
        else:
            if t in self.basic and t not in self.reg:
                return 'odd'
            r = self.call(tid, None, bt.__delitem__, t)
            if t not in self.basic:
                self.expect(exc_name(r) == 'KeyError', 'basic-del-missing',
                            observed=show(r))
            else:
                self.expect(r == ('ret', None), 'basic-del',
                            observed=show(r))
                del self.basic[t]
                self.reg.pop(t, None)
        for t, e in self.basic.items():
            self.expect(bt.get(t, ABSENT) is e, 'basic-content')
        return how

    def op_cleanup(self, tid, d, o):
        if len(self.case['threads']) > 1:
            return
        cleanUp()
        self.reg = dict(self.defaults)
        self.reg.update(self.basic)
        return 'clean'

    def judge(self, tid, d, r, want, calls, mark, what):
        """Compare calls of factories and the outcome."""
        got = [x[2] for x in self.log[mark:]
               if x[0] == tid and x[1] == 'factory']
        fired = self.fired(tid)
        if self.hash_failed(tid, r, what):
            return None
        if fired == 'factory':
            self.expect(got == calls[:len(got)], 'factory-calls:' + what)
            self.expect(r[0] == 'exc' and injected(r[1]),
                        'failure-lost:' + what, observed=show(r))
            # the model went on to the end
            return None
        self.expect(got == calls, 'factory-calls:' + what, expected=calls,
                    observed=got)
        if want[0] == 'exc':
            self.expect(exc_name(r) == want[1], 'select-error:' + what,
                        observed=show(r))
            return None
        self.expect(r[0] == 'ret', 'select-failed:' + what,
                    observed=show(r), expected=want[0])
        return want

    def model_select(self, d, ob, calls):
        if issubclass(type(ob), BaseException):
            return None
        saved = dict(self.reg)
        flips = d.get('mflips', 0)
        d['mflips'] = d.get('flips', 0)
        w = self.select(d, ob, calls)
        self.after = (saved, flips)
        return w

    def op_select(self, tid, d, o):
        ob = self.obj(d, o)
        calls, mark = [], len(self.log)
        want = self.model_select(d, ob, calls)
        r = self.call(tid, o.get('f'), selectChecker, ob)
        if self.judge(tid, d, r, want, calls, mark, 'select') is None:
            return 'exc'
        if want[0] == 'none':
            self.expect(r[1] is None, 'select-none', observed=show(r))
        elif want[0] == 'checker':
            self.expect(r[1] is want[1], 'select', observed=show(r))
        return want[0]

    def obj(self, d, o):
        n = o['ob'] % (len(d['objs']) + len(d['proxies']))
        if n < len(d['objs']):
            return d['objs'][n]
        return d['proxies'][n - len(d['objs'])][0]

    def op_proxy(self, tid, d, o):
        """ProxyFactory, or a checker's proxy method."""
        ob = self.obj(d, o)
        how = o['how']
        calls, mark = [], len(self.log)
        given = None
        if how == 'given':
            given = [e for e, m in zip(d['entries'], d['model'])
                     if m[0] == 'checker'] or [Checker({})]
            given = given[o['e'] % len(given)]
        via = Checker({}).proxy if how == 'checker' else ProxyFactory
        args = (ob,) if given is None else (ob, given)
        if type(ob) is Proxy:
            has = next(c for p, raw, c in d['proxies'] if p is ob)
            if how == 'same':
                args = (ob, has)
            r = self.call(tid, o.get('f'), via, *args)
            if given is not None and given is not has:
                self.expect(exc_name(r) == 'TypeError', 'rechecker',
                            observed=show(r))
            else:
                self.expect(r[0] == 'ret' and r[1] is ob, 'proxy-again',
                            observed=show(r))
            self.expect(getChecker(ob) is has, 'checker-changed')
            return 'again'
        if given is None:
            own = self.own(d, ob)
            if own is None and how == 'checker' and IS_C:
                r = self.call(tid, o.get('f'), via, *args)
                if self.fired(tid) and r[0] == 'ret':
                    return 'own-failed'     # (an AttributeError)
                self.expect(r[0] == 'exc', 'none-checker', observed=show(r))
                return 'none-checker'
            if own is Raised:
                want = ('exc', 'Raised')
            elif own is ABSENT or own is None:
                want = self.model_select(d, ob, calls)
            else:
                want = ('checker', own)
        else:
            want = ('checker', given)
        r = self.call(tid, o.get('f'), via, *args)
        if self.fired(tid) == 'own':
            f = o['f']
            if EXCS[f[2]] is not AttributeError:
                self.expect(r[0] == 'exc' and injected(r[1]),
                            'failure-lost:own', observed=show(r))
            # (an AttributeError says that there is none)
            return 'own-failed'
        if self.judge(tid, d, r, want, calls, mark, how) is None:
            return 'exc'
        if want[0] == 'none':
            self.expect(r[1] is ob, 'unproxied', observed=repr(type(r[1])))
            return 'none'
        if want[0] == 'unknown':
            return 'unknown'
        p = r[1]
        self.expect(type(p) is Proxy, 'not-proxied',
                    observed=type(p).__name__)
        self.expect(getChecker(p) is want[1], 'proxy-checker',
                    observed=type(getChecker(p)).__name__)
        self.expect(getObject(p) is ob and removeSecurityProxy(p) is ob,
                    'proxy-object')
        if len(d['proxies']) < 6:
            d['proxies'].append((p, ob, want[1]))
        return 'proxied'


def gen_thread(rng, faults, single):
    nt = rng.randrange(2, 7)
    c = {'types': [[pick(rng, [('plain', 4), ('sub', 4), ('meta', 2.5),
                               ('list', 1), ('int', 1), ('liar', 1),
                               ('module', 2), ('modtype', .5)]),
                    pick(rng, [('', 8), ('class', 1), ('raise', .5),
                               ('attrerr', .7), ('prop', 1)])]
                   for _ in range(nt)],
         'entries': [[pick(rng, [('checker', 5), ('sub', 1), ('combined', 1),
                                 ('noproxy', 2), ('custom', .5),
                                 ('ccustom', .5), ('none', 1),
                                 ('raise', .7), ('flip', .9),
                                 ('undef', .7), ('to', 7)]),
                      rng.randrange(8)] for _ in range(rng.randrange(2, 8))]}
    c['objs'] = [{'t': rng.randrange(8),
                  'k': rng.choice(['inst', 'inst', 'inst', 'type']),
                  'own': pick(rng, [(None, 8), ('none', .7), ('falsy', .5),
                                    ('str', .2), (rng.randrange(8), 2)])}
                 for _ in range(rng.randrange(2, 7))]
    ops = [{'o': 'define', 't': t, 'e': rng.randrange(8)}
           for t in range(nt) if rng.random() < .6]
    for _ in range(rng.choice([8, 16, 40])):
        k = pick(rng, [('define', 5), ('undefine', 1.5), ('lookup', 1),
                       ('basic', 2), ('cleanup', .3), ('select', 4),
                       ('proxy', 7)])
        o = {'o': k, 't': rng.randrange(8), 'e': rng.randrange(8),
             'ob': rng.randrange(12)}
        if k == 'define' and rng.random() < .1:
            o['what'] = 'junk'
        elif k == 'lookup':
            o['mod'] = rng.random() < .4
        elif k == 'basic':
            o['how'] = rng.choice(['set', 'set', 'update', 'del', 'clear'])
        elif k == 'proxy':
            o['how'] = pick(rng, [('factory', 5), ('checker', 3),
                                  ('given', 2), ('same', 1)])
        if faults and k in ('select', 'proxy') and rng.random() < .3:
            o['f'] = [rng.choice(['factory', 'factory', 'own']),
                      rng.choice([0, 0, 0, 1]), rng.choice(BASE_EXC)]
        if faults and rng.random() < .15 and k in (
                'select', 'proxy', 'define', 'undefine', 'lookup'):
            o['f'] = ['hash', 1 if k == 'define' and rng.random() < .5 else 0,
                      rng.choice(BASE_EXC)]
        ops.append(o)
    c['ops'] = ops
    return c


def generate(rng, profile):
    nt = pick(rng, [(1, 6), (2, 2), (3, 1)])
    case = sched_params(rng, nt)
    faults = rng.random() < .5
    case['threads'] = [gen_thread(rng, faults, nt == 1) for _ in range(nt)]
    return case


def execute(case, schedule=None):
    return World(case, schedule).go()
