"""Configurations: generated directives, torn files, failing actions."""
import io
import sys
import types
from xml.sax.saxutils import quoteattr

from base import Base
from base import LINE_EXC
from base import outcome
from base import pick
from base import show

import zope.component
import zope.configuration.config as zconfig
import zope.configuration.xmlconfig as xmlconfig
import zope.schema
import zope.security
import zope.security.management as zm
from zope.configuration.exceptions import ConfigurationError
from zope.configuration.xmlconfig import ZopeSAXParseException
from zope.interface import Interface
from zope.security.checker import CheckerPublic
from zope.security.checker import NamesChecker
from zope.security.checker import ProxyFactory
from zope.security.checker import _available_by_default
from zope.security.checker import defineChecker
from zope.security.checker import getCheckerForInstancesOf
from zope.security.checker import moduleChecker
from zope.security.interfaces import ForbiddenAttribute
from zope.security.interfaces import IPermission
from zope.security.interfaces import Unauthorized
from zope.security.metaconfigure import protectModule
from zope.security.permission import Permission
from zope.security.permission import PermissionIdsVocabulary
from zope.security.permission import allPermissions
from zope.security.permission import checkPermission
from zope.security.protectclass import protectLikeUnto
from zope.security.protectclass import protectName
from zope.security.protectclass import protectSetAttribute
from zope.security.proxy import Proxy
from zope.security.simplepolicies import ParanoidSecurityPolicy
from zope.security.simplepolicies import PermissiveSecurityPolicy
from zope.testing.cleanup import cleanUp

MOD = 'simzcml'
NAMES = ['a', 'b', 'c', 'd', 'e', 'x', 'y', 'z', 'w']
UNIVERSE = NAMES + ['__len__', '__getitem__', '__call__', '__str__', 'foo']
PERMS = ['p.one', 'p.two', 'p.three', 'p.four']
PUBLIC = 'zope.Public'
CLASSES = ['K0', 'K1', 'K2', 'K3']
MODULES = ['simzcml_m0', 'simzcml_m1']


class IBoom(Interface):
    n = zope.schema.Int()


class BoomError(Exception):
    pass


def boom(_context, n):
    _context.action(discriminator=None, callable=_boom, args=(n,))


WORLD = [None]

INTERFACES = '''
import zope.schema
from zope.interface import Attribute
from zope.interface import Interface


class I0(Interface):
    a = Attribute('a')

    def b():
        "b"

class I1(I0):
    c = Attribute('c')

class I2(Interface):
    d = Attribute('d')

    def __len__():
        "len"

class S0(Interface):
    x = zope.schema.TextLine(title='x')
    y = zope.schema.TextLine(title='y', readonly=True)
    z = zope.schema.TextLine(title='z')

class S1(S0):
    w = zope.schema.TextLine(title='w')
    d = Attribute('d')

class S2(Interface):
    x = zope.schema.TextLine(title='x', readonly=True)
    a = zope.schema.Int(title='a')
'''


def _boom(n):
    w = WORLD[0]
    if w is not None:
        w.boom(n)


MACHINE = []


def machine():
    """A machine that knows the directives of zope.security."""
    if not MACHINE:
        m = zconfig.ConfigurationMachine()
        xmlconfig.registerCommonDirectives(m)
        xmlconfig.include(m, 'meta.zcml', zope.security)
        m.execute_actions()
        zconfig.defineSimpleDirective(
            m, 'boom', IBoom, boom, namespace='http://sim')
        MACHINE.append(m)
    base = MACHINE[0]
    m = zconfig.ConfigurationMachine()
    m._registry = dict(base._registry)
    m._docRegistry = list(base._docRegistry)
    m._features = set(getattr(base, '_features', ()))
    return m


def names_of(iface):
    """What the generated interfaces declare, by the specification."""
    return {'I0': ['a', 'b'], 'I1': ['a', 'b', 'c'],
            'I2': ['d', '__len__'],
            'S0': ['x', 'y', 'z'], 'S1': ['w', 'x', 'y', 'z', 'd'],
            'S2': ['x', 'a']}[iface]


def writable(schema):
    # y is readonly, d is an attribute and not a field; S2 makes x readonly
    return {'S0': ['x', 'z'], 'S1': ['w', 'x', 'z'], 'S2': ['a'],
            'I0': [], 'I1': [], 'I2': []}[schema]


class ReadError(OSError):
    pass


class Stream(io.RawIOBase):
    """A file that is read from the simulated disk."""

    def __init__(self, world, name, data, fault):
        self.world, self.name, self.data = world, name, data
        self.pos = 0
        self.fault = fault or {}

    def readable(self):
        return True

    def read(self, n=-1):
        w = self.world
        f = self.fault
        end = len(self.data)
        if 'cut' in f:
            end = min(end, f['cut'] % (len(self.data) + 1))
        if n is None or n < 0:
            n = end - self.pos
        if f.get('short'):
            n = min(n, 1 + w.srng.randrange(f['short']))
        if f.get('error') is not None:
            at = f['error'] % (len(self.data) + 1)
            if self.pos >= at:
                w.res.fault('disk:EIO')
                w.read_failed = True
                raise ReadError(5, 'Input/output error')
            n = min(n, at - self.pos)
        out = self.data[self.pos:min(self.pos + n, end)]
        self.pos += len(out)
        if self.pos >= end and self.data[end:].strip():
            w.res.fault('disk:truncated')
            w.truncated = True
        return out


class World(Base):

    TAGS = ('C11',)

    def setup(self):
        import random
        self.srng = random.Random(self.case['sched'])
        cleanUp()
        self.always_traced = any(
            (o.get('f') or [''])[0] == 'line'
            for o in self.case['threads'][0]['ops'])
        self.build()
        self.state = {'get': {}, 'set': {}, 'perms': set(), 'policy': None}
        self.clear()
        WORLD[0] = self
        self.real_open = xmlconfig.openInOrPlain
        xmlconfig.openInOrPlain = self.open
        self.grants = {}

    def clear(self):
        self.get = {c: {} for c in CLASSES + MODULES}
        self.set = {c: {} for c in CLASSES}
        self.perms = set()
        self.policy = ParanoidSecurityPolicy

    def teardown(self):
        xmlconfig.openInOrPlain = self.real_open
        WORLD[0] = None
        for m in [MOD] + MODULES:
            sys.modules.pop(m, None)
        cleanUp()

    def build(self):
        mod = types.ModuleType(MOD)
        sys.modules[MOD] = mod

        exec(INTERFACES, mod.__dict__)
        self.classes = {}
        for n, name in enumerate(CLASSES):
            ns = {x: 'v' for x in NAMES}
            ns['__module__'] = MOD
            ns['__len__'] = lambda self: 3
            base = (self.classes['K0'],) if name == 'K2' else ()
            k = type(name, base, ns)
            self.classes[name] = k
            setattr(mod, name, k)
        mod.policyA = ParanoidSecurityPolicy
        mod.policyB = PermissiveSecurityPolicy
        self.modules = {}
        for name in MODULES:
            m = types.ModuleType(name)
            for x in NAMES:
                setattr(m, x, 'v')
            sys.modules[name] = m
            self.modules[name] = m

    # -- files ----------------------------------------------------------------

    def open(self, path):
        base = path.rsplit('/', 1)[-1]
        if base not in self.files:
            # one of the repository's own, or a missing one
            return self.real_open(path)
        data = self.files[base].encode('utf-8')
        f = self.disk.get(base)
        if f and f.get('open'):
            self.res.fault('disk:open')
            self.read_failed = True
            raise ReadError(13, 'Permission denied')
        return Stream(self, path, data, f)

    def text(self, nodes):
        out = ['<configure xmlns="http://namespaces.zope.org/zope"'
               ' xmlns:meta="http://namespaces.zope.org/meta"'
               ' xmlns:s="http://sim" i18n_domain="t">']
        self.nodes_text(nodes, out)
        out.append('</configure>')
        return '\n'.join(out) + '\n'

    def nodes_text(self, nodes, out):
        for d in nodes:
            k = d['d']
            if k == 'permission':
                out.append('<permission id=%s title="t" />' % q(d['id']))
            elif k == 'redefine':
                out.append('<meta:redefinePermission from=%s to=%s />' % (
                    q(d['from']), q(d['to'])))
            elif k == 'policy':
                out.append('<securityPolicy component="%s.%s" />' % (
                    MOD, d['which']))
            elif k == 'boom':
                out.append('<s:boom n="%d" />' % d['n'])
            elif k == 'group':
                out.append('<configure>')
                self.nodes_text(d['in'], out)
                out.append('</configure>')
            elif k == 'include':
                out.append('<include file="%s" />' % d['file'])
            elif k == 'class':
                out.append('<class class="%s.%s">' % (MOD, d['class']))
                for s in d['subs']:
                    self.sub_text(s, out)
                out.append('</class>')
            elif k == 'module':
                out.append('<module module="%s">' % d['module'])
                for s in d['subs']:
                    self.sub_text(s, out)
                out.append('</module>')
            elif k == 'junk':
                out.append(d['text'])

    def sub_text(self, s, out):
        a = []
        if s.get('perm') is not None:
            a.append('permission=%s' % q(s['perm']))
        if s.get('attrs'):
            a.append('attributes=%s' % q(' '.join(s['attrs'])))
        if s.get('set'):
            a.append('set_attributes=%s' % q(' '.join(s['set'])))
        if s.get('ifaces'):
            a.append('interface=%s' % q(' '.join(
                '%s.%s' % (MOD, i) for i in s['ifaces'])))
        if s.get('schemas'):
            a.append('set_schema=%s' % q(' '.join(
                '%s.%s' % (MOD, i) for i in s['schemas'])))
        if s.get('like'):
            a.append('like_class="%s.%s"' % (MOD, s['like']))
        if s['s'] == 'implements':
            out.append('<implements interface="%s.%s" />' % (
                MOD, s['iface']))
            return
        if s['s'] == 'factory':
            out.append('<factory id="f.x%d" title="t" />' % s['id'])
            return
        out.append('<%s %s />' % (s['s'], ' '.join(a)))

    # -- the model of a configuration ----------------------------------------

    def actions(self, files, name, env, path, out, seen):
        """Collect the actions of a file; raises Invalid."""
        if name in seen:
            return
        if name not in files:
            raise Invalid('missing file')
        seen.add(name)
        self.node_actions(files, files[name], [dict(env)], path + (name,),
                          out, seen)

    def node_actions(self, files, nodes, env, path, out, seen):
        # env is a list so that redefinitions reach the rest of the group
        for d in nodes:
            k = d['d']
            if k == 'permission':
                need_id(d['id'])
                out.append((('permission', d['id']), path,
                            ('permission', d['id'])))
            elif k == 'redefine':
                self.need(d['from'], path, out)
                self.need(d['to'], path, out)
                e = dict(env[0])
                e[env[0].get(d['from'], d['from'])] = env[0].get(
                    d['to'], d['to'])
                env[0] = e
            elif k == 'policy':
                out.append((('policy',), path, ('policy', d['which'])))
            elif k == 'boom':
                out.append((None, path, ('boom', d['n'])))
            elif k == 'group':
                self.node_actions(files, d['in'], [env[0]], path, out, seen)
            elif k == 'include':
                self.actions(files, d['file'], env[0], path, out, seen)
            elif k == 'class':
                if d['class'] not in CLASSES:
                    raise Invalid('class')
                for s in d['subs']:
                    self.class_sub(d['class'], s, env[0], path, out)
            elif k == 'module':
                if d['module'] not in MODULES:
                    raise Invalid('module')
                for s in d['subs']:
                    self.module_sub(d['module'], s, env[0], path, out)
            elif k == 'junk':
                raise Invalid('junk')

    def need(self, perm, path, out):
        need_id(perm)
        if perm != PUBLIC:
            out.append((None, path, ('need', perm)))

    def class_sub(self, c, s, env, path, out):
        if s['s'] == 'implements':
            return
        if s['s'] == 'factory':
            out.append((('factory', s['id']), path, ('nothing',)))
            return
        for n in (s.get('attrs') or []) + (s.get('set') or []):
            need_name(n)
        perm = PUBLIC
        if s['s'] == 'require':
            perm = s.get('perm')
            if perm is not None:
                self.need(perm, path, out)
                perm = env.get(perm, perm)
        elif s.get('perm') is not None:
            raise Invalid('permission for allow')
        if s['s'] == 'allow' and (s.get('set') or s.get('schemas')
                                  or s.get('like')):
            raise Invalid('attributes of allow')
        if s.get('like'):
            if s['like'] not in CLASSES:
                raise Invalid('like')
            out.append((None, path, ('like', c, s['like'])))
        if not (s.get('attrs') or s.get('set') or s.get('ifaces')
                or s.get('schemas')):
            if s.get('like'):
                return
            raise Invalid('nothing required')
        if not perm:
            raise Invalid('no permission')
        for i in s.get('ifaces') or ():
            for n in sorted(names_of(i)):
                out.append((('get', c, n), path, ('get', c, n, perm)))
        for n in s.get('attrs') or ():
            out.append((('get', c, n), path, ('get', c, n, perm)))
        for n in s.get('set') or ():
            out.append((('set', c, n), path, ('set', c, n, perm)))
        for i in s.get('schemas') or ():
            for n in sorted(writable(i)):
                out.append((('set', c, n), path, ('set', c, n, perm)))

    def module_sub(self, m, s, env, path, out):
        if s['s'] not in ('require', 'allow'):
            raise Invalid('unknown for a module')
        if s.get('set') or s.get('schemas') or s.get('like'):
            raise Invalid('attributes')
        for n in s.get('attrs') or ():
            need_name(n)
        perm = PUBLIC
        if s['s'] == 'require':
            perm = s.get('perm')
            if perm is None:
                raise Invalid('no permission')
            self.need(perm, path, out)
            perm = env.get(perm, perm)
        elif s.get('perm') is not None:
            raise Invalid('permission for allow')
        seen = []
        for n in list(s.get('attrs') or ()) + [
                n for i in s.get('ifaces') or () for n in names_of(i)]:
            if n not in seen:
                seen.append(n)
                out.append((('get', m, n), path, ('get', m, n, perm)))

    def plan(self, files):
        """-> ('invalid',) or ('conflict',) or ('run', effects)"""
        out = []
        try:
            self.actions(files, 'main.zcml', {}, (), out, set())
        except Invalid as e:
            return ('invalid', str(e))
        groups = {}
        effects = []
        for i, (disc, path, eff) in enumerate(out):
            order = 9999999 if eff[0] == 'need' else 0
            if disc is None:
                effects.append((order, i, eff))
            else:
                groups.setdefault(disc, []).append((path, order, i, eff))
        for disc, g in groups.items():
            g.sort(key=lambda x: x[:3])
            path, order, i, eff = g[0]
            effects.append((order, i, eff))
            for p2, _, _, _ in g[1:]:
                if p2[:len(path)] != path or p2 == path:
                    return ('conflict',)
        effects.sort(key=lambda x: x[:2])
        return ('run', [e for _, _, e in effects])

    def effect(self, e):
        """-> False if it fails"""
        k = e[0]
        if k == 'permission':
            self.perms.add(e[1])
        elif k == 'policy':
            self.policy = (ParanoidSecurityPolicy if e[1] == 'policyA'
                           else PermissiveSecurityPolicy)
        elif k == 'need':
            return e[1] in self.perms
        elif k == 'get':
            self.get[e[1]][e[2]] = e[3]
        elif k == 'set':
            self.set[e[1]][e[2]] = e[3]
        elif k == 'like':
            self.get[e[1]].update(self.get[e[2]])
            self.set[e[1]].update(self.set[e[2]])
        elif k == 'boom':
            return e[1] != self.booms
        return True

    def boom(self, n):
        self.cb('boom', n)
        if n == self.booms:
            self.res.fault('action:raises')
            raise BoomError(n)

    def state_of(self):
        return ({k: dict(v) for k, v in self.get.items()},
                {k: dict(v) for k, v in self.set.items()})

    # -- looking --------------------------------------------------------------

    def subject(self, name):
        return self.classes.get(name) or self.modules[name]

    def declared(self, name):
        """What the code says is declared -> (get, set)"""
        s = self.subject(name)
        ck = (getCheckerForInstancesOf(s) if name in CLASSES
              else moduleChecker(s))
        get, set_ = {}, {}
        if ck is not None:
            for n in UNIVERSE:
                for fn, d in ((ck.permission_id, get),
                              (ck.setattr_permission_id, set_)):
                    p = fn(n)
                    if p is not None:
                        d[n] = PUBLIC if p is CheckerPublic else p
        return get, set_

    def look(self, what):
        for name in CLASSES + MODULES:
            get, set_ = self.declared(name)
            self.expect(get == self.get[name], 'read-declarations:' + what,
                        of=name, expected=self.get[name], observed=get)
            want = self.set.get(name, {})
            self.expect(set_ == want, 'write-declarations:' + what,
                        of=name, expected=want, observed=set_)
        self.expect(zm.getSecurityPolicy() is self.policy,
                    'policy:' + what)
        got = {n for n, _ in zope.component.getUtilitiesFor(IPermission)}
        self.expect(got == self.perms, 'permissions:' + what,
                    expected=sorted(self.perms), observed=sorted(got))

    # -- operations -----------------------------------------------------------

    def op(self, tid, o):
        out = getattr(self, 'op_' + o['o'])(tid, o)
        self.look(o['o'])
        return out

    def op_load(self, tid, o):
        files = o['files']
        self.files = {n: self.text(x) for n, x in files.items()}
        self.disk = o.get('disk') or {}
        self.booms = o.get('booms', -1)
        self.read_failed = self.truncated = False
        m = machine()
        before = self.state_of()
        plan = self.plan(files)
        ran = []
        real = zconfig.ConfigurationMachine.execute_actions

        def execute(*a, **kw):
            ran.append(1)
            return real(m, *a, **kw)
        m.execute_actions = execute
        r = self.call(tid, o.get('f'), xmlconfig.file, 'main.zcml',
                      None, m)
        if self.fired(tid) == 'line':
            return self.interrupted(before, plan, r)
        if self.read_failed or self.truncated:
            # (a file may be read to its end before it is cut)
            if not ran:
                self.expect(r[0] == 'exc', 'incomplete-accepted',
                            observed=show(r))
                self.expect(not self.read_failed or isinstance(
                    r[1], (ReadError, ConfigurationError)),
                    'read-error', observed=show(r))
                return 'unread'
            self.bad('incomplete-executed', observed=show(r))
        if plan[0] == 'invalid':
            self.expect(r[0] == 'exc', 'invalid-accepted', why=plan[1])
            self.expect(isinstance(r[1], (
                ConfigurationError, ZopeSAXParseException, OSError)),
                'invalid-error', observed=show(r))
            self.expect(not ran, 'invalid-executed')
            self.res.probe('config:invalid')
            return plan
        if plan[0] == 'conflict':
            self.expect(r[0] == 'exc' and isinstance(
                r[1], zconfig.ConfigurationConflictError),
                'conflict-accepted', observed=show(r))
            self.res.probe('config:conflict')
            return plan
        ok = True
        for e in plan[1]:
            ok = self.effect(e)
            if not ok:
                break
        if ok:
            self.expect(r[0] == 'ret', 'config-failed', observed=show(r))
            self.res.probe('config:good')
            return 'loaded', len(plan[1])
        self.expect(r[0] == 'exc' and isinstance(r[1], ConfigurationError),
                    'failing-accepted', effect=repr(e), observed=show(r))
        self.res.probe('config:failed')
        return 'failed', e

    def interrupted(self, before, plan, r):
        """Nothing but what was, or what one of the steps declares."""
        self.expect(r[0] == 'exc', 'interrupt-swallowed')
        may_get = {k: {n: {p} for n, p in v.items()}
                   for k, v in before[0].items()}
        may_set = {k: {n: {p} for n, p in v.items()}
                   for k, v in before[1].items()}
        if plan[0] == 'run':
            for e in plan[1]:
                if not self.effect(e):
                    break
                g, s = self.state_of()
                for may, d in ((may_get, g), (may_set, s)):
                    for k, v in d.items():
                        for n, p in v.items():
                            may[k].setdefault(n, set()).add(p)
        for name in CLASSES + MODULES:
            get, set_ = self.declared(name)
            for n, p in get.items():
                self.expect(p in may_get[name].get(n, ()),
                            'interrupted-read', of=name, name=n, got=p)
            for n in before[0][name]:
                self.expect(n in get, 'interrupted-lost', of=name, name=n)
            for n, p in set_.items():
                self.expect(p in may_set.get(name, {}).get(n, ()),
                            'interrupted-write', of=name, name=n, got=p)
            self.get[name] = get
            if name in CLASSES:
                self.set[name] = set_
        self.policy = zm.getSecurityPolicy()
        self.perms = {n for n, _ in zope.component.getUtilitiesFor(
            IPermission)}
        return 'interrupted'

    def op_call(self, tid, o):
        """The corresponding calls."""
        c, n, p = o['class'], o['name'], o['perm']
        how = o['how']
        if how == 'name':
            if n is None:
                return
            r = outcome(protectName, self.classes[c], n, p)
            self.get[c][n] = p
        elif how == 'set':
            r = outcome(protectSetAttribute, self.classes[c], n, p)
            self.set[c][n] = p
        elif how == 'like':
            r = outcome(protectLikeUnto, self.classes[c],
                        self.classes[o['other']])
            self.get[c].update(self.get[o['other']])
            self.set[c].update(self.set[o['other']])
        elif how == 'module':
            r = outcome(protectModule, self.modules[o['module']], n, p)
            self.get[o['module']][n] = p
        elif how == 'names':
            # a checker made by hand, later extended
            if getCheckerForInstancesOf(self.classes[c]) is not None:
                return 'has one'
            ck = NamesChecker([n], CheckerPublic if p == PUBLIC else p)
            r = outcome(defineChecker, self.classes[c], ck)
            self.get[c] = {n: p}
        elif how == 'perm':
            r = outcome(zope.component.provideUtility,
                        Permission(p), IPermission, p)
            self.perms.add(p)
        else:
            r = outcome(checkPermission, None,
                        CheckerPublic if p == PUBLIC else p)
            if p != PUBLIC and p not in self.perms:
                self.expect(r[0] == 'exc' and isinstance(r[1], ValueError),
                            'undefined-accepted', observed=show(r))
                return 'undefined'
            all_ = sorted(allPermissions())
            self.expect(all_ == sorted(self.perms - {PUBLIC}),
                        'all-permissions', observed=all_)
            toks = [t.token for t in PermissionIdsVocabulary()]
            want = sorted(self.perms - {PUBLIC})
            if PUBLIC in self.perms:
                want.insert(0, PUBLIC)
            self.expect(toks == want, 'vocabulary', observed=toks)
        self.expect(r == ('ret', None), 'call-failed:' + how,
                    observed=show(r))
        return how

    def op_cleanup(self, tid, o):
        cleanUp()
        self.clear()
        return 'clean'

    def op_use(self, tid, o):
        """Decisions about an instance, or a module."""
        name = o['subject']
        ob = (self.classes[name]() if name in CLASSES
              else self.modules[name])
        raw = ob
        p = ProxyFactory(ob)
        asked = []
        grants = set(o['grants'])

        class Policy:
            def __init__(self, *parts):
                self.participations = ()

            def checkPermission(self, permission, object):
                asked.append((permission, object is raw))
                return permission in grants
        old = zm.setSecurityPolicy(Policy)
        zm.newInteraction()
        try:
            self.expect(type(p) is Proxy, 'not-proxied')
            for n in NAMES + ['foo']:
                for kind in ('get', 'set'):
                    perm = (self.get[name] if kind == 'get'
                            else self.set.get(name, {})).get(n)
                    del asked[:]
                    if kind == 'get':
                        r = outcome(getattr, p, n)
                    else:
                        r = outcome(setattr, p, n, 'v')
                    e = type(r[1]) if r[0] == 'exc' else None
                    if perm == PUBLIC:
                        want = (None, [])
                    elif perm is None:
                        want = (ForbiddenAttribute, [])
                        if kind == 'get' and n in _available_by_default:
                            want = (None, [])
                    else:
                        want = (None if perm in grants else Unauthorized,
                                [(perm, True)])
                    if n == 'foo' and want[0] is None and kind == 'get':
                        want = (AttributeError, want[1])
                    self.expect(e is want[0], 'decision:' + kind, name=n,
                                of=name, perm=perm, expected=str(want[0]),
                                observed=show(r))
                    self.expect(
                        asked == want[1] or e is not None
                        and asked == want[1] * 2, 'asked:' + kind, name=n,
                        of=name, expected=want[1], observed=asked)
        finally:
            zm.endInteraction()
            zm.setSecurityPolicy(old)
        return 'used'


class Invalid(Exception):
    pass


def q(s):
    return quoteattr(s)


def need_id(p):
    if '.' not in p or ' ' in p:
        raise Invalid('permission id')


def need_name(n):
    if not n.isidentifier():
        raise Invalid('name')


# -- generation ---------------------------------------------------------------

def gen_perm(rng, bad):
    if rng.random() < bad:
        return rng.choice(['p.undefined', 'nodots', 'p.x y', 'p.Four'])
    return rng.choice(PERMS + [PUBLIC])


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.bad = rng.choice([0, 0, 0, .05, .15])
        self.used = set()
        self.dup = rng.choice([0, 0, 0, .1])
        self.fid = 0
        self.redefined = set()

    def free(self, kind, who, names):
        """Names without a conflict, mostly."""
        out = []
        for n in names:
            if (kind, who, n) not in self.used or (
                    self.rng.random() < self.dup):
                out.append(n)
        return out

    def take(self, kind, who, names):
        self.used.update((kind, who, n) for n in names)

    def sub(self, who, is_class):
        rng = self.rng
        if who not in ('K0', 'K2') and is_class and rng.random() < .08:
            return {'s': 'implements', 'iface': 'I0'}
        if is_class and rng.random() < .06:
            self.fid += 1
            return {'s': 'factory', 'id': self.fid}
        s = {'s': rng.choice(['require', 'require', 'require', 'allow'])}
        if s['s'] == 'require':
            s['perm'] = gen_perm(rng, self.bad)
            if rng.random() < self.bad:
                s['perm'] = None
        kinds = ['attrs', 'ifaces']
        if is_class and s['s'] == 'require':
            kinds += ['set', 'schemas', 'like']
        for k in rng.sample(kinds, rng.choice([1, 1, 1, 2, 3])
                            if len(kinds) > 2 else 1):
            if k == 'attrs':
                ns = self.free('get', who, rng.sample(
                    NAMES + ['__len__'], rng.randrange(1, 4)))
                if rng.random() < self.bad:
                    ns.append(rng.choice(['1a', 'a-b', 'a.b']))
                s['attrs'] = ns
                self.take('get', who, ns)
            elif k == 'set':
                ns = self.free('set', who, rng.sample(
                    NAMES, rng.randrange(1, 4)))
                s['set'] = ns
                self.take('set', who, ns)
            elif k == 'like':
                s['like'] = rng.choice(CLASSES)
                if rng.random() < self.bad:
                    s['like'] = 'Nope'
            else:
                kind = 'get' if k == 'ifaces' else 'set'
                fn = names_of if k == 'ifaces' else writable
                got = []
                for i in rng.sample(['I0', 'I1', 'I2', 'S0', 'S1', 'S2'],
                                    rng.choice([1, 1, 2])):
                    ns = fn(i)
                    if len(self.free(kind, who, ns)) == len(ns):
                        got.append(i)
                        self.take(kind, who, ns)
                if got:
                    s[k] = got
        if s.get('like') and not (s.get('attrs') or s.get('set')
                                  or s.get('ifaces') or s.get('schemas')):
            if rng.random() < .8:
                s.pop('perm', None)
        elif not any(s.get(k) for k in ('attrs', 'ifaces', 'set',
                                        'schemas')):
            if (rng.random() >= self.bad and is_class
                    and who not in ('K0', 'K2')):
                return {'s': 'implements', 'iface': 'I0'}
            if not is_class:
                s['attrs'] = self.free('get', who, ['foo'])
                self.take('get', who, ['foo'])
        return s

    def nodes(self, depth, files, n=None):
        rng = self.rng
        out = []
        for _ in range(n if n is not None else rng.randrange(1, 5)):
            k = pick(rng, [('class', 6), ('module', 2), ('redefine', 1.5),
                           ('group', 1 if depth < 2 else 0),
                           ('include', 1.2 if depth < 2 else 0),
                           ('policy', .5), ('boom', .7),
                           ('junk', 4 * self.bad)])
            if k == 'class':
                c = rng.choice(CLASSES)
                if rng.random() < self.bad / 2:
                    c = 'Nope'
                out.append({'d': 'class', 'class': c, 'subs': [
                    self.sub(c, True) for _ in range(rng.randrange(0, 4))]})
            elif k == 'module':
                m = rng.choice(MODULES)
                if rng.random() < self.bad / 2:
                    m = 'simzcml_nope'
                out.append({'d': 'module', 'module': m, 'subs': [
                    self.sub(m, False)
                    for _ in range(rng.randrange(0, 3))]})
            elif k == 'redefine':
                f, t = rng.choice(PERMS), gen_perm(rng, self.bad)
                out.append({'d': 'redefine', 'from': f, 'to': t})
            elif k == 'group':
                out.append({'d': 'group',
                            'in': self.nodes(depth + 1, files)})
            elif k == 'include':
                if rng.random() < self.bad / 2:
                    out.append({'d': 'include', 'file': 'missing.zcml'})
                    continue
                name = 'f%d.zcml' % len(files)
                files[name] = []
                files[name] = self.nodes(depth + 1, files)
                out.append({'d': 'include', 'file': name})
                if rng.random() < .1:
                    out.append({'d': 'include', 'file': name})
            elif k == 'policy':
                if ('policy',) in self.used and rng.random() < .9:
                    continue
                self.used.add(('policy',))
                out.append({'d': 'policy',
                            'which': rng.choice(['policyA', 'policyB'])})
            elif k == 'boom':
                out.append({'d': 'boom', 'n': rng.randrange(3)})
            else:
                out.append({'d': 'junk', 'text': rng.choice([
                    '<nosuch />', '<class />', '<require permission="p.one"'
                    ' attributes="a" />', '<class class="simzcml.K0">',
                    '<permission title="x" />',
                    '<permission id="p.zero" />',
                    '<class class="simzcml.K0" bogus="1" />',
                    '<class class="simzcml.K0"><require permission="p.one"'
                    ' attribute="a" /></class>',
                    '<meta:redefinePermission from="p.one" />',
                    '<module module="simzcml_m0"><require attributes="a" />'
                    '</module>', '&nosuch;'])})
        return out

    def config(self):
        rng = self.rng
        files = {}
        main = []
        for p in PERMS + [PUBLIC]:
            if rng.random() > (.02 if not self.bad else .08):
                main.append({'d': 'permission', 'id': p})
        if rng.random() < .5:
            rng.shuffle(main)
        files['main.zcml'] = main + self.nodes(0, files)
        if rng.random() < .2:
            # permissions may come last
            files['main.zcml'] = (files['main.zcml'][len(main):]
                                  + main)
        return files


def generate(rng, profile):
    faults = rng.random() < .6
    case = {'sched': rng.randrange(1 << 30), 'p_switch': 0}
    ops = []
    for _ in range(rng.choice([1, 2, 4])):
        for _ in range(rng.choice([0, 1, 2])):
            ops.append(gen_call(rng))
        g = Gen(rng)
        o = {'o': 'load', 'files': g.config()}
        if ops and rng.random() < .5 and any(
                x['o'] == 'load' for x in ops):
            # the permissions are there already
            for n, nodes in o['files'].items():
                o['files'][n] = [d for d in nodes
                                 if d['d'] != 'permission'] \
                    if rng.random() < .8 else nodes
        if faults:
            x = rng.random()
            if x < .35:
                f = rng.choice(sorted(o['files']))
                o['disk'] = {f: rng.choice([
                    {'cut': rng.randrange(1 << 20)},
                    {'error': rng.randrange(1 << 20)},
                    {'open': 1}, {'short': rng.choice([1, 7, 100])}])}
            elif x < .6:
                o['booms'] = rng.randrange(3)
            elif x < .8:
                o['f'] = ['line', rng.choice([
                    rng.randrange(40), rng.randrange(400)]),
                    rng.choice(LINE_EXC)]
        ops.append(o)
        for _ in range(rng.choice([1, 2, 3])):
            ops.append({'o': 'use',
                        'subject': rng.choice(CLASSES + MODULES),
                        'grants': rng.sample(PERMS, rng.randrange(4))})
        if rng.random() < .15:
            ops.append({'o': 'cleanup'})
    case['threads'] = [{'ops': ops}]
    return case


def gen_call(rng):
    return {'o': 'call', 'class': rng.choice(CLASSES),
            'other': rng.choice(CLASSES),
            'module': rng.choice(MODULES), 'name': rng.choice(NAMES),
            'perm': rng.choice(PERMS + [PUBLIC]),
            'how': rng.choice(['name', 'name', 'set', 'set', 'like', 'like',
                               'module', 'names', 'perm', 'check'])}


def execute(case, schedule=None):
    return World(case, schedule).go()
