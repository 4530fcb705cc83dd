"""Histories of participations and of questions to the default policies."""
from base import BASE_EXC
from base import Base
from base import injected
from base import pick
from base import sched_params
from base import show
from world import Same as SamePerm

import zope.security.management as zm
from zope.security._definitions import system_user
from zope.security.checker import CheckerPublic
from zope.security.checker import NamesChecker
from zope.security.checker import ProxyFactory
from zope.security.simplepolicies import ParanoidSecurityPolicy
from zope.security.simplepolicies import PermissiveSecurityPolicy


class Like:
    """Claims to be the system user."""

    id = system_user.id

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    def __hash__(self):
        return hash(system_user)


class Participation:

    def __init__(self, world, n, principal):
        self.world = world
        self.n = n
        self._p = principal
        self._i = None

    @property
    def principal(self):
        self.world.cb('principal', self.n)
        return self._p

    @property
    def interaction(self):
        self.world.cb('get', self.n)
        return self._i

    @interaction.setter
    def interaction(self, value):
        self.world.cb('set', self.n)
        self._i = value


class Same(Participation):
    """Equal to every other one of its kind."""

    def __eq__(self, other):
        return isinstance(other, Same)

    def __hash__(self):
        return 1


class World(Base):

    TAGS = ('C07',)

    def setup(self):
        self.like = Like()
        self.principals = {
            'sys': system_user, 'bob': 'bob', 'none': None,
            'like': self.like, 'proxied': ProxyFactory(
                system_user, NamesChecker(['id'])),
            'id': system_user.id, 'class': type(system_user)}
        self.perms = {'pub': CheckerPublic, 'none': None,
                      'system': system_user.id, 'same': SamePerm()}
        self.per = {}
        self.old = zm.setSecurityPolicy(ParanoidSecurityPolicy)

    def teardown(self):
        zm.setSecurityPolicy(self.old)

    def thread(self, tid):
        c = self.case['threads'][tid]
        parts = []
        for n, (kind, p) in enumerate(c['parts']):
            parts.append((Same if kind == 'same' else Participation)(
                self, n, self.principals[p]))
        self.per[tid] = {'parts': parts, 'inter': [], 'members': [],
                         'home': [None] * len(parts)}
        Base.thread(self, tid)
        zm.endInteraction()

    def op(self, tid, o):
        d = self.per[tid]
        out = getattr(self, 'op_' + o['o'])(tid, d, o)
        # membership and back references agree with the history
        for n, p in enumerate(d['parts']):
            self.expect(p._i is d['home'][n], 'back-reference', part=n)
        for i, m in zip(d['inter'], d['members']):
            got = [p.n for p in i.participations]
            self.expect(got == m, 'members', expected=m, observed=got)
        return out

    def failed(self, tid, r):
        if self.fired(tid):
            self.expect(r[0] == 'exc' and injected(r[1]),
                        'failure-lost', observed=show(r))
            return True
        return False

    def op_make(self, tid, d, o):
        policy = (PermissiveSecurityPolicy if o['perm']
                  else ParanoidSecurityPolicy)
        parts = [x % len(d['parts']) for x in o['parts']]
        made = []

        class Noting(policy):
            # to have the half-made one when this fails
            def __init__(self, *args):
                made.append(self)
                policy.__init__(self, *args)

            # it may look like none
            def __len__(self):
                return not o.get('odd')

            def __eq__(self, other):
                return bool(o.get('odd')) and other is None or self is other

            __hash__ = None
        mode = o['mode']
        if mode == 'current' and len(self.case['threads']) > 1:
            mode = 'direct'      # there is but one current policy
        if mode == 'current':
            zm.endInteraction()
            zm.setSecurityPolicy(Noting)
            fn = zm.newInteraction
        else:
            fn = Noting
        r = self.call(tid, o.get('f'), fn, *[d['parts'][x] for x in parts])
        self.expect(len(made) == 1, 'made')
        i = made[0]
        # the model: add them one by one, up to the first refused
        good = []
        refused = False
        for x in parts:
            if d['home'][x] is not None or x in good:
                refused = True
                break
            good.append(x)
        if self.failed(tid, r):
            # up to the one whose reading or setting failed
            got = [p.n for p in i.participations]
            self.expect(got == good[:len(got)], 'members-after-failure')
            good = got
        elif refused:
            self.expect(r[0] == 'exc' and isinstance(r[1], ValueError),
                        'second-home', observed=show(r))
        else:
            self.expect(r[0] == 'ret', 'make-failed', observed=show(r))
            if mode == 'current':
                self.expect(zm.queryInteraction() is i, 'make-current')
            else:
                self.expect(r[1] is i, 'make-result')
        for x in good:
            d['home'][x] = i
        d['inter'].append(i)
        d['members'].append(good)
        return len(good)

    def op_add(self, tid, d, o):
        if not d['inter']:
            return
        n = o['i'] % len(d['inter'])
        x = o['p'] % len(d['parts'])
        i, p = d['inter'][n], d['parts'][x]
        r = self.call(tid, o.get('f'), i.add, p)
        if self.failed(tid, r):
            return 'failed'
        if d['home'][x] is not None:
            self.expect(r[0] == 'exc' and type(r[1]) is ValueError,
                        'add-second-home', observed=show(r))
            return 'refused'
        self.expect(r == ('ret', None), 'add-failed', observed=show(r))
        d['home'][x] = i
        d['members'][n].append(x)
        return 'added'

    def op_remove(self, tid, d, o):
        if not d['inter']:
            return
        n = o['i'] % len(d['inter'])
        x = o['p'] % len(d['parts'])
        if o.get('member') and d['members'][n]:
            x = d['members'][n][o['p'] % len(d['members'][n])]
        i, p = d['inter'][n], d['parts'][x]
        r = self.call(tid, o.get('f'), i.remove, p)
        if self.failed(tid, r):
            if self.fired(tid) == 'set':
                # the participation itself is broken: it may have gone
                got = [q.n for q in i.participations]
                d['members'][n] = [y for y in d['members'][n]
                                   if y in got or y != x]
            return 'failed'
        if d['home'][x] is not i:
            self.expect(r[0] == 'exc' and type(r[1]) is ValueError,
                        'remove-foreign', observed=show(r))
            return 'refused'
        if x not in d['members'][n]:
            # left over from a failed removal: anything but a change
            return 'odd'
        self.expect(r == ('ret', None), 'remove-failed', observed=show(r))
        d['home'][x] = None
        d['members'][n].remove(x)
        return 'removed'

    def op_become(self, tid, d, o):
        x = o['p'] % len(d['parts'])
        d['parts'][x]._p = self.principals[o['who']]
        return o['who']

    def op_check(self, tid, d, o):
        if not d['inter']:
            return
        n = o['i'] % len(d['inter'])
        i = d['inter'][n]
        perm = self.perms.get(o['perm'], o['perm'])
        ob = object()
        how = o['how']
        if how == 'checker':
            # through a proxy, with this interaction
            if type(perm) is not str:
                return
            old = zm.queryInteraction()
            zm.thread_local.interaction = i
            checker = NamesChecker(['x'], perm)
            r = self.call(tid, o.get('f'), checker.check, ob, 'x')
            if old is None:
                del zm.thread_local.interaction
            else:
                zm.thread_local.interaction = old
            if r[0] == 'ret':
                r = ('ret', True)
            elif type(r[1]).__name__ == 'Unauthorized':
                r = ('ret', False)
        elif how == 'given':
            r = self.call(tid, o.get('f'), zm.checkPermission, perm, ob, i)
        else:
            r = self.call(tid, o.get('f'), i.checkPermission, perm, ob)
        if self.failed(tid, r):
            return 'failed'
        self.expect(r[0] == 'ret', 'check-failed', observed=show(r))
        want = all(d['parts'][x]._p is system_user for x in d['members'][n])
        if isinstance(i, PermissiveSecurityPolicy) or perm is CheckerPublic:
            want = True
        elif perm is None and how == 'given':
            want = True
        self.expect(r[1] is want, 'answer', expected=want,
                    observed=repr(r[1]), perm=o['perm'],
                    who=repr([type(d['parts'][x]._p).__name__
                              for x in d['members'][n]]))
        return r[1]


def gen_op(rng, faults):
    k = pick(rng, [('make', 3), ('add', 5), ('remove', 5), ('become', 2),
                   ('check', 8)])
    o = {'o': k, 'i': rng.randrange(8), 'p': rng.randrange(8)}
    if k == 'make':
        o['perm'] = rng.random() < .3
        o['odd'] = rng.random() < .3
        o['mode'] = rng.choice(['direct', 'current'])
        o['parts'] = [rng.randrange(8)
                      for _ in range(rng.choice([0, 0, 1, 1, 2, 3]))]
    elif k == 'remove':
        o['member'] = rng.random() < .6
    elif k == 'become':
        o['who'] = who(rng)
    elif k == 'check':
        o['perm'] = rng.choice(['pub', 'none', 'system', 'p', 'q',
                                'zope.Public', '', 'same'])
        o['how'] = rng.choice(['direct', 'given', 'checker'])
    if faults and rng.random() < .25 and k != 'become':
        o['f'] = [rng.choice({'check': ['principal'],
                              'remove': ['get', 'set'],
                              }.get(k, ['get', 'set'])),
                  rng.randrange(3) if k in ('check', 'make') else 0,
                  rng.choice(BASE_EXC)]
    return o


def who(rng):
    return pick(rng, [('sys', 8), ('bob', 3), ('none', 1), ('like', 1),
                      ('proxied', 1), ('id', 1), ('class', 1)])


def generate(rng, profile):
    nt = pick(rng, [(1, 5), (2, 2)])
    case = sched_params(rng, nt)
    faults = rng.random() < .6
    same = rng.choice([0, 0, .5])
    case['threads'] = [
        {'parts': [['same' if rng.random() < same else 'plain', who(rng)]
                   for _ in range(rng.randrange(1, 6))],
         'ops': [gen_op(rng, faults)
                 for _ in range(rng.choice([8, 16, 30]))]}
        for _ in range(nt)]
    return case


def execute(case, schedule=None):
    return World(case, schedule).go()
