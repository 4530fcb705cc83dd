"""Histories of beginning, ending, restoring and scoping interactions."""
from base import BASE_EXC
from base import LINE_EXC
from base import Base
from base import Stop
from base import exc_name
from base import injected
from base import outcome
from base import pick
from base import sched_params
from base import show
from world import Same

import zope.security.management as zm
import zope.security.testing as zt
from zope.security._definitions import system_user
from zope.security.checker import CheckerPublic
from zope.security.interfaces import IGroupAwarePrincipal
from zope.security.interfaces import NoInteraction
from zope.security.simplepolicies import ParanoidSecurityPolicy
from zope.security.simplepolicies import PermissiveSecurityPolicy


class Participation:
    def __init__(self, world, principal):
        self.world = world
        self.principal = principal
        self._i = None

    @property
    def interaction(self):
        self.world.cb('part')
        return self._i

    @interaction.setter
    def interaction(self, value):
        self.world.cb('part')
        self._i = value


class Custom:
    """What a policy written by an application makes."""

    def __init__(self, world, label, parts):
        self.world = world
        self.label = label
        self.participations = list(parts)

    def checkPermission(self, permission, object):
        self.world.cb('ask', self.label, permission)
        return self.world.answer(self.label, permission)


class Odd(Custom):
    """One that looks like none."""

    def __len__(self):
        return 0

    def __eq__(self, other):
        return other is None or other is False

    __hash__ = None


UNSET = 'unset'
SAME = Same()


class World(Base):

    TAGS = ('C06', 'C05')

    def setup(self):
        self.always_traced = any(
            (o.get('f') or [''])[0] == 'line'
            for th in self.case['threads'] for o in flat(th['ops']))
        self.policies = [ParanoidSecurityPolicy, PermissiveSecurityPolicy,
                         self.custom_policy(2), self.custom_policy(3)]
        self.old = zm.setSecurityPolicy(self.policies[0])
        self.current = 0          # thread 0 alone changes it
        self.pending = None
        self.active = {}          # tid -> interaction or None
        self.prev = {}            # tid -> interaction or None (== nothing)
        self.made = []            # (interaction, policy, parts)
        self.answers = {}
        self.gens = {}
        self.n = 0

    def teardown(self):
        zm.setSecurityPolicy(self.old)

    def custom_policy(self, n):
        def policy(*parts):
            self.cb('policy', n)
            self.n += 1
            i = (Odd if n == 3 else Custom)(self, n, parts)
            self.cb('policy-made', n)
            return i
        return policy

    def answer(self, label, permission):
        return self.answers.setdefault((label, permission), [])

    # -- the model ----------------------------------------------------------

    def check_state(self, tid, what):
        """The thread sees what it should."""
        exp = self.active.get(tid)
        q = zm.queryInteraction()
        if q is not exp:
            self.bad('state:' + what, expected=self.name(exp),
                     observed=self.name(q))
        g = outcome(zm.getInteraction)
        if exp is None:
            self.expect(exc_name(g) == 'NoInteraction', 'get:' + what,
                        observed=self.name(g[1]))
        else:
            self.expect(g[0] == 'ret' and g[1] is exp, 'get:' + what,
                        observed=self.name(g[1]))

    def check_line(self, tid, what, before, after, old_prev, new_prev):
        """After an interrupt: before or after, in each respect."""
        q = zm.queryInteraction()
        if q is not before and q is not after:
            self.bad('interrupted:' + what, observed=self.name(q))
        self.active[tid] = q
        # learn what is remembered by restoring it
        self.muted = True
        zm.restoreInteraction()
        r = zm.queryInteraction()
        self.muted = False
        if r is not old_prev and r is not new_prev:
            self.bad('interrupted-remembered:' + what,
                     observed=self.name(r))
        self.prev[tid] = r
        self.active[tid] = r

    def name(self, i):
        if i is None:
            return 'none'
        if isinstance(i, BaseException):
            return type(i).__name__
        for n, (j, pol, parts) in enumerate(self.made):
            if i is j:
                return 'interaction %d' % n
        return type(i).__name__

    def known(self, i, allowed, parts):
        """A new interaction is a fresh one, of the policy that is current."""
        for j, _, _ in self.made:
            self.expect(i is not j, 'not-fresh')
        kind = {ParanoidSecurityPolicy: 0, PermissiveSecurityPolicy: 1}.get(
            type(i))
        if kind is None:
            kind = getattr(i, 'label', None)
        self.expect(kind in allowed, 'wrong-policy', observed=kind,
                    allowed=sorted(allowed))
        self.expect(len(i.participations) == len(parts) and all(
            a is b for a, b in zip(i.participations, parts)),
            'participations')
        self.made.append((i, kind, parts))

    # -- operations -----------------------------------------------------------

    def op(self, tid, o):
        out = getattr(self, 'op_' + o['o'])(tid, o)
        self.check_state(tid, o['o'])
        return out

    def fired_line(self, tid):
        return self.fired(tid) == 'line'

    def parts(self, o):
        out = []
        for p in o.get('parts') or ():
            out.append(Participation(
                self, system_user if p == 'sys' else p))
        return out

    def begin(self, tid, o):
        parts = self.parts(o)
        was = self.active.get(tid)
        allowed = {self.current}
        if self.pending is not None:
            allowed.add(self.pending)
        self.watch = self.watching = getattr(self, 'watching', {})
        self.watching[tid] = allowed
        r = self.call(tid, o.get('f'), zm.newInteraction, *parts)
        del self.watching[tid]
        return parts, was, allowed, r

    def op_new(self, tid, o):
        parts, was, allowed, r = self.begin(tid, o)
        if self.fired_line(tid):
            self.raised(r, 'new')
            q = zm.queryInteraction()
            if q is not was and was is None:
                self.known(q, allowed, parts)
                new = q
            else:
                new = was
            self.check_line(tid, 'new', was, new,
                            self.prev.get(tid), self.prev.get(tid))
            return 'interrupted'
        if was is not None:
            self.expect(exc_name(r) == 'ExistingInteraction', 'second-new',
                        observed=self.name(r[1]))
            self.expect(isinstance(r[1], (ValueError, AssertionError)),
                        'second-new-type')
            for p in parts:
                self.expect(p._i is None, 'second-new-changed')
            return 'refused'
        if r[0] == 'exc':
            self.expect(self.fired_op.get(tid) and injected(r[1]),
                        'new-failed', observed=repr(r[1]))
            return 'failed'
        self.expect(r[1] is None, 'new-result')
        q = zm.queryInteraction()
        self.expect(q is not None, 'new-none')
        self.expect(not self.fired_op.get(tid), 'new-ignored-failure')
        self.known(q, allowed, parts)
        self.active[tid] = q
        return 'begun'

    def op_end(self, tid, o):
        was, prev = self.active.get(tid), self.prev.get(tid)
        r = self.call(tid, o.get('f'), zm.endInteraction)
        if self.fired_line(tid):
            self.raised(r, 'end')
            self.check_line(tid, 'end', was, None, prev, was)
            return 'interrupted'
        self.expect(r[0] == 'ret' and r[1] is None, 'end-failed', observed=show(r))
        self.prev[tid], self.active[tid] = was, None
        return 'ended'

    def op_restore(self, tid, o):
        was, prev = self.active.get(tid), self.prev.get(tid)
        r = self.call(tid, o.get('f'), zm.restoreInteraction)
        if self.fired_line(tid):
            self.raised(r, 'restore')
            self.check_line(tid, 'restore', was, prev, prev, prev)
            return 'interrupted'
        self.expect(r[0] == 'ret' and r[1] is None, 'restore-failed', observed=show(r))
        self.active[tid] = prev
        return self.name(prev) if prev is not None else 'none'

    def op_query(self, tid, o):
        for f in zm.queryInteraction, zm.getInteraction:
            r = self.call(tid, o.get('f'), f)
            if self.fired_line(tid):
                self.raised(r, 'query')
        return 'query'

    def raised(self, r, what):
        self.expect(r[0] == 'exc' and injected(r[1]),
                    'interrupt-swallowed:' + what, observed=show(r))

    def op_policy(self, tid, o):
        if tid != 0:
            return 'skipped'
        n = o['n']
        self.pending = n
        for allowed in getattr(self, 'watching', {}).values():
            allowed.add(n)
        r = self.call(tid, o.get('f'), zm.setSecurityPolicy,
                      self.policies[n])
        if self.fired_line(tid):
            self.raised(r, 'policy')
            cur = zm.getSecurityPolicy()
            self.expect(cur is self.policies[self.current]
                        or cur is self.policies[n], 'interrupted-policy')
            self.current = self.policies.index(cur)
            self.pending = None
            return 'interrupted'
        self.expect(r[0] == 'ret' and r[1] is self.policies[self.current],
                    'old-policy')
        self.expect(zm.getSecurityPolicy() is self.policies[n],
                    'get-policy')
        self.current = n
        self.pending = None
        return n

    def op_check(self, tid, o):
        """checkPermission with the current or a given interaction."""
        perm = {'pub': CheckerPublic, 'none': None, 'same': SAME}.get(
            o['perm'], o['perm'])
        given = None
        if o.get('given') is not None and self.made:
            given = self.made[o['given'] % len(self.made)][0]
        ob = object()
        args = (perm, ob) if given is None else (perm, ob, given)
        r = self.call(tid, o.get('f'), zm.checkPermission, *args)
        if self.fired_line(tid):
            self.raised(r, 'check')
            return 'interrupted'
        if perm is None or perm is CheckerPublic:
            self.expect(r[0] == 'ret' and r[1] is True, 'public-check',
                        observed=show(r))
            return True
        i = given if given is not None else self.active.get(tid)
        if i is None:
            self.expect(exc_name(r) == 'NoInteraction', 'check-without',
                        observed=show(r))
            return 'NoInteraction'
        if self.fired_op.get(tid):
            self.expect(r[0] == 'exc' and injected(r[1]), 'check-failure',
                        observed=show(r))
            return 'failed'
        self.expect(r[0] == 'ret', 'check-failed', observed=show(r))
        if isinstance(i, Custom):
            self.expect(r[1] is self.answers.get((i.label, perm)),
                        'check-answer')
        elif type(i) is PermissiveSecurityPolicy:
            self.expect(r[1] is True, 'check-permissive')
        else:
            want = all(p.principal is system_user for p in i.participations)
            self.expect(r[1] is want, 'check-paranoid', observed=show(r))
        return 'asked'

    # scoped form

    def enter(self, tid, r_active):
        """Model: what entering the scope does; -> was it begun?"""
        return self.active.get(tid) is None

    def op_scoped(self, tid, o):
        how = o['leave']
        ran = []

        def body(principal):
            ran.append(1)
            self.expect(not self.fired(tid), 'scope-ignored-failure')
            self.disarm(tid)
            if fresh:
                q = zm.queryInteraction()
                self.expect(q is not None, 'scope-none')
                i = q
                self.expect(
                    len(i.participations) == 1
                    and i.participations[0].principal is principal
                    and principal.id == o['id'], 'scope-principal')
                self.made.append((i, None, list(i.participations)))
                self.active[tid] = i
                self.expect(principal.title == (o.get('title') or o['id']),
                            'scope-title')
                self.expect(IGroupAwarePrincipal.providedBy(principal)
                            == ('groups' in o), 'scope-groups')
            else:
                self.expect(principal is None, 'scope-inner-principal')
            self.check_state(tid, 'scope-entered')
            for x in o['body']:
                self.op(tid, x)
                self.k.point('op')
            if how.startswith('raise:'):
                from world import EXCS
                raise EXCS[how[6:]]('left')
            return 'left'

        fresh = self.active.get(tid) is None
        kw = {k: o[k] for k in ('title', 'groups') if k in o}

        def run():
            if how == 'deco':
                @zt.interaction(o['id'], **kw)
                def f():
                    # the decorated form gives no principal
                    q = zm.queryInteraction()
                    return body(q.participations[0].principal
                                if fresh and q is not None else None)
                return f()
            with zt.interaction(o['id'], **kw) as principal:
                return body(principal)
        r = self.call(tid, o.get('f'), run)
        if r[0] == 'exc' and not ran:
            # failed while beginning
            self.expect(self.fired_op.get(tid) and injected(r[1]),
                        'scope-begin-failed', observed=show(r))
            self.res.probe('scope-begin-failed')
            return 'failed'
        self.expect(ran, 'scope-body-skipped')
        if how.startswith('raise:'):
            self.expect(r[0] == 'exc' and r[1].args == ('left',),
                        'scope-exception', observed=show(r))
        else:
            self.expect(r == ('ret', 'left'), 'scope-result',
                        observed=show(r))
        self.leave(tid, fresh)
        return how

    def leave(self, tid, fresh):
        if fresh:
            self.prev[tid] = self.active.get(tid)
            self.active[tid] = None

    # suspended scopes: generators

    def op_gen(self, tid, o):
        stack = self.gens.setdefault(tid, [])
        how = o['how']
        if how == 'start':
            def gen():
                with zt.interaction(o['id']):
                    yield 1
                    yield 2
            fresh = self.active.get(tid) is None
            g = gen()
            r = self.call(tid, o.get('f'), next, g)
            if self.fired_op.get(tid) and r[0] == 'exc':
                return 'failed'
            self.expect(r == ('ret', 1), 'gen-start', observed=show(r))
            if fresh:
                q = zm.queryInteraction()
                self.expect(q is not None
                            and q.participations[0].principal.id == o['id'],
                            'gen-none')
                self.made.append((q, None, list(q.participations)))
                self.active[tid] = q
            stack.append((g, fresh))
            return 'started'
        if not stack:
            return 'skipped'
        g, fresh = stack.pop()
        if how == 'close':
            r = outcome(g.close)
            self.expect(r == ('ret', None), 'gen-close', observed=show(r))
        elif how == 'throw':
            from world import EXCS
            r = outcome(g.throw, EXCS[o['exc']]('left'))
            self.expect(r[0] == 'exc' and (
                r[1].args == ('left',) or (
                    o['exc'] == 'StopIteration'
                    and type(r[1]) is RuntimeError)),
                'gen-throw', observed=show(r))
        elif how == 'drop':
            del g
        else:
            outcome(next, g)
            r = outcome(next, g)
            self.expect(exc_name(r) == 'StopIteration', 'gen-end')
        self.leave(tid, fresh)
        return how

    def op_create(self, tid, o):
        """create_interaction"""
        was = self.active.get(tid)
        r = self.call(tid, o.get('f'), zt.create_interaction, o['id'])
        if was is not None:
            self.expect(exc_name(r) == 'ExistingInteraction',
                        'create-second', observed=show(r))
            return 'refused'
        if r[0] == 'exc':
            self.expect(self.fired_op.get(tid) and injected(r[1]),
                        'create-failed', observed=show(r))
            return 'failed'
        q = zm.queryInteraction()
        self.expect(q is not None, 'create-none')
        self.expect(len(q.participations) == 1 and
                    q.participations[0].principal is r[1] and
                    r[1].id == o['id'], 'create-principal')
        self.made.append((q, None, list(q.participations)))
        self.active[tid] = q
        return 'created'

    def body(self, tid):
        try:
            self.thread(tid)
        except Stop:
            pass
        finally:
            # suspended scopes must not end in another run
            self.muted = True
            for g, fresh in reversed(self.gens.get(tid, ())):
                try:
                    g.close()
                except BaseException:
                    pass
            self.muted = False


def flat(ops):
    for o in ops:
        yield o
        yield from flat(o.get('body') or ())


def gen_op(rng, depth, nt, tid, faults):
    k = pick(rng, [('new', 5), ('end', 4), ('restore', 3), ('query', 1),
                   ('policy', 2 if tid == 0 else 0), ('check', 3),
                   ('scoped', 3 if depth < 3 else 0), ('gen', 2),
                   ('create', 1)])
    o = {'o': k}
    if k == 'new':
        o['parts'] = [rng.choice(['sys', 'bob', 'ann'])
                      for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    elif k == 'policy':
        o['n'] = rng.randrange(4)
    elif k == 'check':
        o['perm'] = rng.choice(['pub', 'none', 'p', 'q', '', 'zope.Public', 'same'])
        if rng.random() < .3:
            o['given'] = rng.randrange(16)
    elif k == 'scoped':
        o['id'] = rng.choice(['bob', 'ann', 'x'])
        if rng.random() < .2:
            o['groups'] = ['g']
        if rng.random() < .2:
            o['title'] = 'Title'
        o['leave'] = rng.choice(['normal', 'normal', 'deco', 'raise:ValueError',
                                 'raise:KeyboardInterrupt',
                                 'raise:GeneratorExit', 'raise:SystemExit',
                                 'raise:InjectedBase', 'raise:Injected'])
        o['body'] = [gen_op(rng, depth + 1, nt, tid, False)
                     for _ in range(rng.randrange(0, 4))]
    elif k == 'gen':
        o['how'] = rng.choice(['start', 'start', 'close', 'throw', 'drop',
                               'finish'])
        o['id'] = rng.choice(['bob', 'ann'])
        if o['how'] == 'throw':
            o['exc'] = rng.choice(['ValueError', 'KeyboardInterrupt',
                                   'Injected', 'SystemExit'])
    elif k == 'create':
        o['id'] = rng.choice(['bob', 'ann'])
    if faults and rng.random() < 0.35:
        if k in ('new', 'end', 'restore', 'check', 'policy', 'query'):
            kind = rng.choice({'new': ['policy', 'policy-made', 'part',
                                       'part', 'line', 'line'],
                               'check': ['ask', 'line'],
                               }.get(k, ['line']))
        elif k in ('scoped', 'gen', 'create'):
            kind = 'policy'
        else:
            return o
        o['f'] = [kind, rng.randrange(0, 9 if kind == 'line' else 4)
                  if kind in ('line', 'part')
                  else 0, rng.choice(
            LINE_EXC if kind == 'line' else
            [e for e in BASE_EXC if e != 'StopIteration'])]
    return o


def generate(rng, profile):
    nt = pick(rng, [(1, 6), (2, 3), (3, 2)])
    case = sched_params(rng, nt)
    faults = rng.random() < 0.6
    case['threads'] = [
        {'ops': [gen_op(rng, 0, nt, t, faults) for _ in range(
            rng.choice([6, 14, 30]))]} for t in range(nt)]
    return case


def execute(case, schedule=None):
    return World(case, schedule).go()
