"""The deterministic scheduler.

Real threads (``threading.local`` needs real ones) are parked and released one
at a time by a baton.  Who runs is decided at *points* only: callbacks of the
simulated world, and - where a case asks for it - every line or bytecode
executed by zope.security.  The decision comes from a seeded PRNG (exploration)
or from a recorded list of switches (replay); no other nondeterminism exists.
"""
import gc
import random
import sys
import threading
import types

import simlock

_ident = threading.get_ident


class Monitor:
    """Calls a kernel before every line or bytecode of zope.security.

    This uses sys.monitoring and not sys.settrace: raising from a trace
    function switches tracing off, which Python 3.12 does not survive while
    other threads are inside traced functions.
    """

    TOOL = 4

    def __init__(self):
        self.codes = []
        self.nmods = -1
        self.kernel = None
        self.ready = False

    def find(self):
        mods = [m for m in list(sys.modules) if m.startswith('zope.security')]
        if len(mods) == self.nmods:
            return
        self.nmods = len(mods)
        seen = {}
        todo = [f.__code__ for f in gc.get_objects()
                if type(f) is types.FunctionType]
        while todo:
            c = todo.pop()
            if c in seen:
                continue
            if ('/zope/security/' in c.co_filename
                    and '/tests/' not in c.co_filename):
                seen[c] = 1
                todo += [x for x in c.co_consts
                         if type(x) is types.CodeType]
        self.codes = list(seen)

    def start(self, kernel):
        m = sys.monitoring
        self.find()
        self.kernel = kernel
        if not self.ready:
            m.use_tool_id(self.TOOL, 'sim')
            m.register_callback(self.TOOL, m.events.LINE, self.line)
            m.register_callback(self.TOOL, m.events.INSTRUCTION, self.instr)
            self.ready = True
        ev = m.events.LINE
        if kernel.opcodes:
            ev |= m.events.INSTRUCTION
        for c in self.codes:
            m.set_local_events(self.TOOL, c, ev)

    def stop(self):
        m = sys.monitoring
        for c in self.codes:
            m.set_local_events(self.TOOL, c, 0)
        self.kernel = None

    def line(self, code, line):
        k = self.kernel
        if k is not None:
            k.event('line')

    def instr(self, code, offset):
        k = self.kernel
        if k is not None:
            k.event('opcode')


MONITOR = Monitor()


class HarnessError(Exception):
    """Something is wrong with the simulator itself, not with the code."""


class Task:
    __slots__ = ('tid', 'fn', 'lock', 'thread', 'state', 'error', 'traced',
                 'points', 'countdown', 'interrupt', 'fired', 'nlines',
                 'opcodes', 'ident')

    def __init__(self, tid, fn, traced, opcodes):
        self.tid = tid
        self.fn = fn
        self.lock = threading.Lock()
        self.lock.acquire()
        self.thread = None
        self.state = 'new'
        self.error = None
        self.traced = traced
        self.opcodes = opcodes
        self.points = 0
        self.countdown = None   # lines until the interrupt below
        self.interrupt = None
        self.fired = False
        self.nlines = 0
        self.ident = None


class Kernel:
    """One simulated run."""

    MAXPOINTS = 200000

    def __init__(self, seed=0, p_switch=0.3, schedule=None, traced=False,
                 opcodes=False):
        self.rng = random.Random(seed)
        self.p_switch = p_switch
        self.replay = None if schedule is None else {
            k: t for k, t in schedule}
        self.schedule = []      # recorded switches: [point, tid]
        self.npoints = 0
        self.tasks = []
        self.current = None
        self.main = threading.Lock()
        self.main.acquire()
        self.traced = traced
        self.opcodes = opcodes
        self.kinds = {}
        self.switches = 0

    # -- API for the world --------------------------------------------------

    def spawn(self, fn, traced=None):
        t = Task(len(self.tasks), fn,
                 self.traced if traced is None else traced, self.opcodes)
        self.tasks.append(t)
        t.state = 'ready'
        return t.tid

    @property
    def tid(self):
        c = self.current
        return -1 if c is None else c.tid

    def point(self, kind='cb'):
        """The running task may be preempted here."""
        me = self.current
        if me is None:
            return
        n = self.npoints
        self.npoints = n + 1
        me.points += 1
        if n > self.MAXPOINTS:
            raise HarnessError('too many points')
        if len(self.tasks) < 2:
            return
        others = [t for t in self.tasks
                  if t.state == 'ready' and t is not me]
        if not others:
            return
        if self.replay is not None:
            tid = self.replay.get(n)
            if tid is None:
                return
            nxt = next((t for t in others if t.tid == tid), None)
            if nxt is None:
                return
        else:
            if self.rng.random() >= self.p_switch:
                return
            nxt = others[self.rng.randrange(len(others))]
        self.schedule.append([n, nxt.tid])
        self.switches += 1
        self.kinds[kind] = self.kinds.get(kind, 0) + 1
        self._switch(me, nxt)

    def blocked(self):
        """The running task waits for a lock another one holds."""
        me = self.current
        self.npoints += 1
        if self.npoints > self.MAXPOINTS:
            raise HarnessError('too many points')
        n = len(self.tasks)
        for d in range(1, n):
            t = self.tasks[(me.tid + d) % n]
            if t.state == 'ready':
                self._switch(me, t)
                return
        raise RuntimeError('deadlock')

    # -- machinery ----------------------------------------------------------

    def _switch(self, me, nxt):
        me.state = 'ready'
        self._resume(nxt)
        me.lock.acquire()
        # running again; who released us has set current

    def _resume(self, t):
        t.state = 'running'
        self.current = t
        if t.thread is None:
            t.thread = threading.Thread(target=self._body, args=(t,),
                                        daemon=True)
            t.thread.start()
        t.lock.release()

    def _body(self, t):
        t.lock.acquire()
        try:
            t.ident = _ident()
            t.fn()
        except BaseException as e:
            t.error = e
        finally:
            t.state = 'done'
            t.fn = None
            self.main.release()

    def event(self, kind):
        """A line (or bytecode) of zope.security is about to be executed."""
        t = self.current
        if t is None or not t.traced or t.ident != _ident():
            return
        t.nlines += 1
        if t.countdown is not None:
            t.countdown -= 1
            if t.countdown < 0:
                t.countdown = None
                t.fired = True
                exc, t.interrupt = t.interrupt, None
                raise exc
        self.point(kind)

    def run(self, lines=False):
        """Run all tasks, also those spawned meanwhile, to their end."""
        simlock.KERNEL = self
        traced = lines or any(t.traced for t in self.tasks)
        if traced:
            MONITOR.start(self)
        try:
            self._run()
        finally:
            if traced:
                MONITOR.stop()
            simlock.KERNEL = None

    def _run(self):
        while True:
            ready = [t for t in self.tasks if t.state == 'ready']
            if not ready:
                break
            n = self.npoints
            self.npoints += 1
            t = ready[0]
            if len(ready) > 1:
                if self.replay is not None:
                    tid = self.replay.get(n)
                    t = next((x for x in ready if x.tid == tid), t)
                else:
                    t = ready[self.rng.randrange(len(ready))]
                    self.schedule.append([n, t.tid])
            self._resume(t)
            # A task that ends hands the baton back to us.
            self.main.acquire()
            done = self.current
            self.current = None
            if done is not None:
                done.thread.join()
        for t in self.tasks:
            if t.error is not None:
                raise HarnessError('task %d: %r' % (t.tid, t.error)) \
                    from t.error
