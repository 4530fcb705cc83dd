"""What the smaller worlds share: running threads under the kernel, injecting
failures, and noting what went wrong."""
import boot  # noqa: F401
from kernel import HarnessError
from kernel import Kernel
from scen import Result
from world import EXCS

BASE_EXC = ['ValueError', 'KeyError', 'RuntimeError', 'MemoryError',
            'KeyboardInterrupt', 'SystemExit', 'GeneratorExit', 'OSError',
            'Injected', 'InjectedBase', 'TypeError', 'AttributeError',
            'StopIteration', 'LookupError', 'RecursionError']

# what arrives from outside, at any moment
LINE_EXC = ['KeyboardInterrupt', 'SystemExit', 'MemoryError', 'InjectedBase',
            'Injected']


def pick(rng, pairs):
    total = sum(w for _, w in pairs)
    x = rng.random() * total
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


class Stop(Exception):
    """The run has failed; the rest of it means nothing."""


class Base:
    """One run of a small world.

    Subclasses provide setup(), teardown() and op(tid, op).
    """

    TAGS = ()
    always_traced = False

    def __init__(self, case, schedule):
        self.case = case
        self.res = Result()
        self.k = Kernel(case.get('sched', 0),
                        p_switch=case.get('p_switch', 0.3),
                        schedule=schedule,
                        traced=case.get('traced', False),
                        opcodes=case.get('opcodes', False))
        self.fault_at = {}        # tid -> [kind, nth, exc]
        self.fired_op = {}
        self.log = []
        self.muted = False

    # -- faults -----------------------------------------------------------

    def cb(self, kind, *data):
        """A callback of the simulated world: a point, maybe a failure."""
        if self.muted:
            return
        tid = self.k.tid
        self.log.append((tid, kind) + data)
        f = self.fault_at.get(tid)
        if f is not None and f[0] == kind:
            if f[1] <= 0:
                self.fault_at[tid] = None
                self.fired_op[tid] = kind
                self.res.fault('%s:%s' % (kind, f[2]))
                raise EXCS[f[2]]('injected')
            f[1] -= 1
        self.k.point(kind)

    def arm(self, tid, f):
        self.fired_op[tid] = None
        if not f:
            return
        if f[0] == 'line':
            t = self.k.tasks[tid]
            if not t.traced:
                return
            t.fired = False
            t.countdown = f[1]
            t.interrupt = EXCS[f[2]]('injected')
        else:
            self.fault_at[tid] = list(f)

    def disarm(self, tid):
        self.fault_at[tid] = None
        t = self.k.tasks[tid]
        t.countdown = None
        t.interrupt = None
        if t.fired:
            t.fired = False
            self.fired_op[tid] = 'line'

    def call(self, tid, f, fn, *args, **kw):
        """Call the code under test, with the fault f pending meanwhile.

        -> an outcome; fired_op[tid] tells whether the fault occurred.
        """
        self.arm(tid, f)
        try:
            return outcome(fn, *args, **kw)
        finally:
            self.disarm(tid)
            if f and self.fired_op.get(tid) == 'line':
                self.res.fault('line:' + f[2])

    def fired(self, tid):
        return self.fired_op.get(tid)

    # -- verdicts -----------------------------------------------------------

    def bad(self, cls, _tags=None, **info):
        self.res.bad(_tags or self.TAGS, cls, thread=self.k.tid, **info)
        raise Stop

    def expect(self, cond, cls, **info):
        if not cond:
            self.bad(cls, **info)

    # -- running ------------------------------------------------------------

    def setup(self):
        pass

    def teardown(self):
        pass

    def thread(self, tid):
        for n, o in enumerate(self.case['threads'][tid]['ops']):
            self.op_index = n
            self.res.ops += 1
            self.fired_op[tid] = None
            out = self.op(tid, o)
            self.log.append((tid, 'op', n, out))
            self.k.point('op')

    def body(self, tid):
        try:
            self.thread(tid)
        except Stop:
            pass

    def finish(self):
        pass

    def go(self):
        self.setup()
        try:
            for tid in range(len(self.case['threads'])):
                self.k.spawn(lambda tid=tid: self.body(tid),
                             traced=True if self.always_traced else None)
            self.k.run()
            if not self.res.violations:
                try:
                    self.finish()
                except Stop:
                    pass
        finally:
            self.teardown()
        r = self.res
        r.trace = (self.log, [v['class'] for v in r.violations])
        r.schedule = self.k.schedule
        r.points = self.k.npoints
        r.switches = self.k.switches
        r.switch_kinds = self.k.kinds
        r.nontrivial = len(self.log) > 0
        return r


def outcome(fn, *args, **kw):
    """-> ('ret', value) or ('exc', exception)"""
    try:
        return ('ret', fn(*args, **kw))
    except (HarnessError, Stop):
        raise
    except BaseException as e:
        e.__traceback__ = None
        return ('exc', e)


def show(out):
    """An outcome, without running any code of the objects in it."""
    if out[0] == 'exc':
        try:
            return 'exc %s %s' % (type(out[1]).__name__, str(out[1])[:200])
        except Exception:
            return 'exc ' + type(out[1]).__name__
    v = out[1]
    if type(v) is int and abs(v) >> 4000:
        return 'ret %#x' % v
    if type(v) in (type(None), bool, int, str, float):
        return 'ret %r' % (v,)
    return 'ret a ' + type(v).__name__


def exc_name(out):
    return type(out[1]).__name__ if out[0] == 'exc' else None


def injected(e):
    if type(e) is RuntimeError and type(e.__cause__) is StopIteration:
        e = e.__cause__     # within a generator
    return bool(e.args) and type(e.args[0]) is str and e.args[0] == 'injected'


def sched_params(rng, nt):
    d = {'sched': rng.randrange(1 << 30),
         'p_switch': rng.choice([0.05, 0.2, 0.5])}
    if nt > 1 and rng.random() < 0.5:
        d['traced'] = True
        d['opcodes'] = rng.random() < 0.3
    return d
