"""Locks for the code under test, should it use any: a thread that has to
wait for one hands the baton to another simulated thread."""
import _thread
import sys
import threading

REAL = threading.Lock
REAL_R = threading.RLock
KERNEL = None


class SimLock:

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        while self.owner is not None and not (
                self.reentrant and self.owner == me):
            if not blocking or timeout >= 0:
                return False
            if KERNEL is None or KERNEL.current is None:
                raise RuntimeError('deadlock')
            KERNEL.blocked()
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError('release unlocked lock')
        self.count -= 1
        if not self.count:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == threading.get_ident()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()


def _for_sut():
    return sys._getframe(2).f_globals.get('__name__', '').startswith(
        'zope.security')


def Lock():
    return SimLock() if _for_sut() else REAL()


def RLock():
    return SimLock(True) if _for_sut() else REAL_R()


def install():
    threading.Lock = Lock
    threading.RLock = RLock
    _thread.allocate_lock = Lock
