"""Minimising a failing case: threads, operations, faults, schedule."""
import copy
import time


class Shrinker:

    def __init__(self, case, schedule, test, simplify=None, budget=60,
                 save=None):
        # test(case, schedule) -> (ok, recorded schedule)
        self.case = case
        self.schedule = schedule
        self.test = test
        self.simplify = simplify
        self.end = time.monotonic() + budget
        self.tries = 0
        self.save = save

    def attempt(self, case, schedule=None):
        """Does the smaller case still fail?  Keep it, then."""
        if time.monotonic() > self.end:
            return False
        tried = [self.schedule] if schedule is None else [schedule]
        if schedule is None and self.schedule:
            tried.append(None)
        for s in tried:
            self.tries += 1
            try:
                ok, rec = self.test(case, s)
            except Exception:
                continue
            if ok:
                self.case = case
                self.schedule = rec
                if self.save is not None:
                    self.save(case, rec)
                return True
        return False

    def ops(self):
        return [(t, j) for t, th in enumerate(self.case['threads'])
                for j in range(len(th['ops']))]

    def without(self, drop):
        c = copy.deepcopy(self.case)
        for t, th in enumerate(c['threads']):
            th['ops'] = [o for j, o in enumerate(th['ops'])
                         if (t, j) not in drop]
        return c

    def run(self):
        for t in range(len(self.case['threads'])):
            if self.case['threads'][t]['ops']:
                self.attempt(self.without(
                    {x for x in self.ops() if x[0] == t}))
        n = 2
        while True:
            ops = self.ops()
            if not ops or time.monotonic() > self.end:
                break
            size = max(1, len(ops) // n)
            done = False
            i = 0
            while i < len(ops):
                drop = set(ops[i:i + size])
                if self.attempt(self.without(drop)):
                    done = True
                    ops = self.ops()
                else:
                    i += size
            if size == 1 and not done:
                break
            if not done or size > 1:
                n = min(n * 2, max(2, len(ops)))
        for t, j in self.ops():
            if self.case['threads'][t]['ops'][j].get('f'):
                c = copy.deepcopy(self.case)
                del c['threads'][t]['ops'][j]['f']
                self.attempt(c)
        if self.simplify is not None:
            again = True
            while again and time.monotonic() < self.end:
                again = False
                for c in self.simplify(self.case):
                    if time.monotonic() > self.end:
                        break
                    if self.attempt(c):
                        again = True
                        break
        if self.schedule:
            n = len(self.schedule)
            self.attempt(self.case, [])
            i = 0
            while self.schedule and i < len(self.schedule):
                if not self.attempt(self.case, self.schedule[:i]
                                    + self.schedule[i + 1:]):
                    i += 1
                if time.monotonic() > self.end:
                    break
        return self.case, self.schedule
