"""The scenarios and what a worker does with one case of them."""
import hashlib
import importlib
import json
import random

MODULES = {
    'mw': 's_mw', 'diff': 's_diff', 'lifecycle': 's_lifecycle',
    'policies': 's_policies', 'registry': 's_registry',
    'combined': 's_combined', 'zcml': 's_zcml', 'adapters': 's_adapters',
    'watch': 's_watch', 'watchmore': 's_watchmore',
    'memory': 's_memory', 'builtins': 's_builtins',
    'persist': 's_persist', 'perms': 's_perms', 'build': 's_build',
}


def load(name):
    return importlib.import_module(MODULES[name])


def make_case(mod, job, index):
    rng = random.Random('%s:%s:%s:%s:%s:%d' % (
        job['seed'], job['prop'], job['scen'], job['cfg'], job['tag'],
        index))
    case = mod.generate(rng, job.get('profile') or {})
    return json.loads(json.dumps(case))


def digest(obj):
    return hashlib.sha256(repr(obj).encode('utf-8', 'backslashreplace')
                          ).hexdigest()[:16]


class Result:
    """Outcome of one simulated run."""

    def __init__(self):
        self.violations = []      # [{'tags': [...], 'class': ...}]
        self.trace = None         # canonical history (anything with a repr)
        self.schedule = []
        self.ops = 0
        self.points = 0
        self.switches = 0
        self.switch_kinds = {}
        self.faults = {}          # kind -> times fired
        self.probes = {}          # reach probes -> hits
        self.nontrivial = True

    def violation(self, prop):
        for v in self.violations:
            if prop in v['tags']:
                return v
        return None

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, kind, n=1):
        self.probes[kind] = self.probes.get(kind, 0) + n

    def bad(self, tags, cls, **info):
        d = {'tags': sorted(tags), 'class': cls}
        d.update((k, v if isinstance(v, (int, str, type(None))) else repr(v))
                 for k, v in info.items())
        self.violations.append(d)
