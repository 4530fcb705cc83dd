"""Start-up of a worker: put the freshly built extensions in front.

Python code runs straight from /repo/src; the compiled modules come from
SIM_EXT, where the check has just built them from /repo's C sources.
"""
import importlib
import importlib.machinery
import importlib.util
import os
import sys
import threading

import simlock

REPO = os.environ.get('SIM_REPO', '/repo')
EXT = os.environ.get('SIM_EXT')
PURE = os.environ.get('PURE_PYTHON', '0') not in ('', '0')
WATCH = int(os.environ.get('ZOPE_WATCH_CHECKERS') or 0)
CONFIG = ('pure' if PURE else 'c') + ('-watch%d' % WATCH if WATCH else '')

sys.dont_write_bytecode = True

class Finder:
    """Import the compiled modules from where they have just been built."""

    NAMES = {'zope.security._proxy': '_proxy',
             'zope.security._zope_security_checker':
             '_zope_security_checker'}

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        base = cls.NAMES.get(name)
        if base is None:
            return None
        folder = os.path.join(EXT, 'zope', 'security')
        for fn in sorted(os.listdir(folder)):
            if fn.startswith(base + '.') and fn.endswith('.so'):
                fn = os.path.join(folder, fn)
                return importlib.util.spec_from_file_location(
                    name, fn, loader=importlib.machinery.ExtensionFileLoader(
                        name, fn))
        raise RuntimeError('no %s in %s' % (base, folder))


simlock.install()
if EXT:
    sys.meta_path.insert(0, Finder)



class LogStream:
    """Where the diagnostics go: a line is an event of the run."""

    def __init__(self, real):
        self.real = real
        self.part = {}
        self.taker = None         # who takes the lines

    def write(self, text):
        if self.taker is None:
            return self.real.write(text)
        key = threading.get_ident()
        text = self.part.pop(key, '') + text
        *lines, rest = text.split('\n')
        if rest:
            self.part[key] = rest
        for line in lines:
            if line.startswith('[CHK]'):
                self.taker(line)
        return len(text)

    def __getattr__(self, name):
        return getattr(self.real, name)


if WATCH:
    sys.stderr = LOG = LogStream(sys.stderr)

import zope.security  # noqa: E402
import zope.security.checker  # noqa: E402
import zope.security.proxy  # noqa: E402

# everything at once: what a run can step through must not depend on what
# earlier runs happened to import
for _name in ('adapter', 'decorator', 'interfaces', 'management',
              'metaconfigure', 'metadirectives', 'permission',
              'protectclass', 'simplepolicies', 'testing', 'zcml'):
    importlib.import_module('zope.security.' + _name)


def verify():
    src = os.path.join(REPO, 'src', 'zope', 'security')
    assert zope.security.proxy.__file__.startswith(src), \
        zope.security.proxy.__file__
    if PURE:
        assert zope.security.proxy.Proxy is zope.security.proxy.ProxyPy
    else:
        m = sys.modules['zope.security._proxy']
        assert m.__file__.startswith(EXT), m.__file__
        m = sys.modules['zope.security._zope_security_checker']
        assert m.__file__.startswith(EXT), m.__file__


verify()
