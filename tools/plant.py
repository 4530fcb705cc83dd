#!/usr/bin/env python3
"""Plant bugs from a specification file and keep those that qualify.

usage: plant.py SPEC.py [ID...]

SPEC.py calls bug(id, property, edits, demo, needs, breaks, env=...) where
edits is [(file under src/zope/security, old text, new text)...] and demo is
the text of a Python program that exits non-zero on the changed code.
For each bug: apply to /repo, build, run the stable tests, run the
demonstration, undo; and only then write /verif/seeded/ID.
"""
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
SRC = '/repo/src/zope/security/'
BUGS = {}

DEMO_SH = '''#!/bin/bash
# usage: demo.sh (in /repo, after the build)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src %s
exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def bug(id, prop, edits, demo, needs, breaks, env='PURE_PYTHON=0'):
    BUGS[id] = (prop, edits, demo, needs, breaks, env)


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          **kw)


def undo():
    run('git -C /repo checkout -- .')


def build():
    return run('bash /opt/vp/build.sh')


def tests():
    run('bash /opt/vp/test.sh /tmp/plant-out.json')
    d = json.load(open('/tmp/plant-out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    want = set(base['stable'])
    return sorted(want - set(d['passed']))


def demo(d):
    r = run('bash %s/demo.sh' % d, cwd='/repo')
    return r.returncode, (r.stdout + r.stderr)[-600:]


def plant(id):
    prop, edits, text, needs, breaks, env = BUGS[id]
    assert not run('git -C /repo status --short').stdout.strip()
    d = '/tmp/plant-' + id
    shutil.rmtree(d, True)
    os.makedirs(d)
    open(d + '/demo.py', 'w').write(text.lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO_SH % env)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
              open(d + '/meta.json', 'w'), indent=1)
    try:
        for f, old, new in edits:
            s = open(SRC + f).read()
            if s.count(old) != 1:
                return 'EDIT %s: %d matches' % (f, s.count(old))
            open(SRC + f, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(run('git -C /repo diff').stdout)
        b = build()
        if b.returncode:
            return 'BUILD ' + (b.stdout + b.stderr)[-800:]
        rc, out = demo(d)
        if not rc:
            return 'DEMO does not notice'
        t = tests()
        if t:
            return 'TESTS %d: %s' % (len(t), t[:4])
    finally:
        undo()
    b = build()
    rc2, out2 = demo(d)
    if rc2:
        return 'DEMO fails unchanged: ' + out2
    shutil.rmtree(SEEDED + '/' + id, True)
    shutil.move(d, SEEDED + '/' + id)
    return 'ok (%s)' % out.strip().splitlines()[-1:]


def main():
    exec(open(sys.argv[1]).read(), {'bug': bug})
    for id in sys.argv[2:] or BUGS:
        print(id, plant(id), flush=True)


main()
