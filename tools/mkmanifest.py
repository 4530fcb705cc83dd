"""Write MANIFEST.json from the table of checks and the list of properties."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'sim'))
import checks  # noqa: E402

props = [json.loads(line) for line in open(
    os.path.join(HERE, 'properties.jsonl'))]
out = {
    'version': 1,
    'setup_cmd': 'bin/setup',
    'checks': [],
    'not_applicable': [],
    'notes': 'Every check builds the C extensions from the working tree of '
    '/repo into a scratch directory and imports the Python code from '
    '/repo/src. No hooks were needed in /repo. See DESIGN.md.',
}
for p in props:
    pid = p['id']
    spec = checks.CHECKS.get(pid)
    if spec is None:
        out['not_applicable'].append({
            'property': pid,
            'reason': checks.NOT_APPLICABLE.get(
                pid, 'check not built yet')})
        continue
    out['checks'].append({
        'property': pid,
        'quick_cmd': 'bin/check %s --tier quick' % pid,
        'thorough_cmd': 'bin/check %s --tier thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': spec['technique'] or checks.TECHNIQUE,
        'level': 'exploration',
        'level_note': spec['note'] or checks.NOTE,
    })
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
