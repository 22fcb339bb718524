"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
checks = []
na = []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    pid = p['id']
    path = os.path.join(HERE, 'props', pid.lower() + '.py')
    if os.path.exists(path) and pid not in NA:
        head = open(path).read().split('"""')[1].strip()
        checks.append({
            'property': pid,
            'quick_cmd': '/verif/check %s' % pid,
            'thorough_cmd': '/verif/check %s --thorough' % pid,
            'evidence_file': '/verif/evidence/%s.json' % pid,
            'technique': 'path-exhaustive symbolic execution of the real '
                         'functions (source rewritten at load time), each '
                         'assertion decided by z3 for all values in bounds; '
                         'counterexamples replayed on the real code',
            'level': 'model_checking',
            'level_note': ' '.join(head.split()),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(
            pid, 'The check is still being built.')})
m = {
    'version': 1,
    'setup_cmd': '/verif/setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'See DESIGN.md. Bounds of every scenario are in its evidence.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
