#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules in mc/props."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECHNIQUE = {
    'C22': 'explicit-state enumeration of operation histories on the real library, across hash seeds',
    'C23': 'explicit-state enumeration of iterator interleavings and thread schedules (bounded preemptions)',
}
DEFAULT = 'explicit-state bounded-exhaustive exploration of the real library against a reference model'
NOTE = ('Every configuration and input of the stated spaces is executed on the code of /repo through its public API and '
        'compared with the oracle; exhaustive within the bounds listed in the evidence, nothing outside them.')

checks, missing = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl'), encoding='utf-8'):
    prop = json.loads(line)['id']
    if os.path.exists(os.path.join(ROOT, 'mc/props', prop.lower() + '.py')):
        cmd = '/opt/venv/bin/python check.py ' + prop
        checks.append(dict(property=prop, quick_cmd=cmd, thorough_cmd=cmd, evidence_file='evidence/%s.json' % prop,
                           technique=TECHNIQUE.get(prop, DEFAULT), level='model_checking', level_note=NOTE))
    else:
        missing.append(dict(property=prop, reason='check not built yet'))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import sys; assert sys.version_info >= (3, 8)"', checks=checks,
                   not_applicable=missing,
                   notes='No hooks in /repo. check.py replay FILE reruns the configuration of a violation.'), f, indent=1)
    f.write('\n')
