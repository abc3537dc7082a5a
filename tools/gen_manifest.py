#!/usr/bin/env python3
'''Writes MANIFEST.json from properties.jsonl and the property modules present in vk/props.'''
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
TECHNIQUE = {}
DEFAULT = ('property-based testing: Hypothesis-generated inputs / operation sequences against an independent '
           'reference model, shrunk to a replay file')

checks, missing = [], []
with open(os.path.join(HERE, 'properties.jsonl')) as f:
    for line in f:
        prop = json.loads(line)
        pid = prop['id']
        if os.path.exists(os.path.join(HERE, 'vk', 'props', pid.lower() + '.py')):
            checks.append(dict(property=pid,
                               quick_cmd='{} check.py {} --tier quick'.format(PYTHON, pid),
                               thorough_cmd='{} check.py {} --tier thorough'.format(PYTHON, pid),
                               technique=TECHNIQUE.get(pid, DEFAULT),
                               level='exploration',
                               level_note='bounded random exploration; domain and oracle in DESIGN.md section ' + pid))
        else:
            missing.append(dict(property=pid, reason='check not built yet'))

manifest = dict(version=1, setup_cmd='{} tools/setup.py'.format(PYTHON), checks=checks, not_applicable=missing,
                notes='Checks import the code from /repo in subprocesses whose working directory is a scratch '
                      'folder. No hooks are needed. known_findings.txt lists repaired and recorded defects.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(missing), 'missing')
