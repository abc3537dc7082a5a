#!/usr/bin/env python3
'''Writes DESIGN.md from tools/design_text.py, properties.jsonl, the property modules, known_findings.txt and seeded/.'''
import importlib
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, 'tools')]
import check
import design_text as text
check.setup_paths()


def wrap(line, first='', rest=''):
    return textwrap.fill(line, 140, initial_indent=first, subsequent_indent=rest, break_long_words=False, break_on_hyphens=False)


parts = [text.HEAD]
for line in open(os.path.join(HERE, 'properties.jsonl')):
    prop = json.loads(line)
    pid = prop['id']
    module = importlib.import_module('vk.props.' + pid.lower())
    oracle, reach = text.TEXT[pid]
    parts.append('### {} {}\n'.format(pid, prop['title']))
    parts.append(wrap('Generated: ' + module.RULE + '.', '* ', '  '))
    parts.append(wrap('Oracle: ' + oracle, '* ', '  '))
    if module.ASSUMPTIONS:
        parts.append(wrap('Assumed: ' + '; '.join(module.ASSUMPTIONS) + '.', '* ', '  '))
    parts.append(wrap('Cases (quick / thorough): ' + ', '.join('{} {} / {}'.format(s.name, s.quick, s.thorough) for s in module.SUBS) +
                      '.', '* ', '  '))
    parts.append(wrap('Beyond the tests: ' + reach + '\n', '* ', '  ') + '\n')

findings = [wrap(line[len('fixed: property='):].strip(), '* ', '  ') for line in open(os.path.join(HERE, 'known_findings.txt'))
            if line.startswith('fixed:')]
seeded = []
folder = os.path.join(HERE, 'seeded')
for name in sorted(os.listdir(folder)):
    meta = json.load(open(os.path.join(folder, name, 'meta.json')))
    mark = ' (*)' if name in text.MISSED or name.startswith(text.MISSED_PREFIX) else ''
    seeded.append(wrap('`{}`{} ({}): {}'.format(name, mark, meta['property'], meta['needs']), '* ', '  '))
parts.append(text.TAIL.format(findings='\n'.join(findings), seeded='\n'.join(seeded)))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(parts))
