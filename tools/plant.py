#!/usr/bin/env python3
'''
Keeps planted bugs: plant.py SPEC.py [ID ...] reads BUGS from the spec file, a list of dicts with
id, property, file, edits [(old, new), ...] (or files {file: edits}), needs, breaks and demo (text of demo.py),
writes seeded/<id>/ and confirms in a scratch copy: tests pass, demo passes without and fails with the change;
then says whether the check of the property reports it. plant.py --again ID ... repeats this for kept bugs.
'''
import json
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = '/opt/venv/bin/python'
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
PREAMBLE = '''import os
import sys
import tempfile

sys.path.insert(0, os.getcwd())
scratch = tempfile.TemporaryDirectory()
os.chdir(scratch.name)
'''


def sh(command, **kwargs):
    return subprocess.run(command, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kwargs)


def write(bug):
    folder = os.path.join(HERE, 'seeded', bug['id'])
    copy = '/tmp/pb/{}'.format(bug['id'])
    sh('rm -rf {0}; mkdir -p /tmp/pb; cp -a /repo {0}'.format(copy))
    files = bug.get('files') or {bug['file']: bug['edits']}
    for name, edits in files.items():
        path = os.path.join(copy, name)
        text = open(path).read()
        for old, new in edits:
            if text.count(old) != 1:
                return '{} occurrences of the text in {}: {!r}'.format(text.count(old), name, old)
            text = text.replace(old, new)
        open(path, 'w').write(text)
    for name in files:
        original = sh('git -C {} show 03dd589:{}'.format(copy, name)).stdout.splitlines()
        removed = [line[1:] for line in sh('git -C {} diff -U0 {}'.format(copy, name)).stdout.splitlines()
                   if line.startswith('-') and not line.startswith('---')]
        later = [line for line in removed if line not in original]
        if later or not removed:
            return 'not lines of the original: {}'.format(later)
    os.makedirs(folder, exist_ok=True)
    with open(os.path.join(folder, 'patch.diff'), 'w') as f:
        f.write(sh('git -C {} diff'.format(copy)).stdout)
    with open(os.path.join(folder, 'demo.sh'), 'w') as f:
        f.write(DEMO_SH)
    os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
    with open(os.path.join(folder, 'demo.py'), 'w') as f:
        f.write(PREAMBLE + bug['demo'].strip('\n') + '\n')
    with open(os.path.join(folder, 'meta.json'), 'w') as f:
        json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']), f, indent=1)
        f.write('\n')
    return confirm(bug['id'])


def again(name):
    copy = '/tmp/pb/{}'.format(name)
    sh('rm -rf {0}; mkdir -p /tmp/pb; cp -a /repo {0}'.format(copy))
    done = sh('git -C {} apply {}'.format(copy, os.path.join(HERE, 'seeded', name, 'patch.diff')))
    return done.stdout if done.returncode else confirm(name)


def confirm(name):
    folder, copy = os.path.join(HERE, 'seeded', name), '/tmp/pb/{}'.format(name)
    prop = json.load(open(os.path.join(folder, 'meta.json')))['property']
    demo = os.path.join(folder, 'demo.sh')
    clean, dirty = sh(demo, cwd='/repo'), sh(demo, cwd=copy)
    if clean.returncode != 0:
        return 'demo fails on the unchanged tree: ' + clean.stdout[-1500:]
    if dirty.returncode == 0:
        return 'demo passes with the change'
    report = copy + '.xml'
    sh('. /opt/vp/env.sh; {} -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors -o junit_family=xunit2 '
       '--junitxml={} spta; python3 /opt/vp/results.py {} junit:{}'.format(PYTHON, report, report + '.json', report), cwd=copy)
    results = json.load(open(report + '.json'))
    passed = set(results.get('passed', []))
    broken = sorted(STABLE - passed)
    if broken:
        return 'tests broken: {}'.format(broken[:4])
    check = sh('{} check.py {} --tier quick --seed 1'.format(PYTHON, prop), cwd=HERE, env=dict(os.environ, VK_REPO=copy))
    said = [line for line in check.stdout.splitlines() if 'VIOLATION' in line or line.startswith('sub-check')]
    sh('rm -rf {0} {0}.xml {0}.xml.json'.format(copy))
    verdict = {1: 'CAUGHT', 0: 'MISSED'}.get(check.returncode, 'rc {}'.format(check.returncode))
    return '{} by {} ({}) {}'.format(verdict, prop, dirty.stdout.strip().splitlines()[-1][:110], said[0][:230] if said else '')


def main():
    if sys.argv[1] == '--again':
        names, job = sys.argv[2:] or sorted(os.listdir(os.path.join(HERE, 'seeded'))), again
        tasks = [(n, n) for n in names]
    else:
        scope = {}
        exec(open(sys.argv[1]).read(), scope)
        wanted = sys.argv[2:]
        tasks, job = [(b['id'], b) for b in scope['BUGS'] if not wanted or b['id'] in wanted], write
    with ThreadPoolExecutor(3) as pool:
        for (name, _), said in zip(tasks, pool.map(lambda task: job(task[1]), tasks)):
            print('{}: {}'.format(name, said), flush=True)


if __name__ == '__main__':
    main()
