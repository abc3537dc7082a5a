#!/opt/venv/bin/python
'''
Decides one property by generated-input search.

    check.py PROP [--tier quick|thorough]      exit 0 / exit 1 + VIOLATION line / other = harness error
    check.py PROP --replay FILE                re-executes a saved failing case without Hypothesis

Imports the code under test from /repo (or VK_REPO, for trying the machinery on a scratch copy).
'''
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VK_REPO', '/repo')
PYVENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
WORKER_LIMIT = {'quick': 840, 'thorough': 6 * 3600}


def setup_paths():
    sys.path[:] = [p for p in sys.path if p not in (REPO, HERE, '/repo')]
    sys.path.insert(0, HERE)
    sys.path.insert(0, REPO)
    # hypothesis is not installed next to numpy & co: borrow it from the tools environment, last in path
    if PYVENV not in sys.path:
        sys.path.append(PYVENV)


def load(prop):
    return importlib.import_module('vk.props.{}'.format(prop.lower()))


def worker(args):
    '''Runs one shard, writes its result as JSON. Standard output is silenced (the code prints a lot).'''
    from vk import core
    core.prepare_environment()
    out = os.path.abspath(args.out)
    os.makedirs(args.scratch, exist_ok=True)
    os.chdir(args.scratch)
    os.environ['VK_SCRATCH'] = args.scratch
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    setup_paths()
    module = load(args.prop)
    sub = {s.name: s for s in module.SUBS}[args.sub]
    runner = core.SubRunner(args.prop, sub, args.seed, args.cases, args.examples)
    runner.run()
    with open(out, 'w') as f:
        json.dump(runner.result(), f)
    os.close(devnull)
    # leave no helper threads behind
    sys.stdout.flush()
    os._exit(0)


def plan(module, tier, seed, scale):
    jobs = []
    for sub in module.SUBS:
        cases = sub.quick if tier == 'quick' else sub.thorough
        cases = max(1, int(cases * scale))
        shards = max(1, min(sub.shards[0 if tier == 'quick' else 1], cases))
        for shard in range(shards):
            n = cases // shards + (1 if shard < cases % shards else 0)
            jobs.append((sub.name, seed * 1000 + shard, n, shard == 0))
    return jobs


def run_jobs(prop, jobs, tmp, limit, tier):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', CUDA_VISIBLE_DEVICES='',
               TF_CPP_MIN_LOG_LEVEL='3', KERAS_BACKEND='tensorflow', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', VK_REPO=REPO)
    env['PYTHONPATH'] = REPO
    pending = list(enumerate(jobs))
    running = {}
    results = []
    errors = []
    deadline = time.time() + limit
    stop = False
    while pending or running:
        while pending and len(running) < 8 and not stop:
            index, (name, seed, cases, examples) = pending.pop(0)
            out = os.path.join(tmp, 'out{}.json'.format(index))
            err = open(os.path.join(tmp, 'err{}.txt'.format(index)), 'w')
            cmd = [sys.executable, os.path.join(HERE, 'check.py'), prop, '--worker', '--sub', name,
                   '--seed', str(seed), '--cases', str(cases), '--out', out,
                   '--scratch', os.path.join(tmp, 'scratch{}'.format(index))]
            if examples:
                cmd.append('--examples')
            process = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=err,
                                       stdin=subprocess.DEVNULL, start_new_session=True)
            running[index] = (process, out, err, name)
        for index, (process, out, err, name) in list(running.items()):
            code = process.poll()
            if code is None:
                continue
            del running[index]
            err.close()
            if code == 0 and os.path.exists(out):
                with open(out) as f:
                    result = json.load(f)
                results.append(result)
                if result['failing']:
                    stop = True
            else:
                with open(err.name) as f:
                    text = f.read()
                errors.append('{}: exit {}\n{}'.format(name, code, text[-3000:]))
                stop = True
        if stop:
            pending = []
        if time.time() > deadline:
            errors.append('time limit reached: inconclusive')
            pending = []
            for process, _, _, _ in running.values():
                kill(process)
            break
        time.sleep(0.05)
    return results, errors


def kill(process):
    try:
        os.killpg(process.pid, 9)
    except OSError:
        pass


def replay(prop, path):
    from vk import core
    with open(path) as f:
        saved = json.load(f)
    module = load(prop)
    sub = {s.name: s for s in module.SUBS}[saved['sub']]
    with core.scratch_dir():
        try:
            sub.run(saved['spec'], core.Ctx())
        except core.Undefined:
            pass
        except core.HarnessError:
            raise
        except Exception as exc:
            import traceback
            traceback.print_exc()
            print('VIOLATION property={} replay={}'.format(prop, path))
            print(core.describe_exception(exc))
            return 1
    print('replay passes: property={} sub={}'.format(prop, saved['sub']))
    return 0


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('prop')
    parser.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    parser.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    parser.add_argument('--scale', type=float, default=float(os.environ.get('VK_SCALE', '1')))
    parser.add_argument('--replay')
    parser.add_argument('--only', help='run only this sub-check (development)')
    parser.add_argument('--worker', action='store_true')
    parser.add_argument('--sub')
    parser.add_argument('--cases', type=int)
    parser.add_argument('--out')
    parser.add_argument('--scratch')
    parser.add_argument('--examples', action='store_true')
    args = parser.parse_args()
    setup_paths()

    if args.worker:
        return worker(args)

    from vk import core
    core.prepare_environment()
    if args.replay:
        os.environ['PYTHONPATH'] = REPO
        return replay(args.prop, os.path.abspath(args.replay))

    started = time.time()
    module = load(args.prop)
    subs = [s for s in module.SUBS if args.only is None or s.name == args.only]
    module.SUBS = subs
    tmp = tempfile.mkdtemp(prefix='vk-{}-'.format(args.prop))
    try:
        jobs = plan(module, args.tier, args.seed, args.scale)
        results, errors = run_jobs(args.prop, jobs, tmp, WORKER_LIMIT[args.tier], args.tier)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    # one (the first, smallest) replay per sub-check is enough
    violations = {}
    for result in results:
        if result['failing']:
            size = len(json.dumps(result['failing'][0]))
            if result['sub'] not in violations or size < violations[result['sub']][0]:
                violations[result['sub']] = (size, result)
    violations = [result for _, result in violations.values()]
    evidence = build_evidence(args, module, results, violations, time.time() - started)
    evidence_dir = os.path.join(HERE, 'evidence')
    os.makedirs(evidence_dir, exist_ok=True)
    with open(os.path.join(evidence_dir, '{}.json'.format(args.prop)), 'w') as f:
        json.dump(evidence, f, indent=1)

    for result in violations:
        spec, message = result['failing']
        replay_dir = os.path.join(HERE, 'replays')
        os.makedirs(replay_dir, exist_ok=True)
        path = os.path.join(replay_dir, '{}-{}-{}.json'.format(args.prop, result['sub'], core.spec_key(spec)[:8]))
        with open(path, 'w') as f:
            json.dump(dict(property=args.prop, sub=result['sub'], message=message, spec=spec), f, indent=1)
        print('sub-check {}: {}'.format(result['sub'], message))
        print('VIOLATION property={} replay={}'.format(args.prop, path))
    if violations:
        return 1
    if errors:
        print('HARNESS ERROR property={}'.format(args.prop))
        for error in errors:
            print(error)
        return 3
    cov = evidence['coverage']
    print('{}: held on {} cases ({} distinct non-trivial) in {:.1f}s'.format(
        args.prop, cov['evaluations'], cov['distinct_nontrivial'], evidence['wall_s']))
    return 0


def build_evidence(args, module, results, violations, wall):
    subs = {}
    distinct = set()
    for result in results:
        entry = subs.setdefault(result['sub'], dict(evaluations=0, distinct_nontrivial=0, tags={}, _keys=set(),
                                                    samples=[]))
        entry['evaluations'] += result['evaluations']
        entry['slowest_case_s'] = max(entry.get('slowest_case_s', 0), result['slowest'])
        entry['_keys'].update(result['nontrivial'])
        distinct.update((result['sub'], key) for key in result['nontrivial'])
        for tag, count in result['tags'].items():
            entry['tags'][tag] = entry['tags'].get(tag, 0) + count
        if len(entry['samples']) < 3:
            entry['samples'].extend(result['samples'][:3 - len(entry['samples'])])
    samples = []
    for name, entry in sorted(subs.items()):
        entry['distinct_nontrivial'] = len(entry.pop('_keys'))
        for sample in entry.pop('samples'):
            text = json.dumps(sample)
            samples.append(dict(sub=name, spec=sample if len(text) < 1500 else text[:1500] + '...'))
    return dict(property=args.prop, tier=args.tier, seed=args.seed, level='exploration',
                coverage=dict(evaluations=sum(e['evaluations'] for e in subs.values()),
                              distinct_nontrivial=len(distinct), rule=module.RULE, samples=samples,
                              subchecks=subs),
                assumptions=list(getattr(module, 'ASSUMPTIONS', ())),
                wall_s=round(wall, 2), violations=len(violations))


if __name__ == '__main__':
    sys.exit(main())
