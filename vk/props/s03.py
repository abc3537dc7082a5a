'''S03: saved solvers reload unchanged, each from its own files.'''
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, solve
from ..core import Sub, require, must_raise, scratch_dir
from .s02 import check_answer

RULE = ('1..3 solvers over the same dataset that differ from the first one in one respect each (region name, scaling, samples per '
        'day, number of clusters, seed, mode, kind of clustering, distance, model parameters, test length, error type), saved '
        'one after another in one place and reloaded from fresh descriptions in any order, also after their partition is '
        'deleted, plus one that was never saved, plus the first one trained and saved again after its data changed; non-trivial: at least two solvers of which one has two clusters')
ASSUMPTIONS = ['limits of the search for medoids (iterations, tolerance, initial medoids) are not varied',
               'a region is identified by its name, years, samples per day and scaling']

FIELDS = ['test', 'test', 'error', 'params', 'k', 'seed', 'mode', 'kind', 'scaled', 'spd', 'name', 'weight', 'rmse', 'refit']


@st.composite
def spec(draw):
    base = draw(solve.solver_spec(trainers=['harness', 'harness', 'mean', 'knn', 'harness', 'mean', 'knn', 'arima']))
    if draw(st.booleans()):
        base['weight'] = 1.0
    count = draw(st.sampled_from([2, 1, 2, 0]))
    fields = draw(st.lists(st.sampled_from(FIELDS), min_size=count + 1, max_size=count + 1))
    base['changes'] = fields[:count]
    base['unsaved'] = fields[count]
    base['order'] = draw(st.permutations(range(count + 1)))
    base['query'] = [draw(gen.large_rectangle(*base['shape'])), draw(st.sampled_from([2, 1, 3]))]
    base['step'] = draw(st.sampled_from([1, 10, 100, 1, 20, 9, 11]))
    base['forget'] = draw(st.sampled_from([False, False, True]))
    base['again'] = draw(st.sampled_from([False, True]))
    return base


def change(base, field):
    '''Another spec which differs in one respect, or None.'''
    other = dict(base, clustering=dict(base['clustering']))
    clustering = other['clustering']
    if field == 'test':
        total = base['test'] + base['train']
        other['test'] = base['test'] % 4 + 1
        other['train'] = total - other['test']
    elif field == 'error':
        other['error'] = {'MASE': 'MSE', 'MSE': 'sMAPE', 'sMAPE': 'MASE'}[base['error']]
    elif field == 'params':
        other['params'] = [1, 0, 0] if base['params'] == [0, 0, 0] else [0, 0, 0] if isinstance(base['params'], list) else \
            (base['params'] % 3 + 1 if base['step'] == 1 or base['trainer'] == 'knn' else base['params'] + base['step'])
        if other['params'] == base['params']:
            return None
    elif field == 'k':
        clustering['k'] = clustering['k'] % 3 + 1
    elif field in ('seed', 'mode'):
        if clustering['kind'] == 'regular':
            return None
        if field == 'seed':
            clustering['seed'] = clustering['seed'] + base['step']
        else:
            clustering['mode'] = 'robust' if clustering['mode'] == 'lite' else 'lite'
    elif field == 'kind':
        if clustering['kind'] == 'regular':
            clustering.update(kind='kmedoids', seed=1, mode='lite')
        else:
            clustering.update(kind='regular', k=clustering['k'] % 3 + 1)
    elif field == 'scaled':
        other['scaled'] = not base['scaled']
    elif field == 'spd':
        other['spd'] = 5 - base['spd']
    elif field == 'name':
        other['name'] = 'elsewhere'
        other['triangle'] = base['triangle'][::-1]
    elif field == 'weight':
        other['weight'] = 0.0 if base.get('weight') else 1.0
    elif field == 'rmse':
        if base['trainer'] != 'knn':
            return None
        other['rmse'] = not base['rmse']
    elif field == 'refit':
        return None
    return other


def files():
    return sorted(os.path.join(where, f) for where, _, names in os.walk('.') for f in names)


def check_solver(solver, world, query, what):
    from spta.region import Region
    rectangle, future = query
    whole = [0, world.x_len, 0, world.y_len]
    for area, length in ((rectangle, 0), (whole, future), (whole, 0), (rectangle, future)):
        result = solver.predict(Region(*area), length, plot=False)
        check_answer(world, result, area, length, '{}, query {} with {} samples'.format(what, area, length))
    require(np.array_equal(np.array(solver.partition.as_numpy), world.labels), '{}: partition', what)
    require([tuple(p) for p in solver.partition.medoids] == world.medoids, '{}: medoids', what)


def run(spec, ctx):
    from spta.solver.model import SolverPickler
    specs, said = [spec], []
    for field in spec['changes']:
        other = change(spec, field)
        if other is not None and other not in specs:
            specs.append(other)
            said.append(field)
    with scratch_dir():
        worlds, texts = [], []
        for one in specs:
            world = solve.World(one)
            world.find_partition()
            solver = world.solver_trainer().train('results')
            solver.save()
            require(str(solver.metadata) == str(world.solver_metadata()), 'description {} instead of {}', solver.metadata,
                    world.solver_metadata())
            worlds.append(world)
            texts.append(str(solver))
        for index in spec['order']:
            if index >= len(worlds):
                continue
            what = 'reloaded solver {} of {} (differing in {})'.format(index + 1, len(worlds), said)
            before = files()
            solver = SolverPickler(worlds[index].solver_metadata()).load_solver()
            require(files() == before, '{}: loading changed the files: {}', what, sorted(set(files()) ^ set(before)))
            require(str(solver) == texts[index], '{}: described as {} instead of {}', what, str(solver), texts[index])
            check_solver(solver, worlds[index], spec['query'], what)
        unsaved = change(spec, spec['unsaved'])
        if unsaved is not None and unsaved not in specs:
            world = solve.World(unsaved)
            with must_raise(IOError, 'loading a solver that was never saved (differing in {})'.format(spec['unsaved'])):
                SolverPickler(world.solver_metadata()).load_solver()
            ctx.tag('unsaved ' + spec['unsaved'])
        if spec['forget']:
            # without its partition, a solver finds it again
            world = worlds[0]
            gone = [f for f in files() if 'partition' in os.path.basename(f) and f.startswith('./pickle')]
            require(gone, 'no saved partition among {}', files())
            for f in gone:
                os.remove(os.path.abspath(f))
            solver = SolverPickler(world.solver_metadata()).load_solver()
            check_solver(solver, world, spec['query'], 'reloaded without its partition')
            ctx.tag('partition deleted')
        if spec['again']:
            # the dataset has changed since: trained and saved once more in the same place
            world = solve.World(dict(spec, values=[v + 1.5 for v in spec['values'][::-1]]))
            world.find_partition()
            world.solver_trainer().train('results').save()
            solver = SolverPickler(world.solver_metadata()).load_solver()
            check_solver(solver, world, spec['query'], 'saved again and reloaded')
            ctx.tag('saved again')
    ctx.nontrivial(len(worlds) >= 2 and any(len(w.medoids) >= 2 for w in worlds))
    solve.tag(spec, ctx)
    ctx.tag('solvers:{}'.format(len(worlds)), *['changed ' + s for s in said])


SUBS = [Sub('save and load', spec, run, quick=240, thorough=5000, shards=(7, 8))]
