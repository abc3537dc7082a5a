'''X02: the clustering commands report what they say about the region.'''
import glob
import os
import re

import numpy as np
from hypothesis import strategies as st

from .. import commands, gen, series, solve
from ..core import Sub, require, scratch_dir
from . import c05, c06, c08, s04, s06, x01

RULE = ('the commands themselves (main function and arguments) on described regions of 4..16 points at some corner of the '
        'dataset: the distance matrix with 1..3 workers; analyses and medoid distances of suites of 1..4 clusterings of both '
        'kinds, with and without statistics and plots; elbows of suites of 3..5 counts and 1..2 seeds; training data by '
        'both criteria with solvers trained by their own command; what they write and print is compared with what follows '
        'from the data and the distances; non-trivial: at least two clusterings and an offset region (tables), an elbow among '
        'at least two interior counts, or series that all differ (matrix)')
ASSUMPTIONS = ['the suites described to the commands are the generated ones', 'numbers are written with three decimals',
               'OS schedules of the worker processes are sampled by repetition']


# ---------------------------------------------------------------- the matrix

@st.composite
def matrix_spec(draw, workers=(None,)):
    shape = draw(st.sampled_from([[2, 3], [3, 2], [1, 4], [4, 1], [2, 2], [3, 4]]))
    n = shape[0] * shape[1]
    t = draw(st.sampled_from([4, 3, 7]))
    return dict(shape=shape, t=t, values=draw(gen.grid_values(t * n, ('temperature', 'positive', 'coarse'))),
                corner=draw(st.sampled_from([[3, 7], [0, 0], [20, 2], [0, 5]])), scaled=draw(st.sampled_from([True, False])),
                spd=draw(st.sampled_from([1, 4])), workers=draw(st.sampled_from(workers)), stale=draw(st.booleans()))


def run_matrix(spec, ctx):
    x_len, y_len = spec['shape']
    n = x_len * y_len
    with scratch_dir():
        world = solve.World(dict(spec, factors=[1.0] * n, train=spec['t'] - 1, test=1, triangle=[1.0] * (n * (n - 1) // 2)))
        metadata = world.region_metadata
        if not spec['stale']:
            os.remove(metadata.distances_filename)
        commands.forget()
        commands.REGIONS['place'] = lambda: metadata
        commands.call('experiments.region.distance', 'processRequest',
                      ['place', 'dtw'] + (['--parallel', spec['workers']] if spec['workers'] else []))
        got = np.load(metadata.distances_filename)
    points = world.points()
    want = np.array([[np.sqrt(series.dtw_squared(list(world.seen[:, a[0], a[1]]), list(world.seen[:, b[0], b[1]])))
                      for b in points] for a in points])
    require(got.shape == (n, n) and gen.same(got, want, 1e-6, 1e-9), 'matrix {} instead of {}', got.tolist(), want.tolist())
    ctx.nontrivial(len(set(map(float, want.reshape(-1)))) == n * (n - 1) // 2 + 1)
    ctx.tag('workers:{}'.format(spec['workers']), 'scaled' if spec['scaled'] else 'unscaled')


# ---------------------------------------------------------------- analyses

@st.composite
def analysis_spec(draw):
    one = draw(c05.analysis_spec())
    one['mode'] = draw(st.sampled_from(['lite', 'lite', 'robust']))
    one['again'] = draw(st.sampled_from([False, False, True]))
    # the suite may have been another one when it was analysed before
    one['earlier'] = draw(st.lists(st.sampled_from([1, 2, 3]), max_size=2, unique=True))
    # the plot says that it does not bother with a single cluster
    one['variance'] = draw(st.sampled_from([False, False, False, True])) and min(one['ks']) >= 2
    return one


def describe_suite(spec, metadata):
    from spta.clustering.kmedoids import kmedoids_metadata_generator
    from spta.clustering.regular import regular_metadata_generator
    commands.forget()
    commands.REGIONS['place'] = lambda: metadata
    commands.KMEDOIDS['mine'] = lambda: kmedoids_metadata_generator(k_values=spec['ks'], seed_values=spec['seeds'],
                                                                    mode=spec['mode'], verbose=False)
    commands.REGULAR['mine'] = lambda: regular_metadata_generator(k_values=spec['ks'])


def check_analysis(rows, expected, matrix):
    n = len(matrix)
    require(rows[0] == ['clustering', 'total_cost', 'medoids'], 'header {}', rows[0])
    require([r[0] for r in rows[1:]] == list(expected), 'rows {} instead of {}', [r[0] for r in rows[1:]], list(expected))
    for r in rows[1:]:
        absolute, indices, labels = expected[r[0]]
        cost = sum(float(matrix[i, indices[labels[i]]]) for i in range(n))
        require(abs(float(r[1]) - cost) <= 0.0005 + 1e-9 * cost, '{}: total cost {} instead of {}', r[0], r[1], cost)
        want = ' '.join('({},{})'.format(*p) for p in absolute)
        require(r[2].strip() == want, '{}: medoids {} instead of {}', r[0], r[2], want)


def run_analysis(spec, ctx):
    from spta.distance.dtw import DistanceByDTW
    with scratch_dir():
        metadata, suite, matrix = c05.setup_analysis(dict(spec, identifier='mine'))
        expected = c05.expected_medoids(spec, metadata, matrix)
        words = ['place', spec['kind'], 'mine', '--log', 'WARN']
        if spec['earlier']:
            describe_suite(dict(spec, ks=spec['earlier']), metadata)
            commands.call('experiments.clustering.partition_analysis', 'processRequest', words)
        describe_suite(spec, metadata)
        for turn in range(2 if spec['again'] else 1):
            commands.call('experiments.clustering.partition_analysis', 'processRequest',
                          words + (['--variance', '--bins', 'sturges'] if spec['variance'] and turn == 0 else []))
            check_analysis(s04.read(suite.analysis_csv_filepath('outputs', metadata, DistanceByDTW())), expected, matrix)
        if spec['variance']:
            plots = glob.glob('outputs/**/*.pdf', recursive=True)
            require(len(plots) >= len(expected), 'plots {}', plots)
        before = s04.tables()
        commands.call('experiments.clustering.medoid_distances', 'processRequest', words)
        files = [f for f in s04.tables() if f not in before and f.endswith('.csv')]
        require(len(files) == len(expected), 'tables {} of {}', files, list(expected))
        for clustering in suite:
            absolute, indices, labels = expected[repr(clustering)]
            rows = s04.read(os.path.join(clustering.output_dir('outputs', metadata, DistanceByDTW()), 'medoid_distances.csv'))
            k = len(indices)
            require(rows[0] == ['k'] + [str(i) for i in range(k)] and [r[0] for r in rows[1:]] == rows[0][1:], 'table {}', rows)
            table = np.array([[float(v) for v in r[1:]] for r in rows[1:]])
            want = matrix[np.ix_(indices, indices)]
            require(np.all(np.abs(table - want) <= 0.0005 + 1e-9), '{!r}: distances {} instead of {}', clustering,
                    table.tolist(), want.tolist())
    ctx.nontrivial(len(expected) >= 2 and tuple(spec['corner']) != (0, 0))
    ctx.tag(spec['kind'], 'clusterings:{}'.format(len(expected)), 'variance' if spec['variance'] else 'plain')


# ---------------------------------------------------------------- elbows

@st.composite
def elbow_spec(draw):
    one = draw(c05.analysis_spec())
    one['kind'] = 'kmedoids'
    one['mode'] = draw(st.sampled_from(['lite', 'robust']))
    n = one['shape'][0] * one['shape'][1]
    one['ks'] = draw(st.lists(st.integers(1, n), min_size=3, max_size=5, unique=True))
    one['stored'] = draw(st.booleans())
    return one


def run_elbow(spec, ctx):
    n = spec['shape'][0] * spec['shape'][1]
    with scratch_dir():
        metadata, suite, matrix = c05.setup_analysis(dict(spec, identifier='mine'))
        expected = c05.expected_medoids(spec, metadata, matrix)
        describe_suite(spec, metadata)
        if spec['stored']:
            commands.call('experiments.clustering.partition_analysis', 'processRequest', ['place', 'kmedoids', 'mine'])
        text = commands.call('experiments.clustering.find_elbows', 'call_parser', ['place', 'mine', '--log', 'WARN'])
    found = []
    for line in text.splitlines():
        for pattern, place in ((r'Seed (\d+)', 0), (r'Values of k: \[([\d, ]*)\]', 1), (r'Elbow found .*?k=(\d+)', 2)):
            match = re.search(pattern, line)
            if match and place == 0:
                found.append([match.group(1)])
            elif match:
                require(len(found) > 0 and len(found[-1]) == place, 'line {!r} after {}', line, found)
                found[-1].append(match.group(1))
    require(all(len(one) == 3 for one in found), 'output {!r}', text)
    require([int(seed) for seed, _, _ in found] == list(spec['seeds']), 'elbows {} for the seeds {}', found, spec['seeds'])
    ks = sorted(spec['ks'])
    for seed, printed, elbow in found:
        require([int(k) for k in printed.split(',')] == ks, 'counts {} instead of {}', printed, ks)
        costs = []
        for k in ks:
            _, indices, labels = expected['kmedoids_k{}_seed{}_{}'.format(k, seed, spec['mode'])]
            costs.append(sum(float(matrix[i, indices[labels[i]]]) ** 2 for i in range(n)))
        c06.check_elbow(ks, costs, int(elbow), 'seed {}'.format(seed))
    ctx.nontrivial(len(ks) >= 4)
    ctx.tag('seeds:{}'.format(len(found)), 'counts:{}'.format(len(ks)), 'stored' if spec['stored'] else 'fresh')


# ---------------------------------------------------------------- training data

AUTO = [0, 0, 1, 1, 0, True]


@st.composite
def extraction_spec(draw, criteria=('min_distance',)):
    shape = draw(st.sampled_from([[3, 4], [4, 3], [2, 4], [3, 3], [2, 5], [4, 4], [2, 3]]))
    n = shape[0] * shape[1]
    t = draw(st.sampled_from([16, 18]))
    kind = draw(st.sampled_from(['kmedoids', 'kmedoids', 'regular']))
    one = dict(shape=shape, t=t, values=s06.distinct_values(draw, shape, t), factors=[1.0 + b / 32.0 for b in draw(gen.noise(n))],
               corner=draw(st.sampled_from([[3, 7], [1, 0], [0, 1], [0, 0], [20, 2], [31, 40]])),
               scaled=draw(st.sampled_from([True, False])), spd=1, triangle=draw(gen.symmetric_matrix(n)), kind=kind, mode='lite',
               ks=draw(st.lists(st.sampled_from([2, 3, 1]), min_size=1, max_size=2, unique=True)),
               seeds=draw(st.lists(st.integers(0, 12), min_size=1, max_size=2, unique=True)) if kind == 'kmedoids' else [0],
               criterion=draw(st.sampled_from(criteria)), program='auto', runs=[])
    for _ in range(draw(st.sampled_from([1, 2]))):
        one['runs'].append(dict(count=draw(st.integers(1, 100)), seed=draw(st.sampled_from([None, 1, 0, 9])),
                                threshold=draw(st.sampled_from([None, 0, 2, 1, 4]))))
    one['test'] = draw(st.sampled_from([None, 3, 8]))
    one['error'] = draw(st.sampled_from([None, 'MSE', 'MASE', 'sMAPE']))
    return one


class ExtractionWorld(x01.CommandWorld):
    search = AUTO


class Described(object):
    '''Like s06.Suite: the clusterings as described.'''

    def __init__(self, spec):
        self.worlds = []
        for k in spec['ks']:
            for seed in spec['seeds']:
                one = dict(spec, trainer='auto', params=None, refit=False, test=spec['test'] or 8, error=spec['error'] or 'sMAPE',
                           clustering=dict(kind=spec['kind'], k=k, seed=seed, mode='lite'))
                one['train'] = spec['t'] - one['test']
                world = ExtractionWorld(one, install=not self.worlds)
                world.find_partition()
                self.worlds.append(world)
        self.world = self.worlds[0]


def run_extraction(spec, ctx):
    from spta.arima import AutoArimaParams
    with scratch_dir():
        suite = Described(spec)
        world = suite.world
        describe_suite(spec, world.region_metadata)
        commands.AUTO['tiny'] = lambda: AutoArimaParams(*AUTO)
        commands.call('experiments.clustering.partition_analysis', 'processRequest', ['place', spec['kind'], 'mine'])
        if spec['criterion'] == 'min_error':
            for k in spec['ks']:
                for seed in spec['seeds']:
                    words = ['train', 'place', 'tiny', spec['kind'], '-k', k, '--seed', seed]
                    words += ['--tp', spec['test']] if spec['test'] else []
                    words += ['--error', spec['error']] if spec['error'] else []
                    commands.call('experiments.auto_arima.solver', 'processRequest', words)
        medoids = {tuple(m) for w in suite.worlds for m in w.medoids}
        free = len(world.points()) - len(medoids)
        drawn = {}
        for turn, one in enumerate(spec['runs']):
            count = min(max(1, one['count'] * free // 100), free) if free else 1
            what = 'run {}: {} points, {}'.format(turn + 1, count, one)
            words = ['place', spec['kind'], 'mine', spec['criterion'], '--random', count, '--log', 'WARN']
            for name in ('seed', 'threshold'):
                if one[name] is not None:
                    words += [{'seed': '--random-seed'}.get(name, '--' + name), one[name]]
            if spec['criterion'] == 'min_error':
                words += ['--auto-arima', 'tiny']
                words += ['--tp', spec['test']] if spec['test'] else []
                words += ['--error', spec['error']] if spec['error'] else []
            for f in s04.tables():
                os.utime(f, ns=(0, 0))
            try:
                commands.call('experiments.clustering.extraction_lstm', 'processRequest', words)
            except commands.Failed as failure:
                require(not free or s06.cannot_serve(suite, dict(one, criterion=spec['criterion']), count), '{}: {}', what, failure)
                ctx.tag('not enough')
                continue
            require(free, 'training data although all points are medoids')
            files = [f for f in s04.tables() if os.stat(f).st_mtime_ns != 0]
            require(len(files) == 3 and all(f.startswith('./outputs/') for f in files), '{}: files {}', what, files)
            tables = [s04.read(f) for f in files]
            hist = [table for table in tables if table[0][0] != 'region_id']
            of_medoids = [(f, table) for f, table in zip(files, tables) if table[0][0] == 'region_id' and os.path.basename(f).startswith('medoid_data')]
            rows = [table for table in tables if table[0][0] == 'region_id' and table not in [m[1] for m in of_medoids]]
            require(len(hist) == 1 and len(of_medoids) == 1 and len(rows) == 1, '{}: tables {}', what, files)
            require(len(rows[0]) == count + 1, '{}: {} rows', what, len(rows[0]) - 1)
            points = s06.check_choices(rows[0], hist[0], suite, spec['criterion'], one['threshold'] or 0, world.matrix, what)
            require(len(set(points)) == count and not medoids & set(points), '{}: points {} with the medoids {}', what, points,
                    medoids)
            seed = one['seed'] or 0
            require(drawn.setdefault((seed, count), points) == points, '{}: drew {} and before {}', what, points,
                    drawn[seed, count])
            got = []
            for row in of_medoids[0][1][1:]:
                chosen, index, values = s06.check_row(row, of_medoids[0][1][0], suite, 'medoid table')
                x, y = chosen.medoids[index]
                require(s04.near(values, world.seen[:, x, y]), 'medoid table: {} instead of {}', row, world.seen[:, x, y])
                got.append((s06.name_of(chosen), index))
            want = [(s06.name_of(w), i) for w in suite.worlds for i in range(len(w.medoids))]
            require(got == want, 'medoid table with {} instead of {}', got, want)
            ctx.nontrivial(count >= 2 and len(suite.worlds) >= 2 and spec['corner'] != [0, 0])
    ctx.tag(spec['criterion'], spec['kind'], 'scaled' if spec['scaled'] else 'unscaled')


SUBS = [Sub('matrix', matrix_spec, run_matrix, quick=60, thorough=1000, shards=(1, 4)),
        Sub('workers', lambda: matrix_spec(workers=(2, 3, 1)), run_matrix, quick=6, thorough=60, shards=(1, 2)),
        Sub('analysis', analysis_spec, run_analysis, quick=100, thorough=2000, shards=(3, 8)),
        Sub('elbows', elbow_spec, run_elbow, quick=100, thorough=2000, shards=(2, 8)),
        Sub('extraction', extraction_spec, run_extraction, quick=80, thorough=1600, shards=(3, 8)),
        Sub('by error', lambda: extraction_spec(criteria=('min_error',)), run_extraction, quick=24, thorough=400, shards=(4, 8),
            case_timeout=600)]
