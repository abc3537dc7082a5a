'''S06: training data for a classifier pairs random points that are not medoids with their best medoid.'''
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen, solve
from ..core import Sub, require, must_raise, scratch_dir
from . import c05, s04

RULE = ('analysed suites of 1..6 clusterings over generated datasets of 6..16 points at offset rectangles, scaled or not, with '
        'trained and saved solvers for the error criterion: both tables of both criteria, with and without threshold, for '
        'several seeds in a row, and the medoid table are read back; choices among generated medoid lists with tied distances '
        'in long histories; draws for many seeds; non-trivial: at least two clusterings, an offset region and at least two '
        'points drawn (tables), a threshold that is reached or a tie (choices)')
ASSUMPTIONS = ['the rectangle of the dataset is at most 40 points away from the origin',
               'errors that agree up to rounding (1e-9) without being of the same medoid are interchangeable',
               'model parameters are always given, as the experiment does (only the error criterion needs them)']


def distinct_values(draw, shape, t):
    '''Values by which points are recognised in a table with three decimals, even after scaling.'''
    n = shape[0] * shape[1]
    noise = np.array(list(draw(gen.noise(t * n))), dtype=float).reshape(t, n) / 256.0
    for i in range(n):
        noise[0, i], noise[1, i] = -5.0, 30.0
        for bit in range(4):
            noise[2 + bit, i] += 10.0 * ((i >> bit) & 1)
    # positive, for the percentage error
    return [280.0 + float(v) for v in noise.reshape(-1)]


@st.composite
def table_spec(draw):
    spec = draw(solve.solver_spec(trainers=['mean', 'harness', 'knn'],
                                  shapes=[[3, 4], [4, 3], [2, 4], [3, 3], [2, 5], [1, 7], [4, 4], [2, 3]]))
    spec['values'] = distinct_values(draw, spec['shape'], spec['train'] + spec['test'])
    spec['ks'] = draw(st.lists(st.sampled_from([2, 3, 1, 4]), min_size=draw(st.sampled_from([2, 1])), max_size=3, unique=True))
    spec['seeds'] = draw(st.lists(st.integers(0, 12), min_size=1, max_size=2, unique=True))
    spec['corner'] = draw(st.sampled_from([[3, 7], [1, 0], [0, 1], [0, 0], [20, 2], [31, 40], [2, 3]]))
    spec['home'] = draw(st.sampled_from(['outputs', 'elsewhere']))
    run = st.fixed_dictionaries(dict(count=st.integers(1, 100), seed=st.integers(0, 50),
                                     criterion=st.sampled_from(['min_distance', 'min_error']),
                                     threshold=st.sampled_from([0, 0, 2, 1, 3])))
    spec['runs'] = draw(st.lists(run, min_size=2, max_size=4))
    if len(spec['runs']) > 2:
        spec['runs'][1]['seed'] = spec['runs'][0]['seed']
        spec['runs'][1]['count'] = spec['runs'][0]['count']
    return spec


class Suite(object):
    '''The analysed suite in the current directory, and its medoids by definition.'''

    def __init__(self, spec, with_solvers):
        from spta.clustering.kmedoids import kmedoids_metadata_generator
        self.worlds = []
        for k in spec['ks']:
            for seed in spec['seeds']:
                clustering = dict(kind='kmedoids', k=k, seed=seed, mode='lite')
                world = solve.World(dict(spec, clustering=clustering), install=not self.worlds)
                world.find_partition()
                self.worlds.append(world)
        self.world = self.worlds[0]
        self.suite = kmedoids_metadata_generator(k_values=spec['ks'], seed_values=spec['seeds'], mode='lite', verbose=False)
        self.suite.identifier = 'mine'
        c05.analyze(self.world.region_metadata, self.suite)
        if with_solvers:
            for world in self.worlds:
                world.solver_trainer().train('results').save()
        if spec['home'] != 'outputs':
            os.rename('outputs', spec['home'])

    def medoids(self):
        return {tuple(m) for world in self.worlds for m in world.medoids}


def name_of(world):
    c = world.spec['clustering']
    if c['kind'] == 'regular':
        return 'regular_k{}'.format(c['k'])
    return 'kmedoids_k{}_seed{}_lite'.format(c['k'], c['seed'])


def check_row(row, header, suite, what):
    '''(world, cluster index, series) of a row of a table.'''
    require(len(row) == len(header), '{}: row {} for the columns {}', what, row, header)
    named = dict(zip(header, row))
    world = suite.world
    require(named['region_id'] == repr(world.region_metadata), '{}: region of {}', what, row)
    found = [w for w in suite.worlds if all(named[key] == str(value) for key, value in w.clustering_metadata().as_dict().items())]
    require(len(found) == 1, '{}: clustering of {}', what, row)
    index = int(named['cluster_index'])
    require(0 <= index < len(found[0].medoids), '{}: cluster of {}', what, row)
    x, y = found[0].medoids[index]
    corner = world.spec['corner']
    require([int(named['medoid_x']), int(named['medoid_y'])] == [x + corner[0], y + corner[1]],
            '{}: the medoid of {} is at {} of the region at {}', what, row, (x, y), corner)
    t = world.spec['train'] + world.spec['test']
    require(header[-t:] == ['s{}'.format(i) for i in range(t)] and len(header) == len(set(header)), '{}: columns {}', what, header)
    return found[0], index, [float(v) for v in row[-t:]]


def check_choices(rows, hist, suite, criterion, threshold, matrix, what):
    header = rows[0]
    world = suite.world
    chosen, points = {}, []
    for row in rows[1:]:
        chosen_world, index, series = check_row(row, header, suite, what)
        near = [p for p in world.points() if s04.near(series, world.seen[:, p[0], p[1]])]
        require(len(near) == 1, '{}: the series of {} is that of the points {}', what, row, near)
        point = near[0]
        points.append(point)
        candidates = []
        for w in suite.worlds:
            for i, medoid in enumerate(w.medoids):
                if threshold and chosen.get((name_of(w), i), 0) >= threshold:
                    continue
                if criterion == 'min_distance':
                    score = matrix[point[0] * world.y_len + point[1], medoid[0] * world.y_len + medoid[1]]
                elif w.labels[point] == i:
                    score = w.error(point)
                else:
                    continue
                if not np.isnan(score):
                    candidates.append((score, name_of(w), i, medoid))
        require(candidates, '{}: {} although there are no medoids left', what, row)
        best = min(c[0] for c in candidates)
        slack = 0.0 if criterion == 'min_distance' else 1e-9 * (1 + abs(best))
        tied = [c for c in candidates if c[0] <= best + slack]
        accepted = []
        for c in tied:
            # among medoids with the same score (of the same medoid) the first one; rounding may separate other medoids
            if criterion == 'min_distance' and accepted or c[3] in [a[3] for a in accepted]:
                continue
            accepted.append(c)
        require((name_of(chosen_world), index) in [c[1:3] for c in accepted],
                '{}: for {} the medoid {} of {} was chosen although the best are {}', what, point, index, name_of(chosen_world),
                accepted)
        key = (name_of(chosen_world), index)
        chosen[key] = chosen.get(key, 0) + 1
    require(hist[0] == ['clustering_repr', 'cluster_index', 'count'], '{}: columns {}', what, hist[0])
    counted = [((row[0], int(row[1])), int(row[2])) for row in hist[1:]]
    require(dict(counted) == chosen and len(counted) == len(chosen), '{}: counts {} of {}', what, counted, chosen)
    return points


def run_tables(spec, ctx):
    from spta.classifier.train_input import MedoidSeriesFormatter, TrainDataWithRandomPoints
    with scratch_dir():
        suite = Suite(spec, any(r['criterion'] == 'min_error' for r in spec['runs']))
        world = suite.world
        measure = world.distance()
        measure.load_distance_matrix_2d(world.region_metadata.distances_filename, world.region_metadata.region)
        _, params = world.trainer_and_params()
        data = TrainDataWithRandomPoints(world.region_metadata, measure)
        medoids = suite.medoids()
        free = len(world.points()) - len(medoids)
        drawn, owner = {}, {}
        for turn, one in enumerate(spec['runs']):
            count = min(max(1, one['count'] * free // 100), free) if free else 1
            what = 'run {}: {} points, {}'.format(turn + 1, count, one)
            arguments = dict(clustering_suite=suite.suite, count=count, random_seed=one['seed'], criterion=one['criterion'],
                             threshold=one['threshold'], output_home=spec['home'], model_params=params, test_len=spec['test'],
                             error_type=spec['error'])
            if not free:
                with must_raise(ValueError, 'drawing from a region where all points are medoids'):
                    data.evaluate_score_of_random_points(**arguments)
                ctx.tag('nothing free')
                continue
            before = {f: os.stat(f).st_mtime_ns for f in s04.tables()}
            for f in before:
                os.utime(f, ns=(0, 0))
            try:
                data.evaluate_score_of_random_points(**arguments)
            except ValueError as error:
                require(cannot_serve(suite, one, count), '{}: {}', what, error)
                ctx.tag('threshold too low')
                continue
            files = [f for f in s04.tables() if os.stat(f).st_mtime_ns != 0]
            require(len(files) == 2 and all(f.startswith('./{}/'.format(spec['home'])) for f in files), '{}: files {}', what, files)
            request = (one['criterion'], one['seed'], count)
            for f in files:
                require(owner.setdefault(f, request) == request, '{}: writes {} of the run {}', what, f, owner[f])
            rows, hist = sorted([s04.read(f) for f in files], key=lambda table: table[0][0] != 'region_id')
            require(len(rows) == count + 1, '{}: {} rows', what, len(rows) - 1)
            points = check_choices(rows, hist, suite, one['criterion'], one['threshold'], world.matrix, what)
            require(len(set(points)) == count, '{}: points {} are not different', what, points)
            require(not medoids & set(points), '{}: drew the medoids {}', what, sorted(medoids & set(points)))
            before = drawn.setdefault((one['seed'], count), points)
            require(before == points, '{}: drew {} and before {}', what, points, before)
            ctx.tag(one['criterion'], 'threshold' if one['threshold'] else 'no threshold')
            ctx.nontrivial(count >= 2 and len(suite.worlds) >= 2 and spec['corner'] != [0, 0])
            if free < len(world.points()) and turn == 0:
                with must_raise(ValueError, 'drawing {} of {} points'.format(free + 1, free)):
                    data.evaluate_score_of_random_points(**dict(arguments, count=free + 1, threshold=0, criterion='min_distance'))
        require(gen.exact(measure.distance_matrix, world.matrix), 'the distance matrix was modified')
        check_names(data, suite, params, spec, ctx)
        before = s04.tables()
        MedoidSeriesFormatter(world.region_metadata, measure, suite.suite).produce_csv(spec['home'])
        files = [f for f in s04.tables() if f not in before]
        require(len(files) == 1 and files[0].startswith('./{}/'.format(spec['home'])), 'medoid table {}', files)
        rows = s04.read(files[0])
    want = [(name_of(w), i) for w in suite.worlds for i in range(len(w.medoids))]
    got = []
    for row in rows[1:]:
        chosen, index, series = check_row(row, rows[0], suite, 'medoid table')
        x, y = chosen.medoids[index]
        require(s04.near(series, world.seen[:, x, y]), 'medoid table: {} instead of the series {}', row, world.seen[:, x, y])
        got.append((name_of(chosen), index))
    require(got == want, 'medoid table with {} instead of {}', got, want)
    ctx.tag('scaled' if spec['scaled'] else 'unscaled', 'clusterings:{}'.format(len(suite.worlds)))


def check_names(data, suite, params, spec, ctx):
    '''Requests for other points, criteria, models, forecasts or errors keep their tables in other files.'''
    from spta.arima import ArimaPDQ
    from spta.clustering.kmedoids import kmedoids_metadata_generator
    owner = {}
    other = kmedoids_metadata_generator(k_values=[2], seed_values=[1], mode='lite', verbose=False)
    other.identifier = 'other'
    for suite_name, suite_of in (('mine', suite.suite), ('other', other)):
        for criterion in ('min_distance', 'min_error'):
            for model in (params, ArimaPDQ(3, 0, 1)) if criterion == 'min_error' else (params, ):
                for test_len in (spec['test'], spec['test'] + 1) if criterion == 'min_error' else (spec['test'], ):
                    for error in ('MSE', 'MAPE', 'sMAPE') if criterion == 'min_error' else (spec['error'], ):
                        strategy = data.get_choice_strategy(criterion, spec['home'], model_params=model, test_len=test_len,
                                                            error_type=error)
                        for count in (1, 11):
                            for seed in (0, 1, 11):
                                request = (suite_name, criterion, repr(model), test_len, error, count, seed)
                                pair = strategy.csv_filepaths(output_home=spec['home'], clustering_suite=suite_of, count=count,
                                                              random_seed=seed)
                                require(len(set(pair)) == 2, 'both tables of {} in {}', request, pair)
                                for name in pair:
                                    before = owner.setdefault(name, request)
                                    require(before == request, 'the tables of {} and of {} are both in {}', before, request, name)


def cannot_serve(suite, one, count):
    '''Whether running out of medoids is possible: a threshold that does not reach, or models without a forecast.'''
    if one['threshold'] and count > 0:
        places = one['threshold'] * (sum(len(w.medoids) for w in suite.worlds) if one['criterion'] == 'min_distance' else 1)
        if count > places:
            return True
    if one['criterion'] == 'min_error':
        return any(all(np.isnan(w.error(p)) for w in suite.worlds) for p in suite.world.points()) or \
            bool(one['threshold']) and suite.world.spec.get('rule') == 'some'
    return False


# ---------------------------------------------------------------- choices among given medoids

@st.composite
def choice_spec(draw):
    shape = draw(st.sampled_from([[3, 3], [2, 4], [4, 2], [1, 6], [4, 4]]))
    n = shape[0] * shape[1]
    lists = draw(st.lists(st.lists(st.integers(0, n - 1), min_size=1, max_size=4, unique=True), min_size=1, max_size=5))
    return dict(shape=shape, corner=draw(st.sampled_from([[3, 7], [1, 0], [0, 1], [0, 0], [20, 2], [31, 40]])), lists=lists,
                triangle=draw(gen.symmetric_matrix(n)), points=draw(st.lists(st.integers(0, n - 1), min_size=2, max_size=12)),
                threshold=draw(st.sampled_from([1, 0, 2, 3])), scaled=draw(st.sampled_from([True, False])),
                earlier=draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 3)), max_size=3)))


def run_choice(spec, ctx):
    from spta.classifier.train_input import MedoidsChoiceMinDistance
    from spta.region import Point
    x_len, y_len = spec['shape']
    n = x_len * y_len
    t = 4
    world_spec = dict(spec, values=[float(v % 7 + v // n) for v in range(t * n)], train=3, test=1, factors=[1.0] * n, spd=1)
    with scratch_dir():
        world = solve.World(world_spec)
        measure = world.distance()
        measure.load_distance_matrix_2d(world.region_metadata.distances_filename, world.region_metadata.region)
        strategy = MedoidsChoiceMinDistance(world.region_metadata, measure)
    cx, cy = spec['corner']
    result = {'kmedoids_k{}_seed{}_lite'.format(len(medoids), i): [Point(m // y_len + cx, m % y_len + cy) for m in medoids]
              for i, medoids in enumerate(spec['lists'])}
    names = list(result)
    histogram = {}
    for i, j in spec['earlier'] if spec['threshold'] else []:
        if i < len(names) and j < len(spec['lists'][i]):
            histogram[names[i], j] = min(spec['threshold'], histogram.get((names[i], j), 0) + 1)
    counts = dict(histogram)
    reached = tied = False
    for turn, index in enumerate(spec['points']):
        what = 'choice {} for the point {}'.format(turn + 1, index)
        scores = [(world.matrix[index, m], i, j) for i, medoids in enumerate(spec['lists']) for j, m in enumerate(medoids)
                  if not spec['threshold'] or counts.get((names[i], j), 0) < spec['threshold']]
        reached = reached or len(scores) < sum(len(medoids) for medoids in spec['lists'])
        point = Point(index // y_len, index % y_len)
        if not scores:
            with must_raise(ValueError, what + ' with no medoids left'):
                strategy.choose_medoid(result, point, spec['threshold'], histogram)
            ctx.tag('exhausted')
            break
        best = min(scores)
        tied = tied or len([s for s in scores if s[0] == best[0]]) > 1
        got = strategy.choose_medoid(result, point, spec['threshold'], histogram)
        want = (names[best[1]], best[2], result[names[best[1]]][best[2]])
        require((got[0], int(got[1]), tuple(got[2])) == (want[0], want[1], tuple(want[2])), '{}: {} instead of {} among {}', what,
                got, want, scores)
        counts[names[best[1]], best[2]] = counts.get((names[best[1]], best[2]), 0) + 1
        require({(k[0], int(k[1])): v for k, v in histogram.items()} == counts, '{}: counted {} instead of {}', what, histogram,
                counts)
    require(gen.exact(measure.distance_matrix, world.matrix), 'the distance matrix was modified')
    ctx.nontrivial(reached or tied)
    ctx.tag(*[name for name, flag in (('reached', reached), ('tied', tied)) if flag])


# ---------------------------------------------------------------- draws

@st.composite
def draw_spec(draw):
    shape = draw(st.sampled_from([[3, 3], [2, 4], [4, 2], [1, 6], [5, 4], [6, 1], [2, 7]]))
    n = shape[0] * shape[1]
    lists = draw(st.lists(st.lists(st.integers(0, n - 1), min_size=1, max_size=4, unique=True), min_size=1, max_size=4))
    return dict(shape=shape, corner=draw(st.sampled_from([[3, 7], [1, 0], [0, 1], [0, 0], [20, 2]])), lists=lists,
                share=draw(st.integers(1, 4)), seeds=draw(st.lists(st.integers(0, 2 ** 31), min_size=2, max_size=5, unique=True)),
                scaled=draw(st.sampled_from([True, False])))


def run_draw(spec, ctx):
    from spta.classifier.train_input import TrainDataWithRandomPoints, extract_all_medoid_indices_from_suite_result
    from spta.region import Point
    x_len, y_len = spec['shape']
    n = x_len * y_len
    world_spec = dict(spec, values=[float(v % 7 + v // n) for v in range(4 * n)], train=3, test=1, factors=[1.0] * n, spd=1,
                      triangle=[1.0] * (n * (n - 1) // 2))
    with scratch_dir():
        world = solve.World(world_spec)
        data = TrainDataWithRandomPoints(world.region_metadata, world.distance())
    cx, cy = spec['corner']
    result = {'kmedoids_k{}_seed{}_lite'.format(len(medoids), i): [Point(m // y_len + cx, m % y_len + cy) for m in medoids]
              for i, medoids in enumerate(spec['lists'])}
    indices = extract_all_medoid_indices_from_suite_result(result, data.spt_region)
    want = sorted({m for medoids in spec['lists'] for m in medoids})
    require(sorted(int(i) for i in indices) == want, 'medoid indices {} instead of {}', indices, want)
    free = [p for p in world.points() if p[0] * y_len + p[1] not in want]
    if not free:
        ctx.tag('nothing free')
        return
    count = max(1, len(free) * spec['share'] // 4)
    before = {}
    seeds = spec['seeds'] + [s for s in range(600)]
    reached = set()
    for seed in seeds + spec['seeds'][::-1]:
        points = [tuple(int(v) for v in p) for p in
                  data.get_random_points_different_to_medoids(count, seed, indices, x_len, y_len)]
        require(len(points) == count and len(set(points)) == count and set(points) <= set(free),
                'seed {}: drew {} for {} of the points {}', seed, points, count, free)
        require(before.setdefault(seed, points) == points, 'seed {}: drew {} and before {}', seed, points, before[seed])
        reached |= set(points)
    # chance of missing a point is below 1e-10 for each of at most 20 points
    require(reached == set(free), 'the points {} are never drawn', sorted(set(free) - reached))
    if len(free) >= 3 and count < len(free):
        require(len({tuple(points) for points in before.values()}) > 1, 'all seeds draw {}', points)
    ctx.nontrivial(len(want) >= 2 and spec['corner'] != [0, 0] and count >= 2)
    ctx.tag('free:{}'.format(len(free)))


SUBS = [Sub('tables', table_spec, run_tables, quick=120, thorough=3000, shards=(6, 8)),
        Sub('choices', choice_spec, run_choice, quick=300, thorough=8000, shards=(2, 8)),
        Sub('draws', draw_spec, run_draw, quick=60, thorough=1200, shards=(1, 4))]
