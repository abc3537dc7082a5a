'''S04: query results report the right point, forecast, observation and error.'''
import csv
import functools
import math
import os
import re

import numpy as np
from hypothesis import strategies as st

from .. import gen, series, solve
from ..core import Sub, require, scratch_dir

RULE = ('results of 1..4 queries on one region of 2..20 points at some corner of the dataset, each for any rectangle, in-sample or '
        'with 1..4 future samples, with any test length, error type, partition and medoids, suite labels or neither, of solvers that differ in one respect, with '
        'arbitrary forecasts and errors (some missing), written to tables one after another and read back afterwards, up to 1500 samples long; '
        'non-trivial: a rectangle of at least two points that starts away from the corner of a region with an offset')
ASSUMPTIONS = ['numbers are compared up to the three (two for distances) decimals printed',
               'medoids belong to their clusters; rectangles are not empty']

KINDS = ['clustered', 'clustered', 'plain', 'classifier']


@st.composite
def query_spec(draw, x_len, y_len, t):
    x1, x2, y1, y2 = draw(gen.rectangle(x_len, y_len) | gen.large_rectangle(x_len, y_len))
    n = (x2 - x1) * (y2 - y1)
    test = draw(st.sampled_from([2, 3, 1, 4]))
    future = draw(st.sampled_from([0, 2, 0, 1, 3, 4]))
    length = future or test
    return dict(rectangle=[x1, x2, y1, y2], test=test, future=future, error=draw(st.sampled_from(['MASE', 'sMAPE', 'MSE'])),
                forecast=draw(gen.grid_values(length * n, ('fine', 'temperature'))),
                errors=[b / 16.0 for b in draw(gen.noise(n))],
                missing=draw(st.lists(st.integers(0, n - 1), max_size=2)),
                suite_labels=[b % 7 for b in draw(gen.noise(n))])


@st.composite
def spec(draw, shapes=None):
    x_len, y_len = draw(st.sampled_from(shapes or [[3, 4], [4, 3], [2, 3], [5, 4], [1, 4], [4, 1], [1, 2]]))
    n = x_len * y_len
    t = draw(st.sampled_from([5, 6, 8]))
    labels = draw(gen.labels(n, max_k=4, allow_empty=False))
    medoids = []
    for c in range(labels['k']):
        own = [i for i, label in enumerate(labels['labels']) if label == c]
        medoids.append(own[draw(st.integers(0, len(own) - 1))])
    return dict(shape=[x_len, y_len], corner=draw(st.sampled_from([[3, 7], [12, 0], [0, 5], [0, 0], [40, 41]])),
                scaled=draw(st.booleans()), values=draw(gen.grid_values(t * n, ('fine', 'temperature'))), labels=labels,
                medoids=medoids, kind=draw(st.sampled_from(KINDS)),
                regular=draw(st.booleans()), seed=draw(st.integers(0, 20)), mode=draw(st.sampled_from(['lite', 'robust'])),
                queries=draw(st.lists(query_spec(x_len, y_len, t), min_size=1, max_size=4)),
                order=draw(st.sampled_from([False, True])))


SOLVERS = {'plain': ['params', 'model', 'region', 'scaled'],
           'clustered': ['params', 'model', 'region', 'scaled', 'clustering', 'seed', 'mode'],
           'classifier': ['params', 'model', 'region', 'scaled', 'measure', 'suite', 'type']}


@st.composite
def twin_spec(draw, respects=('future', 'future', 'test', 'error')):
    '''Queries that are easily confused: as many future samples as test samples, or one respect changed.'''
    one = draw(spec())
    first = one['queries'][0]
    other = dict(first)
    n = (first['rectangle'][1] - first['rectangle'][0]) * (first['rectangle'][3] - first['rectangle'][2])
    what = draw(st.sampled_from(respects))
    if what == 'future':
        other['future'] = 0 if first['future'] else first['test']
    elif what == 'test':
        other['test'] = first['test'] % 4 + 1
    elif what == 'solver':
        # another solver: one respect of its description changed
        other['solver'] = draw(st.sampled_from(SOLVERS[one['kind']]))
    else:
        other['error'] = {'MASE': 'MSE', 'MSE': 'sMAPE', 'sMAPE': 'MASE'}[first['error']]
    length = other['future'] or other['test']
    other['forecast'] = draw(gen.grid_values(length * n, ('fine', 'temperature')))
    one['queries'].insert(draw(st.integers(0, len(one['queries']))), other)
    return one


@functools.lru_cache(None)
def coinciding(x_len, y_len):
    '''Pairs of rectangles whose numbers read the same when two neighbours (or all four) are written together.'''
    rectangles = [(x1, x2, y1, y2) for x1 in range(x_len) for x2 in range(x1 + 1, x_len + 1)
                  for y1 in range(y_len) for y2 in range(y1 + 1, y_len + 1)]
    pairs = []
    for template in ('{}{}-{}-{}', '{}-{}{}-{}', '{}-{}-{}{}', '{}{}{}{}'):
        read = {}
        for rectangle in rectangles:
            read.setdefault(template.format(*rectangle), []).append(rectangle)
        pairs += [[list(group[0]), list(group[-1])] for group in read.values() if len(group) > 1]
    return pairs


@st.composite
def name_spec(draw):
    one = draw(spec(shapes=[[12, 12], [1, 120], [120, 1]]))
    pairs = coinciding(*one['shape'])
    first = dict(one['queries'][0], test=1, future=draw(st.sampled_from([0, 1])), missing=[])
    one['queries'] = []
    for rectangle in pairs[draw(st.integers(0, len(pairs) - 1))]:
        n = (rectangle[1] - rectangle[0]) * (rectangle[3] - rectangle[2])
        noise = list(draw(gen.noise(3 * n)))
        one['queries'].append(dict(first, rectangle=rectangle, forecast=[b / 8.0 for b in noise[:n]],
                                   errors=[b / 16.0 for b in noise[n:2 * n]], suite_labels=[b % 7 for b in noise[2 * n:]]))
    return one


@st.composite
def long_spec(draw):
    '''A few points with up to a year of samples and more: every sample is reported.'''
    kind = draw(st.sampled_from(KINDS))
    lengths = [1001, 365, 1500, 21, 60] if kind != 'clustered' else [21, 60]
    queries = [dict(future=draw(st.sampled_from([0, 1001, 1500, 366, 30])), test=draw(st.sampled_from(lengths)),
                    error=draw(st.sampled_from(['MASE', 'sMAPE', 'MSE']))) for _ in range(draw(st.integers(1, 2)))]
    return dict(shape=draw(st.sampled_from([[1, 2], [2, 1], [1, 3]])), kind=kind, scaled=draw(st.booleans()), queries=queries,
                noise=draw(st.integers(0, 10 ** 6)), order=draw(st.booleans()), seed=draw(st.integers(0, 20)))


def run_long(spec, ctx):
    rng = np.random.RandomState(spec['noise'])
    x_len, y_len = spec['shape']
    n = x_len * y_len
    t = max(q['test'] for q in spec['queries']) + 3
    queries = []
    for query in spec['queries']:
        y1 = int(rng.randint(y_len))
        width = x_len * (y_len - y1)
        queries.append(dict(query, rectangle=[0, x_len, y1, y_len], missing=[], suite_labels=[1] * width,
                            errors=(rng.randint(0, 99, size=width) / 16.0).tolist(),
                            forecast=(rng.randint(-999, 999, size=width * (query['future'] or query['test'])) / 8.0).tolist()))
    run(dict(spec, queries=queries, corner=[3, 7], values=(rng.randint(-999, 999, size=t * n) / 8.0).tolist(),
             labels=dict(labels=[0] + [1] * (n - 1), k=2), medoids=[0, n - 1], regular=False, mode='lite', lines=False), ctx)
    ctx.nontrivial(max(q['future'] or q['test'] for q in queries) > 20)
    ctx.tag('longest:{}'.format(max(q['future'] or q['test'] for q in queries)))


def numbers(text):
    return [float(v) for v in re.findall(r'[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan)', text)]


def near(got, want, decimals=3):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    return got.shape == want.shape and bool(np.all((np.isnan(got) & np.isnan(want)) |
                                                   (np.abs(got - want) <= 0.51 * 10 ** -decimals + 1e-7 * np.abs(want))))


class Expected(object):
    '''What a result has to report, from the spec alone.'''

    def __init__(self, spec, query):
        x_len, y_len = spec['shape']
        t = len(spec['values']) // (x_len * y_len)
        self.data = np.array(spec['values']).reshape(t, x_len, y_len)
        self.seen = self.data
        if spec['scaled']:
            low, high = self.data.min(axis=0), self.data.max(axis=0)
            self.seen = (self.data - low) / np.where(high > low, high - low, 1.0)
        self.labels = np.array(spec['labels']['labels']).reshape(x_len, y_len)
        self.medoids = [(m // y_len, m % y_len) for m in spec['medoids']]
        self.x1, self.x2, self.y1, self.y2 = query['rectangle']
        self.width, self.height = self.x2 - self.x1, self.y2 - self.y1
        self.length = query['future'] or query['test']
        self.forecast = np.array(query['forecast']).reshape(self.length, self.width, self.height)
        self.errors = np.array(query['errors']).reshape(self.width, self.height)
        for i in query['missing']:
            self.forecast[:, i // self.height, i % self.height] = math.nan
            self.errors[i // self.height, i % self.height] = math.nan
        self.test = self.data[t - query['test']:, self.x1:self.x2, self.y1:self.y2]
        self.points = gen.points_of(self.width, self.height)
        self.suite_labels = {p: '{}-0-{}'.format(label + 2, label) for p, label in zip(self.points, query['suite_labels'])}
        self.test_len = query['test']

    def clusters(self):
        return sorted({int(self.labels[x + self.x1, y + self.y1]) for x, y in self.points})

    def medoid_distance(self):
        '''Root mean square over the clusters involved of the summed warping distances to their medoid.'''
        test = self.seen[len(self.seen) - self.test_len:]
        sums = []
        for c in self.clusters():
            mx, my = self.medoids[c]
            sums.append(math.fsum(math.sqrt(series.dtw_squared(list(test[:, mx, my]), list(test[:, x + self.x1, y + self.y1])))
                                  for x, y in self.points))
        return math.sqrt(math.fsum(s * s for s in sums) / len(sums))

    def mean_squared(self):
        known = [float(e) ** 2 for e in self.errors.reshape(-1) if not math.isnan(e)]
        return math.fsum(known) / len(known) if known else math.nan


def make_result(spec, query, region_metadata, spt_region):
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata, kmedoids_metadata_generator
    from spta.clustering.regular import RegularClusteringMetadata, regular_metadata_generator
    from spta.distance.dtw import DistanceByDTW
    from spta.distance.rmse import DistanceByRMSE
    from spta.model.knn import KNNParams
    from spta.model.mean import MeanOfPastParams
    from spta.region import Point, Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.spatial import SpatialRegion
    from spta.region.temporal import SpatioTemporalRegion
    from spta.solver.metadata import SolverMetadataBuilder
    from spta.solver.result import PredictionQueryResultBuilder
    want = Expected(spec, query)
    changed = query.get('solver')
    params = {'params': MeanOfPastParams(30), 'model': KNNParams(3, DistanceByDTW())}.get(changed, MeanOfPastParams(3))
    measure = DistanceByRMSE() if changed == 'measure' else DistanceByDTW()
    if changed in ('region', 'scaled'):
        md = region_metadata
        region_metadata = SpatioTemporalRegionMetadata('other' if changed == 'region' else md.name, md.region, md.year_start, md.year_end,
                                                       md.spd, scaled=md.scaled != (changed == 'scaled'))
    builder = SolverMetadataBuilder(region_metadata, params, query['test'], query['error'])
    k = spec['labels']['k']
    mode = {'lite': 'robust', 'robust': 'lite'}[spec['mode']] if changed == 'mode' else spec['mode']
    clustering = RegularClusteringMetadata(k) if spec['regular'] != (changed == 'clustering') else \
        KmedoidsClusteringMetadata(k, random_seed=spec['seed'] + (changed == 'seed'), mode=mode, verbose=False)
    suite = regular_metadata_generator([2, 3, 8]) if changed == 'type' else kmedoids_metadata_generator([2, 3, 8], [0])
    suite.identifier = 'others' if changed == 'suite' else 'mine'
    if spec['kind'] == 'clustered':
        builder = builder.with_clustering(clustering, measure)
    elif spec['kind'] == 'classifier':
        builder = builder.for_suite(suite, measure)
    result = PredictionQueryResultBuilder(
        solver_metadata=builder.build(), forecast_len=want.length,
        forecast_subregion=SpatioTemporalRegion(want.forecast.copy('K')),
        test_subregion=None if query['future'] else SpatioTemporalRegion(want.test.copy('K')),
        error_subregion=SpatialRegion(want.errors.copy('K')), prediction_region=Region(*query['rectangle']),
        spt_region=spt_region, output_home='given', is_out_of_sample=query['future'] > 0)
    if spec['kind'] == 'clustered':
        partition = gen.build_partition(spec['labels'], *spec['shape'])
        partition.medoids = [Point(x, y) for x, y in want.medoids]
        result = result.with_partition(partition)
    elif spec['kind'] == 'classifier':
        result = result.from_classifier(suite, {Point(*p): label for p, label in want.suite_labels.items()})
    return result.build(), want, clustering, suite


def check_lines(spec, query, result, want, p):
    from spta.region import Point
    lines = result.lines_for_point(Point(*p))
    place = [p[0] + want.x1 + spec['corner'][0], p[1] + want.y1 + spec['corner'][1]]
    require(len(lines) == (3 if query['future'] else 4), 'lines {}', lines)
    coordinates = [int(v) for v in re.findall(r'\d+', lines[0].split('(cluster')[0].split('(label')[0])]
    require(lines[0].startswith('Point') and coordinates == place, 'line {} for the point {} of the dataset', lines[0], place)
    if spec['kind'] == 'clustered':
        require(lines[0].endswith('(cluster {})'.format(want.labels[p[0] + want.x1, p[1] + want.y1])), 'line {} with labels {}',
                lines[0], want.labels.tolist())
    elif spec['kind'] == 'classifier':
        require(lines[0].endswith('(label {})'.format(want.suite_labels[p])), 'line {} with label {}', lines[0],
                want.suite_labels[p])
    start = 'Forecast (future):' if query['future'] else 'Forecast:'
    require(lines[1].startswith(start), 'line {} for a forecast with {} future samples', lines[1], query['future'])
    require(near(numbers(lines[1][len(start):]), want.forecast[:, p[0], p[1]]), 'line {} at {} for the forecast {}', lines[1], p,
            want.forecast[:, p[0], p[1]])
    if not query['future']:
        require(lines[2].startswith('Test:') and near(numbers(lines[2]), want.test[:, p[0], p[1]]), 'line {} at {} for {}',
                lines[2], p, want.test[:, p[0], p[1]])
    head, _, value = lines[-1].partition('):')
    require(head == 'Error ({}'.format(query['error']) and near(numbers(value), [want.errors[p]]), 'line {} at {} for {} {}',
            lines[-1], p, query['error'], want.errors[p])


def check_tables(spec, query, want, clustering, suite, rows, summary):
    extra = {'clustered': ['cluster_index'], 'classifier': ['label'], 'plain': []}[spec['kind']]
    header = ['Point'] + extra + ['error', 'forecast_series'] + ([] if query['future'] else ['test_series'])
    require(rows[0] == header, 'columns {} instead of {}', rows[0], header)
    require(len(rows) == 1 + len(want.points), '{} rows for {} points', len(rows) - 1, len(want.points))
    for p, row in zip(want.points, rows[1:]):
        named = dict(zip(header, row))
        place = [p[0] + want.x1 + spec['corner'][0], p[1] + want.y1 + spec['corner'][1]]
        require([int(v) for v in re.findall(r'\d+', named['Point'])] == place, 'row {} instead of the point {} of the dataset',
                row, place)
        if spec['kind'] == 'clustered':
            require(int(named['cluster_index']) == want.labels[p[0] + want.x1, p[1] + want.y1], 'row {} with labels {}', row,
                    want.labels.tolist())
        elif spec['kind'] == 'classifier':
            require(named['label'] == want.suite_labels[p], 'row {} with label {}', row, want.suite_labels[p])
        require(near(numbers(named['error']), [want.errors[p]]), 'row {} with error {}', row, want.errors[p])
        require(near(numbers(named['forecast_series']), want.forecast[:, p[0], p[1]]), 'row {} with forecast {}', row,
                want.forecast[:, p[0], p[1]])
        if not query['future']:
            require(near(numbers(named['test_series']), want.test[:, p[0], p[1]]), 'row {} with test series {}', row,
                    want.test[:, p[0], p[1]])
    require(len(summary) == 2 and len(summary[0]) == len(summary[1]), 'summary {}', summary)
    named = dict(zip(*summary))
    require(int(named['tp']) == query['test'] and near(numbers(named['mse']), [want.mean_squared()]),
            'summary {} with test length {} and mean squared error {}', named, query['test'], want.mean_squared())
    if spec['kind'] == 'clustered':
        for key, value in clustering.as_dict().items():
            require(named[key] == str(value), 'summary {} of the clustering {}', named, clustering)
        require(int(named['clusters']) == len(want.clusters()), 'summary {} with the clusters {}', named, want.clusters())
        require(near(numbers(named['dtw_r_m']), [want.medoid_distance()], 2), 'summary {} with the distance {} to medoids', named,
                want.medoid_distance())
    elif spec['kind'] == 'classifier':
        require(named['suite'] == repr(suite), 'summary {} of the suite {}', named, suite)


def tables():
    return sorted(os.path.join(where, f) for where, _, names in os.walk('.') for f in names)


def read(path):
    with open(path, newline='') as f:
        return list(csv.reader(f, delimiter=' ', quotechar='|'))


def run(spec, ctx):
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.scaling import ScaleFunction
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['shape']
    t = len(spec['values']) // (x_len * y_len)
    cx, cy = spec['corner']
    region_metadata = SpatioTemporalRegionMetadata('place', Region(cx, cx + x_len, cy, cy + y_len), 2015, 2015, 1,
                                                   scaled=spec['scaled'])
    spt_region = SpatioTemporalRegion(np.array(spec['values']).reshape(t, x_len, y_len), region_metadata)
    if spec['scaled']:
        spt_region = ScaleFunction(x_len, y_len).apply_to(spt_region, t)
    with scratch_dir():
        written, earlier = {}, []
        for number, query in enumerate(spec['queries']):
            result, want, clustering, suite = make_result(spec, query, region_metadata, spt_region)
            require([tuple(p) for p in result] == want.points, 'points {} of the result', [tuple(p) for p in result])
            if spec['order']:
                result.save_as_csv()
            for p in want.points if spec.get('lines', True) else []:
                check_lines(spec, query, result, want, p)
            result.save_as_csv()
            key = (tuple(query['rectangle']), query['future'], query['test'], query['error'], query.get('solver'))
            if key[4] in ('seed', 'mode') and repr(clustering).startswith('regular'):
                # a regular clustering has neither
                key = key[:4] + (None,)
            mine = [f for f in tables() if f not in earlier]
            require(all(f.startswith('./given/') for f in tables()), 'files {} outside of the output folder', tables())
            if key in written:
                require(not mine, 'the same query again: more files {}', mine)
                mine = written[key][0]
            else:
                require(len(mine) == 2, 'new files {} for the query {} after {}', mine, key, list(written))
            written[key] = (mine, query, want, clustering, suite)
            earlier = tables()
        for files, query, want, clustering, suite in written.values():
            contents = [read(f) for f in files]
            contents.sort(key=lambda rows: rows[0][0] != 'Point')
            check_tables(spec, query, want, clustering, suite, *contents)
    def moved(query):
        x1, x2, y1, y2 = query['rectangle']
        return (x1, y1) != (0, 0) and (x2 - x1) * (y2 - y1) >= 2
    ctx.nontrivial(spec['corner'] != [0, 0] and any(moved(q) for q in spec['queries']))
    ctx.tag(spec['kind'], 'scaled' if spec['scaled'] else 'unscaled', 'queries:{}'.format(len(written)),
            *['solver:{}'.format(q['solver']) for q in spec['queries'] if q.get('solver')],
            *['future' if q['future'] else 'in-sample' for q in spec['queries']])


# ---------------------------------------------------------------- through a trained solver

@st.composite
def solver_query_spec(draw):
    one = draw(solve.solver_spec(trainers=['mean', 'harness', 'knn']))
    one['rectangle'] = draw(gen.rectangle(*one['shape']) | gen.large_rectangle(*one['shape']))
    one['future'] = draw(st.sampled_from([0, 2, 1]))
    return one


def run_solver(spec, ctx):
    from spta.region import Region
    with scratch_dir():
        world = solve.World(spec)
        world.find_partition()
        solver = world.solver_trainer().train('results')
        before = tables()
        result = solver.predict(Region(*spec['rectangle']), spec['future'], output_home='given', plot=False)
        result.save_as_csv()
        files = [f for f in tables() if f not in before]
        require(len(files) == 2 and all(f.startswith('./given/') for f in files), 'files {}', files)
        contents = sorted([read(f) for f in files], key=lambda rows: rows[0][0] != 'Point')
    x1, x2, y1, y2 = spec['rectangle']
    length = spec['future'] or spec['test']
    places = [(x, y) for x in range(x1, x2) for y in range(y1, y2)]
    forecast = np.array([world.forecast(p, length, spec['future'] > 0) for p in places])
    query = dict(rectangle=spec['rectangle'], test=spec['test'], future=spec['future'], error=spec['error'], missing=[],
                 forecast=forecast.T.reshape(-1), errors=[world.error(p) for p in places], suite_labels=[0] * len(places))
    as_result = dict(shape=spec['shape'], corner=spec['corner'], scaled=spec['scaled'], values=world.data.reshape(-1),
                     labels=dict(labels=world.labels.reshape(-1), k=len(world.medoids)), kind='clustered',
                     medoids=[x * world.y_len + y for x, y in world.medoids])
    want = Expected(as_result, query)
    check_tables(as_result, query, want, world.clustering_metadata(), None, *contents)
    ctx.nontrivial(len(want.clusters()) >= 2)
    solve.tag(spec, ctx)


SUBS = [Sub('reports', spec, run, quick=600, thorough=12000, shards=(4, 8)),
        Sub('solvers', lambda: twin_spec(respects=('solver',)), run, quick=240, thorough=4000, shards=(3, 8)),
        Sub('twins', twin_spec, run, quick=200, thorough=4000, shards=(2, 8)),
        Sub('names', name_spec, run, quick=40, thorough=800, shards=(2, 8)),
        Sub('long', long_spec, run_long, quick=60, thorough=800, shards=(2, 8)),
        Sub('solver', solver_query_spec, run_solver, quick=80, thorough=2000, shards=(3, 8))]
