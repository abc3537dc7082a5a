'''C08: cluster reports.'''
import csv
import glob
import logging
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require, scratch_dir
from . import p05
from .c05 import analysis_spec, analyze, expected_medoids, setup_analysis

RULE = ('reports of arbitrary crisp partitions (empty clusters included) of regions up to 7x7, suite analyses of generated '
        'datasets at offset rectangles with arbitrary distance matrices, medoid distance tables of 1..5 medoids '
        'and the reports of partitions that are reloaded; non-trivial: at least two clusters of different sizes, or medoids with different distances')
ASSUMPTIONS = ['costs are written with three decimals, coverages with one']


def read(path):
    with open(path, newline='') as f:
        return list(csv.reader(f, delimiter=' ', quotechar='|'))


@st.composite
def report_spec(draw):
    x_len, y_len = draw(st.integers(1, 7)), draw(st.integers(1, 7))
    return dict(shape=[x_len, y_len], labels=draw(gen.labels(x_len * y_len, max_k=6)), seed=draw(st.integers(0, 20)),
                corner=draw(st.tuples(st.integers(0, 9), st.integers(0, 9))), home=draw(st.sampled_from(['out', 'a/b'])))


def run_report(spec, ctx):
    from spta.clustering.factory import ClusteringFactory
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    x_len, y_len = spec['shape']
    n = x_len * y_len
    x, y = spec['corner']
    k = spec['labels']['k']
    labels = spec['labels']['labels']
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    metadata = SpatioTemporalRegionMetadata('place', Region(x, x + x_len, y, y + y_len), 2015, 2015, 1)
    algorithm = ClusteringFactory(DistanceByDTW()).instance(KmedoidsClusteringMetadata(k, random_seed=spec['seed']))
    with scratch_dir():
        algorithm.save_to_csv(partition, metadata, spec['home'])
        paths = glob.glob('**/*.csv', recursive=True)
        require(len(paths) == 1 and paths[0].startswith(algorithm.output_dir(spec['home'], metadata)), 'reports at {}', paths)
        rows = read(paths[0])
    require(rows[0] == ['cluster', 'points', 'coverage'], 'header {}', rows[0])
    rows = rows[1:]
    require([int(r[0]) for r in rows] == list(range(k)), 'rows for clusters {} with k={}', [r[0] for r in rows], k)
    for r in rows:
        size = labels.count(int(r[0]))
        require(int(r[1]) == size, 'cluster {} has {} points, reported {}', r[0], size, r[1])
        require(abs(float(r[2]) - 100.0 * size / n) <= 0.05 + 1e-9, 'cluster {}: coverage {} of {}/{} points', r[0], r[2],
                size, n)
    require(sum(int(r[1]) for r in rows) == n, 'points add up to {} of {}', sum(int(r[1]) for r in rows), n)
    require(gen.exact(partition.as_numpy, np.array(labels).reshape(x_len, y_len)), 'the partition was modified')
    sizes = [labels.count(c) for c in range(k)]
    ctx.nontrivial(len(set(sizes)) >= 2)
    ctx.tag('k:{}'.format(k), 'empty cluster' if 0 in sizes else 'no empty cluster')


def run_analysis(spec, ctx):
    from spta.clustering.factory import ClusteringFactory
    from spta.distance.dtw import DistanceByDTW
    x_len, y_len = spec['shape']
    n = x_len * y_len
    with scratch_dir():
        metadata, suite, matrix = setup_analysis(spec)
        expected = expected_medoids(spec, metadata, matrix)
        analyze(metadata, suite)
        rows = read(suite.analysis_csv_filepath('outputs', metadata, DistanceByDTW()))
        require(rows[0] == ['clustering', 'total_cost', 'medoids'], 'header {}', rows[0])
        require([r[0] for r in rows[1:]] == list(expected), 'rows {} instead of {}', [r[0] for r in rows[1:]], list(expected))
        costs = []
        for r in rows[1:]:
            absolute, indices, labels = expected[r[0]]
            cost = sum(float(matrix[i, indices[labels[i]]]) for i in range(n))
            require(abs(float(r[1]) - cost) <= 0.0005 + 1e-9 * cost, '{}: total cost {} instead of {}', r[0], r[1], cost)
            want = ' '.join('({},{})'.format(*p) for p in absolute)
            require(r[2].strip() == want, '{}: medoids {} instead of {}', r[0], r[2], want)
            costs.append(cost)
        # the report of each clustering of the suite
        for clustering in suite:
            folder = clustering.output_dir('outputs', metadata, DistanceByDTW())
            reports = glob.glob(os.path.join(folder, '*.csv'))
            require(len(reports) == 1, '{!r}: reports {}', clustering, reports)
            labels = [int(v) for v in expected[repr(clustering)][2]]
            got = [(int(r[0]), int(r[1])) for r in read(reports[0])[1:]]
            require(got == [(c, labels.count(c)) for c in range(clustering.k)], '{!r}: sizes {} for labels {}', clustering,
                    got, labels)
    ctx.nontrivial(len(set(costs)) >= 2)
    ctx.tag(spec['kind'])


@st.composite
def distances_spec(draw):
    x_len, y_len = draw(st.sampled_from([[1, 4], [2, 2], [3, 2], [2, 5], [4, 3], [5, 1]]))
    n = x_len * y_len
    k = draw(st.integers(1, min(5, n)))
    return dict(shape=[x_len, y_len], triangle=draw(gen.symmetric_matrix(n)), medoids=draw(st.permutations(range(n)))[:k])


def run_distances(spec, ctx):
    from experiments.clustering.medoid_distances import compute_and_save_medoid_distances
    from spta.clustering.factory import ClusteringFactory
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Point
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['shape']
    n, k = x_len * y_len, len(spec['medoids'])
    matrix = gen.full_matrix(spec['triangle'], n)
    measure = DistanceByDTW()
    measure.distance_matrix = matrix.copy()
    region = SpatioTemporalRegion(np.arange(3.0 * n).reshape(3, x_len, y_len))
    algorithm = ClusteringFactory(measure).instance(KmedoidsClusteringMetadata(k))
    points = [Point(i // y_len, i % y_len) for i in spec['medoids']]
    with scratch_dir():
        compute_and_save_medoid_distances(region, measure, algorithm, points, list(spec['medoids']), 'table.csv',
                                          logging.getLogger('vk'))
        rows = read('table.csv')
    require(rows[0] == ['k'] + [str(i) for i in range(k)], 'header {}', rows[0])
    require([r[0] for r in rows[1:]] == [str(i) for i in range(k)], 'rows {}', [r[0] for r in rows[1:]])
    table = np.array([[float(v) for v in r[1:]] for r in rows[1:]])
    want = matrix[np.ix_(spec['medoids'], spec['medoids'])]
    require(table.shape == (k, k) and np.all(np.abs(table - want) <= 0.0005 + 1e-9), 'table {} instead of {}',
            table.tolist(), want.tolist())
    require(gen.exact(table, table.T), 'the table is not symmetric: {}', table.tolist())
    ctx.nontrivial(k >= 2 and len(set(want.reshape(-1))) > 2)


@st.composite
def persisted_spec(draw):
    x_len, y_len = draw(st.sampled_from([[2, 3], [3, 2], [3, 3], [2, 4], [4, 4]]))
    n = x_len * y_len
    return dict(shape=[x_len, y_len], request=draw(p05.request_spec(n)), other=draw(p05.request_spec(n)),
                data=draw(gen.symmetric_matrix(n)), homes=draw(st.lists(st.sampled_from([None, 'out', 'out2', 'a/b']),
                                                                        min_size=2, max_size=4)))


def run_persisted(spec, ctx):
    '''A report that is asked for is written, also when the partition had been saved before.'''
    n = spec['shape'][0] * spec['shape'][1]
    matrix = gen.full_matrix(spec['data'], n)
    pickles = p05.HOMES[spec['request']['home']]
    reused = 0
    with scratch_dir():
        for number, home in enumerate(spec['homes']):
            algorithm, region = p05.build_request(spec['request'], matrix, spec['shape'])
            before = {path: os.stat(path).st_mtime_ns for path in glob.glob('**/*.csv', recursive=True)}
            # a report that is there already is replaced
            for path in before:
                with open(path, 'w') as f:
                    f.write('old')
            partition = algorithm.partition(region, save_csv_at=home, pickle_home=pickles)
            reused += number > 0
            reports = sorted(path for path in glob.glob('**/*.csv', recursive=True) if open(path).read() != 'old')
            if home is None:
                require(not reports, 'request {}: no report asked for, wrote {}', number, reports)
                continue
            folder = algorithm.output_dir(home, region.region_metadata)
            require(len(reports) == 1 and os.path.dirname(reports[0]) == folder, 'request {}: report asked for at {}, wrote {}',
                    number, folder, reports)
            labels = np.array(partition.as_numpy).reshape(-1).tolist()
            want = [['cluster', 'points', 'coverage']] + [
                [str(c), str(labels.count(c)), '{:.1f}'.format(labels.count(c) * 100.0 / n)] for c in range(algorithm.k)]
            got = read(reports[0])
            require([r[:2] for r in got] == [r[:2] for r in want], 'request {}: report {} instead of {}', number, got, want)
            for r, w in zip(got[1:], want[1:]):
                require(abs(float(r[2]) - float(w[2])) <= 0.1, 'request {}: report {} instead of {}', number, got, want)
            # the report of another clustering is another file
            other, _ = p05.build_request(dict(spec['other'], home=spec['request']['home']), matrix, spec['shape'])
            if repr(other.metadata) != repr(algorithm.metadata):
                other.partition(region, save_csv_at=home)
                require(read(reports[0]) == got, 'request {}: the report was replaced by the one of {!r}', number,
                        other.metadata)
    ctx.nontrivial(reused > 0 and any(home is not None for home in spec['homes'][1:]))
    ctx.tag(spec['request']['algorithm'])


SUBS = [Sub('report', report_spec, run_report, quick=400, thorough=5000, shards=(2, 8)),
        Sub('analysis', analysis_spec, run_analysis, quick=120, thorough=3000, shards=(4, 8)),
        Sub('medoid distances', distances_spec, run_distances, quick=200, thorough=3000, shards=(1, 4)),
        Sub('persisted', persisted_spec, run_persisted, quick=150, thorough=3000, shards=(1, 4))]
