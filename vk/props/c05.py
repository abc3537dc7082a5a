'''C05: clustering suites enumerate all combinations and read back their results.'''
import csv
import os

import numpy as np
from hypothesis import strategies as st

from .. import dataset, gen, kmed
from ..core import Sub, require, must_raise, scratch_dir

RULE = ('suites with 1..6 cluster counts in any order (list, tuple, range or set) and 1..4 seeds (single or several) and '
        'common parameters; analyses of real suites over generated datasets of 4..12 points at an offset rectangle, with '
        'foreign result tables nearby; non-trivial: at least two counts and two seeds, or an analysed suite with at least '
        'two clusterings whose region does not start at (0,0)')
ASSUMPTIONS = ['the rectangle of the dataset is at most 40 points away from the origin']


@st.composite
def suite_spec(draw):
    ks = draw(st.lists(st.integers(1, 150), min_size=1, max_size=6, unique=True))
    seeds = draw(st.lists(st.integers(0, 40), min_size=1, max_size=4, unique=True))
    return dict(ks=ks, seeds=seeds, ks_as=draw(st.sampled_from(['list', 'tuple', 'range', 'generator', 'set'])),
                seeds_as=draw(st.sampled_from(['list', 'tuple', 'range', 'single', 'absent', 'set'])),
                mode=draw(st.sampled_from(['lite', 'robust', None])), max_iter=draw(st.sampled_from([None, 3, 77])),
                tol=draw(st.sampled_from([None, 0.5])),
                initial_medoids=draw(st.none() | st.lists(st.integers(0, 30), min_size=1, max_size=6, unique=True)), by=draw(st.sampled_from(['suite', 'generator', 'regular'])),
                identifier=draw(st.sampled_from(['quick', 'all', 'a b', 'x-1'])))


def make_values(values, as_):
    if as_ == 'tuple':
        return tuple(values), list(values)
    if as_ == 'range':
        low = min(values)
        r = range(low, low + len(values))
        return r, list(r)
    if as_ == 'set':
        s = set(values)
        return s, list(s)
    if as_ == 'generator':
        return iter(list(values)), list(values)
    return list(values), list(values)


OPTIONS = ('mode', 'max_iter', 'tol', 'initial_medoids')


def run_suite(spec, ctx):
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata, kmedoids_metadata_generator
    from spta.clustering.regular import RegularClusteringMetadata, regular_metadata_generator
    from spta.clustering.suite import ClusteringSuite, OrganizeClusteringSuite
    ks_argument, ks = make_values(spec['ks'], spec['ks_as'])
    if spec['by'] == 'regular':
        suites = [ClusteringSuite(spec['identifier'], 'regular', k=list(ks)), regular_metadata_generator(list(ks))]
        for suite in suites:
            got = list(suite)
            require(all(isinstance(m, RegularClusteringMetadata) for m in got), 'kinds {}', got)
            require([m.k for m in got] == ks, 'regular suite of {} has {}', ks, [m.k for m in got])
            require([m.k for m in suite] == ks, 'second time: {}', [m.k for m in suite])
        ctx.tag('regular')
        return
    seeds_argument, seeds = make_values(spec['seeds'], spec['seeds_as'])
    common = {name: spec[name] for name in OPTIONS if spec.get(name) is not None}
    if spec['by'] == 'generator':
        if spec['seeds_as'] in ('single', 'absent'):
            seeds_argument, seeds = spec['seeds'][0], spec['seeds'][:1]
        suite = kmedoids_metadata_generator(ks_argument, seeds_argument, **common)
        suite.identifier = spec['identifier']
    elif spec['seeds_as'] == 'absent':
        # the default seed
        seeds = [KmedoidsClusteringMetadata(2).random_seed]
        suite = ClusteringSuite(spec['identifier'], 'kmedoids', k=ks_argument, **common)
    else:
        if spec['seeds_as'] == 'single':
            seeds_argument, seeds = spec['seeds'][0], spec['seeds'][:1]
        suite = ClusteringSuite(spec['identifier'], 'kmedoids', k=ks_argument, random_seed=seeds_argument, **common)
    default = KmedoidsClusteringMetadata(2)
    want = [(k, seed) for k in ks for seed in seeds]
    for turn in range(2):
        got = list(suite)
        require([(m.k, m.random_seed) for m in got] == want, 'pass {}: suite of {} x {} has {}', turn + 1, ks, seeds,
                [(m.k, m.random_seed) for m in got])
        for m in got:
            require(isinstance(m, KmedoidsClusteringMetadata), 'kind {}', type(m))
            for name in OPTIONS:
                value = common.get(name, getattr(default, name))
                require(getattr(m, name) == value, '{!r}: {} is {} instead of {}', m, name, getattr(m, name), value)
    organized = OrganizeClusteringSuite().organize_kmedoids_suite(suite)
    require(sorted(organized) == sorted(seeds), 'organized under seeds {} instead of {}', sorted(organized), seeds)
    for seed, metadatas in organized.items():
        require([(m.k, m.random_seed) for m in metadatas] == [(k, seed) for k in sorted(ks)], 'seed {}: {}', seed,
                metadatas)
    require([(m.k, m.random_seed) for m in suite] == want, 'organizing the suite changed it')
    ctx.nontrivial(len(ks) >= 2 and len(seeds) >= 2)
    ctx.tag(spec['by'], 'seeds:' + spec['seeds_as'], 'unsorted' if ks != sorted(ks) else 'sorted')


@st.composite
def analysis_spec(draw):
    shape = draw(st.sampled_from([[2, 3], [3, 2], [3, 3], [2, 4], [4, 3], [1, 5]]))
    n = shape[0] * shape[1]
    t = draw(st.integers(2, 4))
    series = draw(st.lists(st.tuples(*[st.integers(0, 9)] * t), min_size=n, max_size=n, unique=True))
    kind = draw(st.sampled_from(['kmedoids', 'kmedoids', 'regular']))
    ks = draw(st.lists(st.integers(1, 4), min_size=1, max_size=3, unique=True)) if kind == 'kmedoids' else \
        draw(st.lists(st.sampled_from([1, 2, 3]), min_size=1, max_size=2, unique=True))
    return dict(shape=shape, t=t, series=[list(s) for s in series], kind=kind, ks=ks,
                seeds=draw(st.lists(st.integers(0, 30), min_size=1, max_size=2, unique=True)),
                mode=draw(st.sampled_from(['lite', 'robust'])), corner=draw(st.tuples(st.integers(0, 40), st.integers(0, 40))),
                scaled=draw(st.booleans()), triangle=draw(gen.symmetric_matrix(n)),
                identifier=draw(st.sampled_from(['quick', 'all', 'mine'])))


def setup_analysis(spec):
    '''(region metadata, suite, distance matrix) with the dataset and the distances in the current directory'''
    from spta.clustering.kmedoids import kmedoids_metadata_generator
    from spta.clustering.regular import regular_metadata_generator
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    x_len, y_len = spec['shape']
    x, y = spec['corner']
    metadata = SpatioTemporalRegionMetadata('place', Region(x, x + x_len, y, y + y_len), 2015, 2015, 1,
                                            scaled=spec['scaled'])
    data = np.array(spec['series'], dtype=float).T.reshape(spec['t'], x_len, y_len)
    dataset.install(data, metadata)
    matrix = gen.full_matrix(spec['triangle'], x_len * y_len)
    np.save(metadata.distances_filename, matrix)
    if spec['kind'] == 'kmedoids':
        suite = kmedoids_metadata_generator(k_values=spec['ks'], seed_values=spec['seeds'], mode=spec['mode'],
                                            verbose=False)
    else:
        suite = regular_metadata_generator(k_values=spec['ks'])
    suite.identifier = spec['identifier']
    return metadata, suite, matrix


def analyze(metadata, suite):
    import logging
    from types import SimpleNamespace
    from experiments.clustering import partition_analysis
    previous = partition_analysis.metadata_from_args
    partition_analysis.metadata_from_args = lambda args: (metadata, suite)
    try:
        args = SimpleNamespace(silhouette=False, variance=False, random=None, bins='auto')
        partition_analysis.analyze_suite(args, logging.getLogger('vk'))
    finally:
        partition_analysis.metadata_from_args = previous


def expected_medoids(spec, metadata, matrix):
    '''repr -> medoids in dataset coordinates, from k-medoids itself (C01) or as argmin (D05)'''
    from spta.clustering.factory import ClusteringFactory
    from spta.distance.dtw import DistanceByDTW
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['shape']
    x, y = spec['corner']
    data = np.array(spec['series'], dtype=float).T.reshape(spec['t'], x_len, y_len)
    measure = DistanceByDTW()
    measure.distance_matrix = matrix.copy()
    result = {}
    for metadata in make_metadatas(spec):
        partition = ClusteringFactory(measure).instance(metadata).partition(SpatioTemporalRegion(data.copy('K')))
        labels = np.array(partition.as_numpy).reshape(-1)
        result[repr(metadata)] = ([(p.x + x, p.y + y) for p in partition.medoids],
                                  [p.x * y_len + p.y for p in partition.medoids], labels)
    return result


def make_metadatas(spec):
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.clustering.regular import RegularClusteringMetadata
    if spec['kind'] == 'regular':
        return [RegularClusteringMetadata(k) for k in spec['ks']]
    return [KmedoidsClusteringMetadata(k, random_seed=seed, mode=spec['mode'], verbose=False)
            for k in spec['ks'] for seed in spec['seeds']]


def run_analysis(spec, ctx):
    from spta.distance.dtw import DistanceByDTW, DistanceBySpatialDTW
    with scratch_dir():
        metadata, suite, matrix = setup_analysis(spec)
        expected = expected_medoids(spec, metadata, matrix)
        with must_raise(ValueError, 'reading a result table that does not exist'):
            suite.retrieve_suite_result_csv('outputs', metadata, DistanceByDTW())
        analyze(metadata, suite)
        path = suite.analysis_csv_filepath('outputs', metadata, DistanceByDTW())
        require(os.path.isfile(path), 'no result table at {}', path)
        found = suite.retrieve_suite_result_csv('outputs', metadata, DistanceByDTW())
        require(list(found) == [repr(m) for m in suite], 'entries {} for the suite {}', list(found), list(suite))
        require(list(found) == list(expected), 'entries {} instead of {}', list(found), list(expected))
        for text, medoids in found.items():
            want = expected[text][0]
            require([(p.x, p.y) for p in medoids] == want, '{}: medoids {} instead of {}', text, medoids, want)
        # other suites, regions and distances have tables of their own
        suite_other = type(suite)(suite.identifier + '2', suite.metadata_name, k=list(spec['ks']), random_seed=0)
        with must_raise(ValueError, 'result table of another suite'):
            suite_other.retrieve_suite_result_csv('outputs', metadata, DistanceByDTW())
        with must_raise(ValueError, 'result table of another distance'):
            suite.retrieve_suite_result_csv('outputs', metadata, DistanceBySpatialDTW(2))
        files_of = lambda s: [f('outputs', metadata, DistanceByDTW()) for f in (
            s.analysis_csv_filepath, s.medoid_series_csv_filepath, s.csv_suite_dir)]
        others = [suite_other, type(suite)(suite.identifier, {'kmedoids': 'regular', 'regular': 'kmedoids'}[
            suite.metadata_name], k=list(spec['ks']))]
        names = files_of(suite) + [name for other in others for name in files_of(other)]
        require(len(set(names)) == len(names), 'files shared among suites: {}', names)
        with must_raise(ValueError, 'result table in another place'):
            suite.retrieve_suite_result_csv('outputs2', metadata, DistanceByDTW())
        # analysed again: the same table, not a longer one
        analyze(metadata, suite)
        again = suite.retrieve_suite_result_csv('outputs', metadata, DistanceByDTW())
        require(again == found and list(again) == list(found), 'analysed again: {} instead of {}', again, found)
        with open(path, newline='') as f:
            rows = list(csv.reader(f, delimiter=' ', quotechar='|'))
        require(len(rows) == 1 + len(expected), '{} rows for {} clusterings', len(rows) - 1, len(expected))
    ctx.nontrivial(len(expected) >= 2 and tuple(spec['corner']) != (0, 0))
    ctx.tag(spec['kind'], 'clusterings:{}'.format(len(expected)))


@st.composite
def table_spec(draw):
    rows = []
    for k in draw(st.lists(st.integers(1, 8) | st.integers(9, 24), min_size=1, max_size=4, unique=True)):
        rows.append(dict(k=k, seed=draw(st.integers(0, 12)), cost=draw(st.integers(0, 10**7)) / 1000.0,
                         medoids=[list(p) for p in draw(st.lists(st.tuples(st.integers(0, 150), st.integers(0, 150)),
                                                                 min_size=k, max_size=k))]))
    return dict(rows=rows)


def run_table(spec, ctx):
    '''A table in the documented format, with any coordinates.'''
    from spta.clustering.suite import ClusteringSuite
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    metadata = SpatioTemporalRegionMetadata('place', Region(0, 160, 0, 160), 2015, 2015, 1, scaled=False)
    suite = ClusteringSuite('quick', 'kmedoids', k=[r['k'] for r in spec['rows']], random_seed=0)
    with scratch_dir():
        path = suite.analysis_csv_filepath('outputs', metadata, DistanceByDTW())
        os.makedirs(os.path.dirname(path))
        with open(path, 'w', newline='') as f:
            writer = csv.writer(f, delimiter=' ', quotechar='|', quoting=csv.QUOTE_MINIMAL)
            writer.writerow(['clustering', 'total_cost', 'medoids'])
            for r in spec['rows']:
                writer.writerow(['kmedoids_k{}_seed{}_lite'.format(r['k'], r['seed']), '{:0.3f}'.format(r['cost']),
                                 ''.join('({},{}) '.format(*p) for p in r['medoids'])])
        found = suite.retrieve_suite_result_csv('outputs', metadata, DistanceByDTW())
    want = {'kmedoids_k{}_seed{}_lite'.format(r['k'], r['seed']): [tuple(p) for p in r['medoids']] for r in spec['rows']}
    require({key: [(p.x, p.y) for p in medoids] for key, medoids in found.items()} == want, 'read {} instead of {}',
            found, want)
    ctx.nontrivial(len(spec['rows']) >= 2)


SUBS = [Sub('enumerate', suite_spec, run_suite, quick=600, thorough=10000, shards=(2, 8)),
        Sub('analysis', analysis_spec, run_analysis, quick=120, thorough=3000, shards=(3, 8)),
        Sub('table', table_spec, run_table, quick=200, thorough=3000, shards=(1, 4))]
