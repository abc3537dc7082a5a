'''C06: the elbow of the costs, for each seed.'''
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from .. import gen, kmed
from ..core import Sub, require, scratch_dir
from .r07 import snapshot

RULE = ('cost sequences of 3..9 cluster counts, evenly and unevenly spaced, increasing, decreasing, flat or with ties, given '
        'with suites of 1..4 seeds in any order, and elbows of real suites over 5..12 samples, with freshly computed and '
        'stored partitions; non-trivial: at least two interior counts and at least two seeds whose costs differ')
ASSUMPTIONS = ['at least three cluster counts per seed, all different',
               'the cost of a clustering in an elbow is the sum of the squared distances of the points to their medoid']


def second_derivatives(ks, costs):
    '''Exact discrete second derivatives at the interior counts (three-point formula).'''
    result = []
    for i in range(1, len(ks) - 1):
        x1, x2, x3 = [Fraction(v) for v in ks[i - 1:i + 2]]
        y1, y2, y3 = [Fraction(v) for v in costs[i - 1:i + 2]]
        # slope after minus slope before, over half of the span
        result.append(2 * ((y3 - y2) / (x3 - x2) - (y2 - y1) / (x2 - x1)) / (x3 - x1))
    return result


def check_elbow(ks, costs, elbow_k, what):
    '''ks increasing'''
    values = second_derivatives(ks, costs)
    require(elbow_k in ks[1:-1], '{}: the elbow {} is not an interior count of {}', what, elbow_k, ks)
    got = values[ks.index(elbow_k) - 1]
    best = max(values)
    scale = max(abs(float(c)) for c in costs) + 1
    require(float(best - got) <= 1e-9 * scale, '{}: the elbow is {} with second derivative {}, but {} at {} (costs {})',
            what, elbow_k, float(got), float(best), ks[1 + values.index(best)], costs)
    # exact arithmetic: small integers at spacings of one
    if all(b - a == 1 for a, b in zip(ks, ks[1:])) and all(float(c).is_integer() and abs(c) < 2**40 for c in costs):
        require(elbow_k == ks[1 + values.index(best)], '{}: {} instead of {}, the first of equal elbows (costs {})', what,
                elbow_k, ks[1 + values.index(best)], costs)
        if values.count(best) > 1:
            return 'tie'
    return 'single'


@st.composite
def costs_of(draw, n):
    kind = draw(st.sampled_from(['any', 'integers', 'integers', 'falling', 'rising', 'flat', 'close']))
    raw = draw(st.lists(st.integers(0, 1000), min_size=n, max_size=n))
    if kind == 'any':
        return [v / 7.0 for v in raw]
    if kind == 'integers':
        return [float(v % 12) for v in raw]
    if kind == 'falling':
        total = sum(raw) + 1.0
        costs = []
        for v in raw:
            total -= v
            costs.append(total)
        return costs
    if kind == 'rising':
        return [float(v) for v in np.cumsum(raw)]
    if kind == 'close':
        return [1e6 + v / 100.0 for v in raw]
    return [float(raw[0])] * n


@st.composite
def costs_spec(draw):
    spacing = draw(st.sampled_from(['ones', 'ones', 'even', 'uneven', 'uneven']))
    n = draw(st.sampled_from([3, 4, 5, 5, 6, 7, 9]))
    start = draw(st.integers(1, 10))
    if spacing == 'ones':
        ks = list(range(start, start + n))
    elif spacing == 'even':
        step = draw(st.integers(2, 5))
        ks = list(range(start, start + n * step, step))
    else:
        ks = sorted(draw(st.lists(st.integers(1, 60), min_size=n, max_size=n, unique=True)))
    seeds = draw(st.lists(st.integers(0, 12), min_size=draw(st.sampled_from([2, 3, 1])), max_size=4, unique=True))
    order = draw(st.permutations(ks))
    return dict(ks=ks, order=draw(st.sampled_from([order, ks])), seeds=seeds,
                costs=[draw(costs_of(n)) for _ in seeds], reverse=draw(st.booleans()))


def run_costs(spec, ctx):
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.clustering.suite import ClusteringSuite, FindSuiteElbow
    from spta.distance.dtw import DistanceByDTW
    ks, seeds = spec['ks'], spec['seeds']
    suite = ClusteringSuite('mine', 'kmedoids', k=list(spec['order']), random_seed=list(seeds))
    finder = FindSuiteElbow(suite, None, DistanceByDTW())
    table = {}
    for seed, costs in zip(seeds, spec['costs']):
        for k, cost in zip(ks, costs):
            table[KmedoidsClusteringMetadata(k, random_seed=seed)] = cost
    if spec['reverse']:
        table = dict(reversed(list(table.items())))
    before = dict(table)
    elbows = finder.find_cost_elbow_for_each_kmedoids_seed(table)
    require(sorted(elbows) == sorted(seeds), 'elbows for seeds {} instead of {}', sorted(elbows), sorted(seeds))
    for seed, costs in zip(seeds, spec['costs']):
        elbow = elbows[seed]
        require(elbow.random_seed == seed, 'the elbow of seed {} is {!r}', seed, elbow)
        ctx.tag(check_elbow(ks, costs, elbow.k, 'seed {}'.format(seed)))
        # given its order, also for a single sequence
        ordered = [KmedoidsClusteringMetadata(k, random_seed=seed) for k in ks]
        single = finder.find_cost_elbow_given_order(dict(zip(ordered, costs)), ordered)
        require(single.k == elbow.k and single.random_seed == seed, 'seed {} alone: {!r} instead of {!r}', seed, single,
                elbow)
    require(table == before, 'the costs were modified')
    ctx.nontrivial(len(ks) >= 4 and len(seeds) >= 2 and len(set(map(tuple, spec['costs']))) >= 2)
    ctx.tag('seeds:{}'.format(len(seeds)))


@st.composite
def suite_spec(draw):
    shape = draw(st.sampled_from([[2, 4], [3, 3], [4, 3], [2, 5], [3, 4]]))
    n = shape[0] * shape[1]
    ks = draw(st.lists(st.integers(1, n - 1), min_size=3, max_size=5, unique=True))
    # the seed decides the initial medoids: a coarse tolerance keeps different seeds different
    return dict(shape=shape, triangle=draw(gen.symmetric_matrix(n)), ks=ks,
                seeds=draw(st.lists(st.integers(0, 20), min_size=draw(st.sampled_from([2, 3, 1])), max_size=3, unique=True)),
                mode=draw(st.sampled_from(['lite', 'robust'])), max_iter=draw(st.sampled_from([0, 0, 1, 1000])),
                stored=draw(st.booleans()), home=draw(st.sampled_from(['pickle', 'kept/here'])))


def run_suite(spec, ctx):
    from spta.clustering.kmedoids import KmedoidsClusteringAlgorithm, KmedoidsClusteringMetadata
    from spta.clustering.suite import ClusteringSuite, FindSuiteElbow
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.partition import intra_cluster_cost
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['shape']
    n = x_len * y_len
    matrix = gen.full_matrix(spec['triangle'], n)
    measure = DistanceByDTW()
    measure.distance_matrix = matrix.copy()
    metadata = SpatioTemporalRegionMetadata('place', Region(2, 2 + x_len, 3, 3 + y_len), 2015, 2015, 1, scaled=False,
                                            dataset_dir='nodata')
    region = SpatioTemporalRegion(np.arange(2.0 * n).reshape(2, x_len, y_len), metadata)
    ks = sorted(spec['ks'])
    common = dict(mode=spec['mode'], max_iter=spec['max_iter'], verbose=False)
    suite = ClusteringSuite('mine', 'kmedoids', k=spec['ks'], random_seed=spec['seeds'], **common)
    # costs by definition from the partition of each clustering
    costs = {}
    for seed in spec['seeds']:
        for k in ks:
            algorithm = KmedoidsClusteringAlgorithm(KmedoidsClusteringMetadata(k, random_seed=seed, **common), measure)
            partition = algorithm.partition(region)
            labels = [int(v) for v in np.array(partition.as_numpy).reshape(-1)]
            medoids = [p.x * y_len + p.y for p in partition.medoids]
            costs[seed, k] = sum(float(matrix[i, medoids[labels[i]]]) ** 2 for i in range(n))
            got = intra_cluster_cost(partition, region, measure)
            require(gen.same(got, costs[seed, k]), 'seed {} k {}: cost {} instead of {}', seed, k, got, costs[seed, k])
    with scratch_dir():
        finder = FindSuiteElbow(suite, region, measure)
        for turn in range(2 if spec['stored'] else 1):
            partitions = finder.get_all_partitions(spec['home'])
            kept = snapshot()
            require(len(kept) == len(costs) and all(p.startswith(spec['home'] + '/') for p in kept),
                    'partitions to be kept under {}: files {}', spec['home'], sorted(kept))
            if turn:
                require(kept == earlier, 'the partitions were there, but {} was written', sorted(
                    p for p in kept if kept[p] != earlier.get(p)))
            require(len(partitions) == len(costs), '{} partitions for {} clusterings', len(partitions), len(costs))
            for m, cost in finder.get_all_intra_cluster_costs(partitions).items():
                require(gen.same(cost, costs[m.random_seed, m.k]), '{!r}: cost {} instead of {}', m, cost,
                        costs[m.random_seed, m.k])
            elbows = finder.calculate_elbows_kmedoids(spec['home'])
            earlier = snapshot()
            require(earlier == kept, 'finding the elbows wrote {}', sorted(p for p in earlier if earlier[p] != kept.get(p)))
            require(sorted(elbows) == sorted(spec['seeds']), 'elbows for seeds {}', sorted(elbows))
            for seed, elbow in elbows.items():
                require(elbow.random_seed == seed, 'the elbow of seed {} is {!r}', seed, elbow)
                check_elbow(ks, [costs[seed, k] for k in ks], elbow.k, 'seed {}'.format(seed))
    ctx.nontrivial(len(ks) >= 4 and len(spec['seeds']) >= 2 and
                   len(set(tuple(costs[seed, k] for k in ks) for seed in spec['seeds'])) >= 2)
    ctx.tag('real seeds:{}'.format(len(spec['seeds'])), 'max_iter:{}'.format(spec['max_iter']))


SUBS = [Sub('costs', costs_spec, run_costs, quick=800, thorough=20000, shards=(2, 8)),
        Sub('suite', suite_spec, run_suite, quick=150, thorough=3000, shards=(3, 8))]
