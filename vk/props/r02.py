'''R02: iteration visits every point once, in row-major order.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require

RULE = ('regions of every kind (plain, scaled, clusters, function results, partitions; 1..7 x 1..7 points, k 1..5, once in a while '
        '25 x 25 and k 300, empty clusters included) read in generated sequences of passes (complete, left early, or ended by a failing function) and views; non-trivial: at least 4 points and '
        'at least two reads of different kinds, or two clusters advanced in alternation')
ASSUMPTIONS = ['nested iteration over the same object is documented as unsupported and not generated']

READS = ('pass', 'list', '2d', 'indices', 'series', 'double', 'abandoned', 'failed')


class Stop(Exception):
    pass


def abandon(region, count):
    '''A pass that ends early.'''
    for i, _ in enumerate(region):
        if i == count:
            break


def fail(region, count):
    '''A function that fails at some point.'''
    from spta.region.function import FunctionRegionScalarSame
    calls = []

    def function(value):
        calls.append(value)
        if len(calls) > count:
            raise Stop
        return 0.0

    try:
        FunctionRegionScalarSame(function, region.x_len, region.y_len).apply_to(region)
    except Stop:
        pass


@st.composite
def spt_spec(draw):
    spec = draw(regions.chain_spec(['time', 'rect', 'cluster', 'function', 'repeat'], max_ops=2, nan=2,
                                   t=(1, 4), x=(1, 7), y=(1, 7)))
    if draw(st.booleans()):
        spec['ops'] = []
    spec['reads'] = draw(st.lists(st.sampled_from(READS), min_size=2, max_size=7))
    spec['stop'] = draw(st.sampled_from([0, 1, 3, 10]))
    return spec


def run_spt(spec, ctx):
    from spta.region import Point
    real, model, _ = regions.run_chain(spec, ctx, check_scaling=False)
    _, x_len, y_len = model.shape
    points = model.points()
    series = [model.data[:, x, y] for x, y in points]
    for turn, read in enumerate(spec['reads']):
        what = 'read {} ({})'.format(turn, read)
        if read in ('pass', 'double'):
            for again in range(1 if read == 'pass' else 2):
                seen = regions.list_pairs(real)
                require([(p.x, p.y) for p, _ in seen] == points, '{}: points {} instead of {}', what,
                        [tuple(p) for p, _ in seen], points)
                require(all(isinstance(p, Point) for p, _ in seen), '{}: not points', what)
                require(all(gen.same(v, s) for (_, v), s in zip(seen, series)), '{}: series', what)
        elif read == 'list':
            got = real.as_list
            require(len(got) == len(points) and all(gen.same(a, b) for a, b in zip(got, series)), what)
        elif read == '2d' and points:
            require(gen.same(real.as_2d, np.array(series)), what)
        elif read == 'indices':
            require([int(i) for i in real.all_point_indices] == [x * y_len + y for x, y in points], what)
        elif read == 'abandoned':
            abandon(real, spec['stop'])
        elif read == 'failed':
            fail(real, spec['stop'])
        elif read == 'series':
            for x, y in reversed(points):
                require(gen.same(real.series_at(Point(x, y)), model.data[:, x, y]), what)
            missing = np.asarray(real.series_at(None))
            require(missing.shape == (model.shape[0],) and np.isnan(missing).all(), '{}: the series of no point is {}', what,
                    missing)
    ctx.tag('reads:{}'.format(len(set(spec['reads']))))
    ctx.nontrivial(len(points) >= 4 and len(set(spec['reads'])) >= 2)


@st.composite
def spatial_spec(draw):
    sheet = draw(gen.sheet(x=(1, 7), y=(1, 7), nan=2))
    n = sheet['shape'][0] * sheet['shape'][1]
    return dict(sheet=sheet, labels=draw(gen.labels(n)), order=draw(st.binary(min_size=4, max_size=60)).hex(),
                stop=draw(st.sampled_from([None, 1, 0, 5])))


def run_spatial(spec, ctx):
    '''Whole region twice, its flat view, the partition itself, and all clusters advanced in a random interleaving.'''
    from spta.region.spatial import SpatialRegion
    from spta.region.temporal import SpatioTemporalRegion
    data = gen.array(spec['sheet'])
    x_len, y_len = data.shape
    region = SpatialRegion(data.copy('K'))
    points = gen.points_of(x_len, y_len)
    for turn in range(2):
        if turn and spec['stop'] is not None:
            abandon(region, spec['stop'])
        seen = regions.list_pairs(region)
        require([(p.x, p.y) for p, _ in seen] == points, 'points of the region')
        require(gen.exact([v for _, v in seen], data.reshape(-1)), 'values of the region')
    require(gen.exact(region.as_array, data.reshape(-1)), 'as_array')
    require(np.isnan(region.value_at(None)), 'the value of no point is {}', region.value_at(None))

    partition = gen.build_partition(spec['labels'], x_len, y_len)
    for turn in range(2):
        if turn and spec['stop'] is not None:
            abandon(partition, spec['stop'])
        seen = []
        for p in partition:
            seen.append((p.x, p.y))
            require(len(seen) <= len(points), 'partition iterates too many points')
        require(seen == points, 'points of the partition')

    k = spec['labels']['k']
    spt = SpatioTemporalRegion(np.stack([data, data + 1]))
    spatial_clusters = [partition.create_spatial_cluster(region, i) for i in range(k)]
    spt_clusters = [partition.create_spt_cluster(spt, i) for i in range(k)]
    clusters = spatial_clusters + spt_clusters
    expected = [gen.members(spec['labels']['labels'], y_len, i) for i in range(k)] * 2
    for cluster, own in zip(clusters, expected):
        if spec['stop'] is not None:
            (abandon if spec['stop'] % 2 else fail)(cluster, spec['stop'])
        require([(p.x, p.y) for p, _ in regions.list_pairs(cluster)] == own, 'points of a cluster')

    iterators = [iter(c) for c in clusters]
    seen = [[] for _ in clusters]
    open_ones = list(range(len(clusters)))
    order = bytes.fromhex(spec['order'])
    turn = 0
    while open_ones:
        which = open_ones[order[turn % len(order)] % len(open_ones)]
        turn += 1
        try:
            p, v = next(iterators[which])
        except StopIteration:
            open_ones.remove(which)
            continue
        seen[which].append((p.x, p.y))
        value = data[p.x, p.y]
        require(gen.exact(v, value if which < k else [value, value + 1]), 'value of cluster {} at {}', which, p)
        require(len(seen[which]) <= len(expected[which]), 'cluster {} yields too many points', which)
    require(seen == expected, 'clusters advanced in alternation yield {} instead of {}', seen, expected)
    ctx.tag('k:{}'.format(k), 'non-square' if x_len != y_len else 'square',
            'empty-cluster' if any(not e for e in expected) else 'all-used')
    ctx.nontrivial(k >= 2 and len(points) >= 4)


SUBS = [
    Sub('views-in-sequence', spt_spec, run_spt, quick=700, thorough=15000, shards=(2, 8)),
    Sub('spatial-and-interleaved-clusters', spatial_spec, run_spatial, quick=700, thorough=15000, shards=(2, 8)),
]
