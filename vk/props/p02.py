'''P02: merging clusters reconstructs the region, in any order.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require, must_raise

RULE = ('partitions of 1..6 x 1..6 points in k 1..5 non-empty clusters (once in a while of 9..25 x 9..25 in up to 300), values per cluster from different sheets, clusters '
        'supplied in every generated order; non-trivial: k >= 2 and the order is not ascending')
ASSUMPTIONS = ['clusters of the same shape as the partition']


@st.composite
def spec(draw):
    x_len, y_len = draw(gen.sizes((1, 6), (1, 6), 60))
    n = x_len * y_len
    labels = draw(gen.labels(n, allow_empty=draw(st.integers(0, 3)) == 0))
    k = labels['k']
    return dict(shape=[x_len, y_len], labels=labels, values=draw(gen.grid_values(n)),
                order=draw(st.permutations(range(k))), layout=draw(st.sampled_from(gen.LAYOUTS)),
                dtypes=draw(st.one_of(st.sampled_from(['f8', 'i8', 'O']).map(lambda d: [d] * k),
                                      st.lists(st.sampled_from(['i8', 'f8', 'f4', 'O', 'i4']), min_size=k, max_size=k))),
                pick=draw(st.lists(st.integers(0, 1000), min_size=k, max_size=k)),
                bad=draw(st.sampled_from(['missing', 'repeated', 'extra', 'none', 'foreign'])), which=draw(st.integers(0, 1000)))


def run(spec, ctx):
    from spta.region import Point
    from spta.region.partition import PartitionRegionCrisp
    from spta.region.spatial import SpatialRegion
    x_len, y_len = spec['shape']
    labels, k = spec['labels']['labels'], spec['labels']['k']
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    # every cluster is built on its own sheet, so a value tells which cluster it came from
    base = np.array(spec['values']).reshape(x_len, y_len)
    sheets = []
    for c, dtype in enumerate(spec['dtypes']):
        values = (base * 4 + 10000 * c).astype(np.int64).astype(float) + dict(f8=1 / 3.0, f4=0.5, O=0.25).get(dtype, 0)
        sheets.append(gen.array(dict(shape=[x_len, y_len], values=values.ravel(), layout=spec['layout'], dtype=dtype)))
    clusters = [partition.create_spatial_cluster(SpatialRegion(sheets[c].copy('K')), c) for c in range(k)]
    supplied = [clusters[c] for c in spec['order']]
    points = gen.points_of(x_len, y_len)
    for _ in range(2):
        merged = partition.merge_clusters_2d(list(supplied))
        require(tuple(merged.shape) == (x_len, y_len), 'merged shape {}', merged.shape)
        for i, (x, y) in enumerate(points):
            require(merged.value_at(Point(x, y)) == sheets[labels[i]][x, y], 'merged value at {} is {} instead of {}',
                    (x, y), merged.value_at(Point(x, y)), sheets[labels[i]][x, y])
    # splitting and merging one region is the identity
    whole = SpatialRegion(sheets[0].copy('K'))
    again = partition.merge_clusters_2d(partition.create_all_spatial_clusters(whole)[::-1])
    require(np.array_equal(again.as_numpy, sheets[0]), 'splitting and merging changes the region')

    # representatives: given in cluster order
    own = [gen.members(labels, y_len, c) for c in range(k)]
    if all(own):
        representatives = [Point(*own[c][spec['pick'][c] % len(own[c])]) for c in range(k)]
        merged = partition.merge_with_representatives_2d(clusters, representatives)
        for i, (x, y) in enumerate(points):
            r = representatives[labels[i]]
            require(merged.value_at(Point(x, y)) == sheets[labels[i]][r.x, r.y], 'representative value at {} is {}',
                    (x, y), merged.value_at(Point(x, y)))
        shuffled = partition.merge_with_representatives_2d(supplied, [representatives[c] for c in spec['order']])
        require(np.array_equal(shuffled.as_numpy, merged.as_numpy), 'representatives in another order')
        if k >= 2:
            c = spec['which'] % k
            other = own[(c + 1) % k]
            wrong = list(representatives)
            wrong[c] = Point(*other[spec['which'] % len(other)])
            with must_raise(Exception, 'a representative outside its cluster'):
                partition.merge_with_representatives_2d(clusters, wrong)
            with must_raise(Exception, 'too few representatives'):
                partition.merge_with_representatives_2d(clusters, representatives[:-1])

    c = spec['which'] % k
    if spec['bad'] == 'missing':
        bad = [s for s in supplied if s.cluster_index != c]
    elif spec['bad'] == 'repeated':
        bad = [clusters[(c + 1) % k] if s.cluster_index == c else s for s in supplied]
        if k == 1:
            bad = supplied * 2
    elif spec['bad'] == 'extra':
        bigger = dict(k=k + 1, labels=[k] + labels[1:]) if len(labels) > 1 else None
        if bigger is None:
            bad = None
        else:
            foreign = gen.build_partition(bigger, x_len, y_len)
            bad = supplied + [foreign.create_spatial_cluster(SpatialRegion(sheets[0].copy('K')), k)]
    elif spec['bad'] == 'foreign':
        # a cluster of another partition, with the same points but an index that this partition does not have
        foreign = gen.build_partition(dict(k=k + 1, labels=[k if v == c else v for v in labels]), x_len, y_len) \
            if c in labels else None
        bad = foreign and [foreign.create_spatial_cluster(SpatialRegion(sheets[c].copy('K')), k) if s.cluster_index == c
                           else s for s in supplied]
    else:
        bad = None
    if bad is not None:
        with must_raise(Exception, '{} cluster in a merge'.format(spec['bad'])):
            partition.merge_clusters_2d(bad)
    other_shape = PartitionRegionCrisp(np.zeros((x_len + 1, y_len), dtype=int), 1)
    with must_raise(Exception, 'a cluster of another shape'):
        other_shape.merge_clusters_2d([clusters[0]])
    ctx.nontrivial(k >= 2 and list(spec['order']) != sorted(spec['order']))
    ctx.tag('k:{}'.format(k), spec['bad'], 'mixed' if len(set(spec['dtypes'])) > 1 else spec['dtypes'][0], 'sorted' if list(spec['order']) == sorted(spec['order'])
            else 'unsorted')


SUBS = [Sub('merge', spec, run, quick=800, thorough=20000, shards=(2, 8))]
