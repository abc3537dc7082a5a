'''P01: every point in exactly one cluster, however asked.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require, scratch_dir

RULE = ('memberships of 1..7 x 1..7 points in k 1..6 clusters and of 9..25 x 9..25 in up to 300 (every label used or not), as matrix, as flat array and as '
        'regular partition; asked in every way before and after cloning, pickling and extraction of clusters; '
        'non-trivial: k >= 2 and not square')
ASSUMPTIONS = ['the highest label is used (the constructor rejects other k)']


@st.composite
def spec(draw):
    x_len, y_len = draw(gen.sizes((1, 7), (1, 7)))
    labels = draw(gen.labels(x_len * y_len, max_k=6, allow_empty=draw(st.booleans())))
    return dict(shape=[x_len, y_len], labels=labels, how=draw(st.sampled_from(['matrix', 'array', 'array-int32'])),
                asked=draw(st.lists(st.integers(0, x_len * y_len - 1), max_size=12)),
                medoids=draw(st.booleans()), as_indices=draw(st.booleans()),
                pick=draw(st.lists(st.integers(0, 1000), min_size=6, max_size=6)),
                actions=draw(st.lists(st.sampled_from(['clone', 'pickle', 'clusters', 'iterate', 'merge']), max_size=4)))


def verify(partition, spec, what):
    from spta.region import Point
    x_len, y_len = spec['shape']
    labels, k = spec['labels']['labels'], spec['labels']['k']
    require(partition.k == k, '{}: k is {}', what, partition.k)
    require((partition.x_len, partition.y_len) == (x_len, y_len), '{}: shape', what)
    points = gen.points_of(x_len, y_len)
    for index, (x, y) in enumerate(points):
        answers = [c for c in range(k) if partition.is_member(Point(x, y), c)]
        require(answers == [labels[index]], '{}: ({}, {}) is a member of {} instead of {}', what, x, y, answers,
                labels[index])
    require(not partition.is_member(None, 0), '{}: no point is a member', what)
    asked = spec['asked']
    want = [labels[i] for i in asked]
    got = [int(v) for v in partition.membership_of_point_indices(asked)] if asked else []
    require(got == want, '{}: membership of indices {} is {}', what, asked, got)
    if asked:
        got = [int(v) for v in partition.membership_of_points([Point(*points[i]) for i in asked])]
        require(got == want, '{}: membership of points {} is {}', what, asked, got)
    got = [int(v) for v in partition.membership_of_point_indices(list(range(len(points))))]
    require(got == labels, '{}: membership of all', what)
    sizes = [partition.cluster_len(c) for c in range(k)]
    require(sizes == [labels.count(c) for c in range(k)], '{}: cluster sizes {}', what, sizes)
    require(sum(sizes) == len(points), '{}: sizes add up to {}', what, sum(sizes))


def simplest(spec):
    '''A partition of another kind, which only tells the members of its clusters.'''
    from spta.region.partition import PartitionRegion

    class ByMembers(PartitionRegion):
        def is_member(self, point, cluster_index):
            return self.numpy_dataset[point.x, point.y] == cluster_index

    return ByMembers(np.array(spec['labels']['labels']).reshape(spec['shape']), spec['labels']['k'])


def run(spec, ctx):
    from spta.region import Point
    from spta.region.partition import PartitionRegion, PartitionRegionCrisp
    from spta.region.spatial import SpatialRegion
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['shape']
    labels, k = spec['labels']['labels'], spec['labels']['k']
    if spec['how'] == 'matrix':
        partition = gen.build_partition(spec['labels'], x_len, y_len)
    else:
        dtype = np.int32 if spec['how'] == 'array-int32' else np.int64
        partition = PartitionRegionCrisp.from_membership_array(np.array(labels, dtype=dtype), x_len, y_len)
    verify(partition, spec, 'new partition')
    other = simplest(spec)
    for turn in range(2):
        sizes = [other.cluster_len(c) for c in range(k)]
        require(sizes == [labels.count(c) for c in range(k)], 'a partition that only tells members: cluster sizes {}', sizes)

    points = gen.points_of(x_len, y_len)
    data = np.arange(2 * len(points), dtype=float).reshape(2, x_len, y_len)
    spt = SpatioTemporalRegion(data)
    spatial = SpatialRegion(data[1])
    own = [gen.members(labels, y_len, c) for c in range(k)]
    medoids = [Point(*(own[c][spec['pick'][c % 6] % len(own[c])] if own[c] else (0, 0))) for c in range(k)]
    if spec['medoids']:
        partition.medoids = medoids
    for turn, action in enumerate(spec['actions'] + ['clusters']):
        what = '{} {}'.format(turn, action)
        if action == 'clone':
            copy = partition.clone()
            verify(copy, spec, what)
            require(copy is not partition, 'clone is the same object')
        elif action == 'pickle':
            with scratch_dir():
                partition.to_pickle('folder/inner/partition.pkl')
                partition = PartitionRegion.try_from_pickle('folder/inner/partition.pkl')
            if spec['medoids']:
                require(partition.medoids == medoids, '{}: medoids {}', what, partition.medoids)
        elif action == 'iterate':
            require([(p.x, p.y) for p in partition] == points, '{}: points', what)
        elif action == 'merge':
            merged = partition.merge_clusters_2d(partition.create_all_spatial_clusters(spatial))
            require(gen.exact(merged.as_numpy, data[1]), '{}: merged', what)
        elif action == 'clusters':
            kwargs = {}
            if spec['medoids']:
                if spec['as_indices']:
                    indices = [m.x * y_len + m.y for m in medoids]
                    kwargs = dict(centroid_indices=np.array(indices) if turn % 2 else indices)
                else:
                    kwargs = dict(medoids=medoids)
            clusters = partition.create_all_spt_clusters(spt, **kwargs)
            require(len(clusters) == k, '{}: {} clusters', what, len(clusters))
            seen = []
            for c, cluster in enumerate(clusters):
                pairs = regions.list_pairs(cluster)
                require([(p.x, p.y) for p, _ in pairs] == own[c], '{}: members of cluster {}', what, c)
                require(all(gen.exact(s, data[:, p.x, p.y]) for p, s in pairs), '{}: series', what)
                require(cluster.cluster_len == len(own[c]), '{}: size of cluster {}', what, c)
                require(cluster.cluster_index == c, '{}: index of cluster {}', what, c)
                if spec['medoids']:
                    require(cluster.has_centroid(), '{}: cluster {} has no medoid', what, c)
                    m = cluster.get_centroid()
                    require((int(m.x), int(m.y)) == tuple(medoids[c]), '{}: medoid of cluster {} is {}', what, c, m)
                else:
                    require(not cluster.has_centroid(), '{}: cluster {} has a medoid', what, c)
                seen.extend((p.x, p.y) for p, _ in pairs)
            require(sorted(seen) == points, '{}: the clusters do not split the region', what)
            for c, cluster in enumerate(partition.create_all_spatial_clusters(spatial)):
                pairs = regions.list_pairs(cluster)
                require([(p.x, p.y, v) for p, v in pairs] == [(x, y, data[1, x, y]) for x, y in own[c]],
                        '{}: spatial cluster {}', what, c)
        verify(partition, spec, 'after ' + what)
    ctx.nontrivial(k >= 2 and x_len != y_len)
    ctx.tag('k:{}'.format(k), spec['how'], *spec['actions'])


SUBS = [Sub('agreement', spec, run, quick=800, thorough=20000, shards=(4, 8))]
