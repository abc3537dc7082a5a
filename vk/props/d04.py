'''D04: the centroid minimises the total distance to its own region or cluster.'''
import math
import os

import numpy as np
from hypothesis import strategies as st

from .. import dataset, gen
from ..core import Sub, require, must_raise, scratch_dir

RULE = ('regions of 1..20 points with an arbitrary symmetric distance matrix (many ties in some), the whole region, scaled '
        'or described, and every cluster of a generated partition, with and without a centroid known beforehand; '
        'medoids of regular partitions, of spatial regions too; non-trivial: at least 4 points and a cluster whose own centroid is not '
        'that of the whole region, or at least two medoids of rectangles of three points on average')
ASSUMPTIONS = ['clusters that are asked for a centroid have members', 'a distance matrix is stored in the measure or file']


@st.composite
def spec(draw):
    x_len, y_len = draw(st.sampled_from([[2, 3], [3, 2], [3, 3], [2, 5], [4, 3], [4, 5], [1, 5], [5, 1], [1, 1]]))
    n = x_len * y_len
    triangle = draw(gen.symmetric_matrix(n))
    factor = draw(st.sampled_from([1, 1, 0.1]))
    return dict(shape=[x_len, y_len], triangle=[v * factor for v in triangle], exact=factor == 1,
                labels=draw(gen.labels(n, k=draw(st.sampled_from([2, 3, 2, 1, 4])) if n >= 4 else 1)),
                kind=draw(st.sampled_from(['plain', 'scaled', 'described', 'time'])), known=draw(st.integers(0, n - 1)),
                own=draw(st.booleans()), parent=draw(st.booleans()))


def reference(matrix, indices, exact):
    '''
    The indices with the smallest sum of distances to all of the indices, and the sums. Where sums are exact
    the first of them, otherwise all that are the smallest but for rounding.
    '''
    sums = np.array([math.fsum(matrix[i, indices]) for i in indices])
    best = np.flatnonzero(sums <= sums.min() * (1 if exact else 1 + 1e-9))
    return [indices[i] for i in (best[:1] if exact else best)], sums


def run(spec, ctx):
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Point, Region, TimeInterval
    from spta.region.centroid import CalculateCentroid
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.scaling import ScaleFunction
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['shape']
    n = x_len * y_len
    matrix = gen.full_matrix(spec['triangle'], n)
    measure = DistanceByDTW()
    measure.distance_matrix = matrix.copy()
    metadata = None
    if spec['kind'] == 'described':
        metadata = SpatioTemporalRegionMetadata('sp', Region(5, 5 + x_len, 7, 7 + y_len), 2015, 2015, 1, scaled=False,
                                                dataset_dir='raw')
    data = np.arange(3.0 * n).reshape(3, x_len, y_len)

    def new_region():
        region = SpatioTemporalRegion(data.copy('K'), metadata)
        if spec['kind'] == 'scaled':
            region = ScaleFunction(x_len, y_len).apply_to(region, 3)
        if spec['kind'] == 'time':
            region = region.interval_subset(TimeInterval(0, 2))
        return region

    def point(index):
        return Point(index // y_len, index % y_len)

    def check(region, indices, what):
        want, sums = reference(matrix, indices, spec['exact'])
        for _ in range(2):
            centroid, distances = CalculateCentroid(measure).find_centroid_and_distances(region)
            found = centroid.x * y_len + centroid.y
            require(found in want, '{}: centroid {}, but the indices {} have the smallest sum of {}', what,
                    centroid, want, list(sums))
            require(gen.exact(distances, matrix[found, indices]), '{}: distances {} instead of {}', what, distances,
                    matrix[found, indices])
        return found

    whole = check(new_region(), list(range(n)), 'region')
    region = new_region()
    if spec['own']:
        region.centroid = point(spec['known'])
        require(region.has_centroid(), 'the known centroid is forgotten')
        require(region.get_centroid() == point(spec['known']), 'known centroid {}', region.get_centroid())
        require(region.get_centroid(measure) == point(spec['known']), 'the known centroid is not honoured')
    else:
        require(not region.has_centroid(), 'a new region has a centroid')
        with must_raise(ValueError, 'asking for an unknown centroid without a distance'):
            region.get_centroid()
        require(tuple(region.get_centroid(measure)) == point(whole), 'region asked for its centroid: {} instead of {}',
                region.get_centroid(measure), point(whole))
        require(region.has_centroid() and tuple(region.get_centroid()) == point(whole), 'the centroid found is not kept')

    labels, k = spec['labels']['labels'], spec['labels']['k']
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    different = False
    parent = new_region()
    if spec['parent']:
        parent.centroid = point(spec['known'])
    for c in range(k):
        own = [i for i in range(n) if labels[i] == c]
        if not own:
            continue
        cluster = partition.create_spt_cluster(parent, c)
        want = check(cluster, own, 'cluster {}'.format(c))
        different = different or want != whole
        if spec['own']:
            cluster.centroid = point(own[spec['known'] % len(own)])
            require(cluster.has_centroid() and cluster.get_centroid(measure) == cluster.centroid,
                    'cluster {}: known centroid', c)
        else:
            got = cluster.get_centroid(measure)
            require(tuple(got) == point(want), 'cluster {} asked for its centroid: {} instead of {}', c, got, point(want))
            require(cluster.has_centroid() and tuple(cluster.get_centroid()) == point(want),
                    'cluster {}: the centroid found is not kept', c)
    require(gen.exact(measure.distance_matrix, matrix), 'the matrix was modified')
    if metadata is not None:
        with scratch_dir():
            os.mkdir('raw')
            dataset.install(data, metadata)
            np.save(metadata.distances_filename, matrix)
            got = CalculateCentroid.for_sptr_metadata(metadata, DistanceByDTW())
            require(tuple(got) == point(whole), 'centroid of the description {} instead of {}', got, point(whole))
            stored, distances = CalculateCentroid(DistanceByDTW()).find_centroid_and_distances(new_region())
            require(tuple(stored) == point(whole) and gen.same(distances, matrix[whole]), 'with the stored matrix: {}',
                    stored)
    ctx.nontrivial(n >= 4 and different)
    ctx.tag(spec['kind'], 'k:{}'.format(k), 'known' if spec['own'] else 'unknown')


@st.composite
def regular_spec(draw):
    x_len, y_len = draw(st.sampled_from([[2, 3], [3, 2], [3, 3], [2, 5], [4, 3], [4, 5], [1, 5], [5, 1], [6, 4], [7, 3]]))
    n = x_len * y_len
    factor = draw(st.sampled_from([1, 1, 0.1]))
    return dict(shape=[x_len, y_len], triangle=[v * factor for v in draw(gen.symmetric_matrix(n))], exact=factor == 1,
                kind=draw(st.sampled_from(['plain', 'scaled', 'described'])), k=draw(st.sampled_from([2, 3, 4, 1, 5, 6])),
                corner=draw(st.sampled_from([[5, 7], [0, 0], [0, 9]])), layout=draw(st.sampled_from(gen.LAYOUTS)))


def run_regular(spec, ctx):
    from spta.clustering.factory import ClusteringFactory
    from spta.clustering.regular import RegularClusteringMetadata
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.scaling import ScaleFunction
    from spta.region.spatial import SpatialRegion
    from spta.region.temporal import SpatioTemporalRegion
    from .p03 import balanced
    x_len, y_len = spec['shape']
    n, k = x_len * y_len, spec['k']
    small, large = balanced(k)
    if min(spec['shape']) < small or max(spec['shape']) < large:
        k = min(k, max(spec['shape'])) if min(balanced(min(k, max(spec['shape'])))) == 1 else 1
    matrix = gen.full_matrix(spec['triangle'], n)
    data = np.arange(3.0 * n).reshape(3, x_len, y_len)
    x, y = spec['corner']
    metadata = SpatioTemporalRegionMetadata('sp', Region(x, x + x_len, y, y + y_len), 2015, 2015, 1, scaled=False)
    with scratch_dir():
        os.mkdir('raw')
        measure = DistanceByDTW()
        region = SpatioTemporalRegion(data.copy(), metadata if spec['kind'] == 'described' else None)
        if spec['kind'] == 'scaled':
            region = ScaleFunction(x_len, y_len).apply_to(region, 3)
        if spec['kind'] == 'described':
            np.save(metadata.distances_filename, matrix)
        else:
            measure.distance_matrix = gen.array(dict(values=matrix, shape=[n, n], layout=spec['layout']))
        algorithm = ClusteringFactory(measure).instance(RegularClusteringMetadata(k))
        flat = algorithm.partition_2d(SpatialRegion(np.zeros((x_len, y_len))))
        for _ in range(2):
            partition = algorithm.partition(region)
            require(gen.exact(np.asarray(flat.as_numpy), np.asarray(partition.as_numpy)), 'other partition of a spatial region')
            require(gen.exact(np.asarray(algorithm.partition(region, with_medoids=False).as_numpy), np.asarray(flat.as_numpy)),
                    'other partition without medoids')
            labels = [int(v) for v in np.asarray(partition.as_numpy).reshape(n)]
            require(partition.k == k and len(partition.medoids) == k, '{} medoids for k={}', len(partition.medoids), k)
            for c, medoid in enumerate(partition.medoids):
                own = [i for i in range(n) if labels[i] == c]
                want, sums = reference(matrix, own, spec['exact'])
                require(medoid.x * y_len + medoid.y in want, 'medoid {} of cluster {}, but the indices {} have the smallest sum of {}',
                        medoid, c, want, list(sums))
    ctx.nontrivial(k >= 2 and n >= 3 * k)
    ctx.tag(spec['kind'], 'k:{}'.format(k))


SUBS = [Sub('centroid', spec, run, quick=500, thorough=15000, shards=(3, 8)),
        Sub('regular', regular_spec, run_regular, quick=250, thorough=8000, shards=(2, 8))]
