'''D02: the distance matrix is the pairwise distances, however it is computed.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen, series
from ..core import Sub, require, scratch_dir, must_raise

RULE = ('regions of 1..12 points with series of length 1..6, once in a while 70..132 points or series of length 20..120, matrices from the region, from the list of '
        'series and from 1..4 worker processes, lookups for every point with generated index sets and clusters; '
        'non-trivial: at least 4 points with different series (serial) or at least 2 workers (parallel)')
ASSUMPTIONS = ['no missing samples', 'matrices are computed for whole regions; clusters look distances up in them']


@st.composite
def spec(draw):
    size = draw(st.sampled_from(['small'] * 17 + ['many', 'long', 'many']))
    x_len, y_len = draw(st.sampled_from([[2, 3], [3, 2], [2, 2], [1, 4], [4, 1], [3, 3], [1, 1], [4, 3]]))
    t = draw(st.sampled_from([3, 2, 4, 6, 1]))
    if size == 'many':
        x_len, y_len = draw(st.sampled_from([[12, 11], [5, 23], [17, 6], [1, 70], [9, 8]]))
        t = draw(st.sampled_from([2, 3, 1]))
    elif size == 'long':
        x_len, y_len = draw(st.sampled_from([[2, 1], [1, 3], [2, 2]]))
        t = draw(st.integers(20, 120))
    n = x_len * y_len
    dtype = draw(st.sampled_from(['f8', 'f8', 'i4', 'f4']))
    kinds = ('fine', 'coarse', 'nearly') if dtype == 'f8' else ('coarse', 'fine') if dtype == 'f4' else ('coarse',)
    return dict(shape=[t, x_len, y_len], values=draw(gen.grid_values(n * t, kinds)), dtype=dtype,
                layout=draw(st.sampled_from(gen.LAYOUTS)), permuted=draw(gen.permutation(n)),
                indices=draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=n)), labels=draw(gen.labels(n)),
                kind=draw(st.sampled_from(['plain', 'plain', 'list', 'scaled'])))


def reference(rows):
    rows = np.asarray(rows, dtype=np.float64)
    return np.sqrt(np.array([[series.dtw_squared(a, b) for b in rows] for a in rows]))


def run_serial(spec, ctx):
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Point
    from spta.region.scaling import ScaleFunction
    from spta.region.temporal import SpatioTemporalRegion
    t, x_len, y_len = spec['shape']
    data = gen.array(spec)
    rows = data.reshape(t, -1).T
    n = x_len * y_len
    region = SpatioTemporalRegion(data.copy('K'))
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    source = region
    if spec['kind'] == 'list':
        source = rows.copy()
    elif spec['kind'] == 'scaled':
        region = source = ScaleFunction(x_len, y_len).apply_to(region, t)
        rows = region.as_numpy.reshape(t, -1).T
    want = reference(rows)
    # the differences of plain values are exact
    tolerance = 1e-7 if spec['kind'] == 'scaled' else 0
    measure = DistanceByDTW()
    with must_raise(Exception, 'looking up distances without a stored matrix'):
        measure.distances_to_point(region, Point(0, 0), region.all_point_indices)
    matrix = measure.compute_distance_matrix(source)
    require(matrix is measure.distance_matrix, 'the computed matrix is not kept')
    require(gen.same(matrix, want, rtol=1e-7, atol=tolerance), 'matrix of {} is {} instead of {}', spec['kind'],
            np.asarray(matrix).tolist(), want.tolist())
    require(np.all(np.diag(matrix) == 0), 'the diagonal is not zero')
    require(gen.same(matrix, np.asarray(matrix).T), 'the matrix is not symmetric')
    before = np.array(matrix)
    asked = gen.points_of(x_len, y_len)
    if n > 20:
        asked = [asked[i] for i in spec['permuted'][:4]] + [asked[-1]]
    for (x, y) in asked:
        i = x * y_len + y
        for indices in (spec['indices'], np.array(spec['indices']), list(range(n)), spec['permuted']):
            got = measure.distances_to_point(region, Point(x, y), indices)
            direct = [measure.measure(rows[i], rows[j]) for j in indices]
            require(gen.same(got, direct, rtol=1e-7, atol=tolerance), 'distances of {} to {}', list(indices), (x, y))
        for c in range(spec['labels']['k']):
            own = gen.members(spec['labels']['labels'], y_len, c)
            if own:
                cluster = partition.create_spt_cluster(region, c)
                require([int(v) for v in cluster.all_point_indices] == [a * y_len + b for a, b in own],
                        'indices of the members of cluster {}', c)
                got = measure.distances_to_point(cluster, Point(x, y), cluster.all_point_indices)
                require(gen.same(got, [want[i, a * y_len + b] for a, b in own], rtol=1e-7,
                                         atol=tolerance),
                        'distances of the members of cluster {} to {}', c, (x, y))
    require(gen.exact(before, measure.distance_matrix), 'lookups modified the matrix')
    ctx.nontrivial(n >= 4 and len(set(map(tuple, rows.tolist()))) >= 3)
    ctx.tag(spec['kind'], 'points:{}'.format(n))


@st.composite
def parallel_spec(draw):
    base = draw(spec())
    base['workers'] = draw(st.sampled_from([2, 3, 1, 4]))
    return base


def run_parallel(spec, ctx):
    from spta.distance.dtw import DistanceByDTW
    from spta.distance.dtw_parallel import DistanceByDTWParallel
    from spta.region.temporal import SpatioTemporalRegion
    data = gen.array(spec)
    region = SpatioTemporalRegion(data.copy('K'))
    serial = DistanceByDTW().compute_distance_matrix(region)
    with scratch_dir():
        measure = DistanceByDTWParallel(spec['workers'])
        matrix = measure.compute_distance_matrix(region)
    require(gen.same(matrix, serial, rtol=1e-9, atol=0), 'with {} workers {} instead of {}', spec['workers'],
            np.asarray(matrix).tolist(), np.asarray(serial).tolist())
    require(measure.distance_matrix is matrix, 'the computed matrix is not kept')
    require(repr(measure) == repr(DistanceByDTW()), 'the parallel computation is the same distance')
    ctx.nontrivial(spec['workers'] >= 2 and data.shape[1] * data.shape[2] >= 3)
    ctx.tag('workers:{}'.format(spec['workers']))


SUBS = [
    Sub('serial', spec, run_serial, quick=120, thorough=3000, shards=(3, 8)),
    Sub('parallel', parallel_spec, run_parallel, quick=32, thorough=400, shards=(2, 4)),
]
