'''C09: density-based clustering.'''
import numpy as np
from hypothesis import strategies as st

from .. import dataset, gen
from ..core import Sub, require, scratch_dir

RULE = ('regions of 1..48 points whose series lie in 1..5 groups along a line or in the plane (close, bridged or far '
        'apart, with stragglers), and arbitrary distance matrices with values around 0.7; the matrix is stored with the '
        'measure, found next to the dataset, or missing; spatial regions and stored results likewise; non-trivial: at '
        'least two clusters, or a cluster besides points in none')
ASSUMPTIONS = ['a point that lies within 0.7 of core points of several clusters may belong to any of them',
               'group 0 has no points when all points are in a cluster']

EPS, ENOUGH = 0.7, 5
SHAPES = [[6, 6], [10, 10], [4, 5], [8, 6], [5, 9], [5, 5], [7, 7], [2, 9], [3, 4], [1, 12], [7, 1], [2, 3], [1, 1]]


@st.composite
def spec(draw, kinds=('line', 'line', 'plane', 'matrix')):
    shape = draw(st.sampled_from(SHAPES))
    n = shape[0] * shape[1]
    kind = draw(st.sampled_from(kinds))
    out = dict(shape=shape, kind=kind, layout=draw(st.sampled_from(gen.LAYOUTS)), corner=draw(st.sampled_from([[3, 7], [0, 0], [20, 2]])))
    if kind == 'matrix':
        values = draw(st.sampled_from([[0.25, 0.5, 0.7, 0.75, 1.0, 2.0], [0.7, 0.75], [0.5, 1.0, 2.0, 4.0, 8.0, 3.0],
                                       [0.6875, 0.703125, 0.9, 5.0, 6.0, 7.0, 8.0, 9.0]]))
        out['matrix'] = [values[b % len(values)] for b in draw(gen.noise(n * (n - 1) // 2))]
        out['source'] = draw(st.sampled_from(['stored', 'found']))
        return out
    groups = draw(st.sampled_from([3, 2, 4, 5, 1]))
    apart = draw(st.sampled_from([3.0, 1.5, 1.0, 1.25, 2.0]))
    spread = draw(st.sampled_from([3, 5, 9, 1]))
    raw = draw(gen.noise(3 * n))
    points = []
    for i in range(n):
        a, b, c = raw[3 * i], raw[3 * i + 1], raw[3 * i + 2]
        center = (a % groups) * apart
        straggler = a > 235
        points.append([center + (b % spread) / 8.0 + (40.0 if straggler else 0), (c % spread) / 8.0 + (b if straggler else 0)])
    out['points'] = points if kind == 'plane' else [[p[0]] for p in points]
    out['source'] = draw(st.sampled_from(['computed', 'stored', 'found'] if kind == 'line' else ['stored', 'found']))
    return out


def check(labels, matrix, what):
    n = len(matrix)
    close = [[j for j in range(n) if matrix[i][j] <= EPS] for i in range(n)]
    core = [len(close[i]) >= ENOUGH for i in range(n)]
    # connected groups of core points
    group = [None] * n
    groups = 0
    for i in range(n):
        if core[i] and group[i] is None:
            groups += 1
            group[i], queue = groups, [i]
            while queue:
                for j in close[queue.pop()]:
                    if core[j] and group[j] is None:
                        group[j] = groups
                        queue.append(j)
    name = {}
    for i in range(n):
        reachable = {group[j] for j in close[i] if core[j]}
        if core[i]:
            require(labels[i] != 0, '{}: core point {} is in no cluster', what, i)
            require(name.setdefault(group[i], labels[i]) == labels[i], '{}: core point {} is in cluster {}, others of its group in {}',
                    what, i, labels[i], name[group[i]])
        elif not reachable:
            require(labels[i] == 0, '{}: point {} near no core point is in cluster {}', what, i, labels[i])
    require(len(set(name.values())) == groups, '{}: groups {} of core points share clusters', what, name)
    border = 0
    for i in range(n):
        reachable = {group[j] for j in close[i] if core[j]}
        if not core[i] and reachable:
            border += 1
            require(labels[i] in {name[g] for g in reachable}, '{}: point {} is in {} instead of a cluster next to it {}', what, i,
                    labels[i], sorted(name[g] for g in reachable))
    require(sorted(name.values()) == list(range(1, groups + 1)), '{}: clusters are numbered {}', what, sorted(name.values()))
    return groups, border, labels.count(0)


def run(spec, ctx):
    import io, contextlib
    from spta.clustering.dbscan import DbscanClusteringAlgorithm, DbscanClusteringMetadata
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.spatial import SpatialRegion
    x_len, y_len = spec['shape']
    n = x_len * y_len
    if spec['kind'] == 'matrix':
        matrix = gen.full_matrix(spec['matrix'], n)
        data = np.arange(2.0 * n).reshape(2, x_len, y_len)
    else:
        points = np.array(spec['points'])
        matrix = np.sqrt(np.square(points[:, None, :] - points[None, :, :]).sum(axis=2))
        data = np.array([points[:, 0]] * 1).reshape(1, x_len, y_len)
    x, y = spec['corner']
    metadata = SpatioTemporalRegionMetadata('place', Region(x, x + x_len, y, y + y_len), 2015, 2015, 1, scaled=False)
    before = matrix.copy()

    def partition(measure, region, **options):
        algorithm = DbscanClusteringAlgorithm(DbscanClusteringMetadata(), measure)
        with contextlib.redirect_stdout(io.StringIO()):
            return algorithm.partition(region, **options)

    def labels_of(found, what):
        require(tuple(found.shape) == (x_len, y_len), '{}: shape {}', what, found.shape)
        labels = [int(v) for v in np.asarray(found.as_numpy).reshape(n)]
        require(found.k == max(labels) + 1, '{}: {} groups, labels up to {}', what, found.k, max(labels))
        for c in range(found.k):
            require(found.cluster_len(c) == labels.count(c), '{}: size of group {}', what, c)
        return labels

    with scratch_dir():
        dataset.install(data, metadata)
        region = metadata.create_instance()
        measure = DistanceByDTW()
        if spec['source'] == 'stored':
            measure.distance_matrix = gen.array(dict(values=matrix, shape=[n, n], layout=spec['layout']))
        elif spec['source'] == 'found':
            np.save(metadata.distances_filename, matrix)
        first = partition(measure, region)
        labels = labels_of(first, 'partition')
        groups, border, noise = check(labels, matrix, 'with the distances {}'.format(spec['source']))
        require(gen.exact(region.as_numpy, data), 'the region was modified')
        require(gen.exact(np.asarray(measure.distance_matrix), before), 'distances kept by the measure')
        # once more, and with the result kept
        require(labels_of(partition(measure, region, with_medoids=False), 'again') == labels, 'again: another partition')
        require(labels_of(partition(measure, region, pickle_home='pickle'), 'kept') == labels, 'kept: another partition')
        other = DistanceByDTW()
        other.distance_matrix = np.full((n, n), 9.0) - 9.0 * np.eye(n)
        require(labels_of(partition(other, region, pickle_home='pickle'), 'kept') == labels, 'the kept result is not returned')
        # a spatial region, no distances next to it
        measure = DistanceByDTW()
        measure.distance_matrix = matrix.copy()
        sheet = SpatialRegion(np.zeros((x_len, y_len)))
        with contextlib.redirect_stdout(io.StringIO()):
            flat = DbscanClusteringAlgorithm(DbscanClusteringMetadata(), measure).partition_2d(sheet)
        require(labels_of(flat, 'spatial region') == labels, 'spatial region: another partition')
    ctx.nontrivial(groups >= 2 or (groups and noise))
    ctx.tag('clusters:{}'.format(min(groups, 5)), 'border' if border else 'no border', 'noise' if noise else 'no noise',
            spec['source'], spec['kind'])


@st.composite
def description_spec(draw):
    return dict(k=draw(st.integers(0, 300)), other=draw(st.integers(0, 12)))


def run_description(spec, ctx):
    from spta.clustering.dbscan import DbscanClusteringMetadata
    from spta.clustering.regular import RegularClusteringMetadata
    k = spec['k']
    described = DbscanClusteringMetadata(k)
    require(repr(described) == 'dbscan_k{}'.format(k), 'text {!r}', described)
    again = DbscanClusteringMetadata.from_repr(repr(described))
    require(type(again) is type(described) and again == described and again.k == k and hash(again) == hash(described),
            'parsed {!r} instead of {!r}', again, described)
    require(dict(described.as_dict()) == dict(type='dbscan', k=k), 'parameters {}', dict(described.as_dict()))
    require((DbscanClusteringMetadata(spec['other']) == described) == (spec['other'] == k), 'equal to k={}', spec['other'])
    require(described != RegularClusteringMetadata(k), 'equal to a regular clustering')
    require(DbscanClusteringMetadata().k == 0, 'number of clusters before clustering')
    ctx.nontrivial(k > 9)


SUBS = [Sub('density', spec, run, quick=600, thorough=20000, shards=(4, 8)),
        Sub('descriptions', description_spec, run_description, quick=60, thorough=400)]
