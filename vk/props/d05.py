'''D05: cluster distance statistics describe exactly the distances to the medoid.'''
import os

import numpy as np
from hypothesis import strategies as st

from .. import figures, gen
from ..core import Sub, require, scratch_dir

RULE = ('partitions of 2..16 points in 1..4 (once in a while 70..132 points in 2..13) non-empty clusters with an arbitrary symmetric distance matrix and a generated '
        'medoid in each cluster, 0..n random outside points asked for; non-trivial: at least two clusters of which one '
        'has at least three members')
ASSUMPTIONS = ['random points are only asked for where there are points outside the cluster']


@st.composite
def spec(draw, most=16):
    shapes = [s for s in ([3, 3], [2, 4], [4, 3], [4, 4], [2, 3], [1, 5], [2, 2], [1, 2]) if s[0] * s[1] <= most]
    x_len, y_len = draw(st.sampled_from(shapes))
    k = draw(st.sampled_from([2, 3, 2, 4, 1]))
    if most > 12 and draw(st.sampled_from([False] * 19 + [True])):
        x_len, y_len = draw(st.sampled_from([[12, 11], [7, 15], [14, 5]]))
        k = draw(st.integers(2, 13))
    n = x_len * y_len
    k = min(k, n)
    return dict(shape=[x_len, y_len], triangle=draw(gen.symmetric_matrix(n)),
                labels=draw(gen.labels(n, k=k, allow_empty=False)),
                pick=draw(st.lists(st.integers(0, 50), min_size=k, max_size=k)),
                random=draw(st.sampled_from([0, 1, 2, 3, 100])), seed=draw(st.integers(0, 1000)))


def setup(spec):
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Point
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['shape']
    n = x_len * y_len
    matrix = gen.full_matrix(spec['triangle'], n)
    measure = DistanceByDTW()
    measure.distance_matrix = matrix.copy()
    labels, k = spec['labels']['labels'], spec['labels']['k']
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    own = [[i for i in range(n) if labels[i] == c] for c in range(k)]
    medoid = [own[c][spec['pick'][c] % len(own[c])] for c in range(k)]
    partition.medoids = [Point(i // y_len, i % y_len) for i in medoid]
    region = SpatioTemporalRegion(np.arange(2.0 * n).reshape(2, x_len, y_len))
    clusters = partition.create_all_spt_clusters(region, medoids=partition.medoids)
    return matrix, measure, partition, region, clusters, own, medoid


def lines_of(text):
    values = {}
    for line in text.split('\n'):
        if '=' in line:
            name, value = line.rsplit('=', 1)
            values[name.strip()] = float(value)
    return values


def check_statistics(text, distances, what):
    values = lines_of(text)
    ordered = sorted(distances)
    want = {'n': len(distances), 'min': ordered[min(1, len(ordered) - 1)], 'max': ordered[-1], 'x\u0305': float(np.mean(distances)),
            's': float(np.std(distances)), 'M': float(np.median(distances))}
    for name, value in want.items():
        require(name in values and abs(values[name] - value) <= 0.0051, '{}: {} is {} instead of {}', what, name,
                values.get(name), value)
    return values


def run_statistics(spec, ctx):
    from spta.clustering.kmedoids import KmedoidsClusteringAlgorithm, KmedoidsClusteringMetadata
    from spta.distance.variance import DistanceHistogram, DistanceHistogramClusters, \
        DistanceHistogramRandomOutsidePoints, DistanceHistogramWithRandomPointsOtherClusters
    from spta.region.partition import intra_cluster_cost
    matrix, measure, partition, region, clusters, own, medoid = setup(spec)
    n, k = len(matrix), len(own)
    np.random.seed(spec['seed'])

    # total cost
    want = sum(float((matrix[medoid[c], own[c]] ** 2).sum()) for c in range(k))
    cost = intra_cluster_cost(partition, region, measure)
    require(abs(cost - want) <= 1e-9 * want, 'intra-cluster cost {} instead of {}', cost, want)

    # the whole region
    whole = DistanceHistogram(region, measure)
    distances = whole.distances_to_point(partition.medoids[0])
    require(gen.same(distances, matrix[medoid[0]]), 'distances of the region to {}', medoid[0])
    check_statistics(whole.statistics(distances), distances, 'region')
    require(whole.max_distance(distances) == matrix[medoid[0]].max(), 'largest distance of the region')
    require(whole.max_distance(distances, 1e6) == 1e6, 'overridden largest distance')

    largest = []
    for c in range(k):
        what = 'cluster {}'.format(c)
        outside = [i for i in range(n) if i not in own[c]]
        histogram = DistanceHistogram(clusters[c], measure)
        mine = matrix[medoid[c], own[c]]
        distances = histogram.distances_to_point(partition.medoids[c])
        require(gen.same(distances, mine), '{}: distances {} instead of {}', what, distances, mine)
        require(histogram.max_distance(distances) == mine.max(), '{}: largest distance', what)
        require(histogram.max_distance(distances, mine.max() + 1) == mine.max() + 1, '{}: overridden', what)
        require(histogram.max_distance(distances, -1) == mine.max(), '{}: overridden by less', what)
        largest.append(mine.max())
        if own[c]:
            check_statistics(histogram.statistics(distances), mine, what)
        if not outside:
            continue
        asked = spec['random'] or len(own[c])
        count = min(asked, len(outside))
        outside_hist = DistanceHistogramRandomOutsidePoints(clusters[c], measure, num_points=spec['random'])
        with_random = DistanceHistogramWithRandomPointsOtherClusters(DistanceHistogram(clusters[c], measure),
                                                                     spec['random'])
        for h in (outside_hist, with_random):
            for _ in range(2):
                drawn = [int(i) for i in h.point_indices]
                require(len(drawn) == count and len(set(drawn)) == count, '{}: {} random points instead of {} distinct',
                        what, drawn, count)
                require(all(i in outside for i in drawn), '{}: random points {}, members {}', what, drawn, own[c])
        both = with_random.distances_to_point(partition.medoids[c])
        require(len(both) == 2 and gen.same(both[0], mine), '{}: distances with random points', what)
        extra = sorted(float(v) for v in both[1])
        possible = sorted(float(v) for v in matrix[medoid[c], outside])
        left = list(possible)
        for v in extra:
            require(v in left, '{}: distance {} to a random point is none of {}', what, v, possible)
            left.remove(v)
        require(len(extra) == count, '{}: {} random distances', what, len(extra))
        require(with_random.max_distance(both) == max(mine.max(), max(extra)), '{}: largest with random points', what)
        if own[c]:
            values = check_statistics(with_random.statistics(both), mine, what + ' with random points')
            require(values['#rand'] == count, '{}: reports {} random points', what, values['#rand'])
            require(values['\u2229rand'] == sum(v < mine.max() for v in extra), '{}: reports {} closer random points', what,
                    values['\u2229rand'])
    algorithm = KmedoidsClusteringAlgorithm(KmedoidsClusteringMetadata(k), measure)
    together = DistanceHistogramClusters(clusters, algorithm)
    require(together.max_distance() == max(largest), 'common largest distance {} instead of {}', together.max_distance(),
            max(largest))
    if k >= 2:
        # all outside points are asked for: nothing is random
        everything = DistanceHistogramClusters(clusters, algorithm, random_points=n)
        want = max(matrix[medoid[c]].max() for c in range(k))
        require(everything.max_distance() == want, 'common largest distance with all points {} instead of {}',
                everything.max_distance(), want)
    ctx.nontrivial(k >= 2 and max(len(o) for o in own) >= 3)
    ctx.tag('k:{}'.format(k), 'random:{}'.format(spec['random']))


@st.composite
def figure_spec(draw):
    one = draw(spec(most=12))
    one['bins'] = draw(st.sampled_from([5, 1, 3, 8]))
    one['plain'] = draw(st.booleans())
    return one


def bars(axis, bins, which=0):
    '''(edges, counts) of a histogram in the subplot.'''
    found = axis.rectangles[which * bins:(which + 1) * bins]
    require(len(found) == bins, '{} bars instead of {}', len(axis.rectangles), bins)
    edges = [r[0] for r in found] + [found[-1][0] + found[-1][2]]
    return edges, [r[3] for r in found]


def check_bars(axis, bins, distances, what, which=0):
    edges, counts = bars(axis, bins, which)
    want, want_edges = np.histogram(distances, bins=bins)
    require(np.allclose(edges, want_edges, rtol=1e-9, atol=1e-12) and [int(c) for c in counts] == want.tolist(),
            '{}: bars {} at {} instead of {} at {}', what, counts, edges, want, want_edges)


def run_plot(spec, ctx):
    '''The figure of all clusters: one histogram per cluster, all members counted, one range; and of the whole region.'''
    from spta.clustering.kmedoids import KmedoidsClusteringAlgorithm, KmedoidsClusteringMetadata
    from spta.distance.variance import DistanceHistogram, DistanceHistogramClusters
    matrix, measure, partition, region, clusters, own, medoid = setup(spec)
    n, k, bins = len(matrix), len(own), spec['bins']
    algorithm = KmedoidsClusteringAlgorithm(KmedoidsClusteringMetadata(k), measure)
    np.random.seed(spec['seed'])
    with scratch_dir():
        region.centroid = partition.medoids[-1]
        with figures.watch() as seen:
            DistanceHistogram.histogram_to_centroid(region, measure, bins=bins, plot_name='whole.pdf')
        require(len(seen.saved) == 1 and seen.at('whole.pdf') and len(seen.at('whole.pdf').axes) == 1, 'figures {}',
                [f.path for f in seen.saved])
        (axis,) = seen.at('whole.pdf').axes
        check_bars(axis, bins, matrix[medoid[-1]], 'region')
        check_statistics(axis.texts[0], matrix[medoid[-1]], 'figure of the region')
        region.centroid = None
        if k < 2:
            return
        asked = None if spec['plain'] else spec['random']
        with figures.watch() as seen:
            DistanceHistogramClusters.cluster_histograms(clusters, algorithm, random_points=asked, bins=bins, plot_dir='.')
        name = 'variance-histograms__{!r}{}.pdf'.format(algorithm, '' if asked is None else '__random{}'.format(asked))
        require([os.path.basename(f.path) for f in seen.saved] == [name] and os.path.exists(name), 'figures {} instead of {}',
                [f.path for f in seen.saved], name)
        # a grid may have more places than there are clusters
        axes = [a for a in seen.saved[0].axes if a.rectangles]
        require(len(axes) == k, '{} histograms for {} clusters', len(axes), k)
        largest = max(matrix[medoid[c], own[c]].max() for c in range(k))
        for c, axis in enumerate(axes):
            what = 'histogram {}'.format(c)
            mine = matrix[medoid[c], own[c]]
            outside = [i for i in range(n) if i not in own[c]]
            check_bars(axis, bins, mine, what)
            require(axis.xlim[0] == 0 or not largest, '{} has range {}', what, axis.xlim)
            values = check_statistics(axis.texts[0], mine, what)
            if asked is None:
                # (no common range if all points are at distance zero)
                require(not largest or abs(axis.xlim[1] - largest) <= 1e-9 * largest, '{} has range {}', what, axis.xlim)
                require(len(axis.rectangles) == bins, '{} has {} bars', what, len(axis.rectangles))
                continue
            count = min(asked or len(own[c]), len(outside))
            possible = matrix[medoid[c], outside]
            edges, counts = bars(axis, bins, 1)
            require(sum(counts) == count == values['#rand'], '{}: {} random points shown, {} reported, instead of {}', what, sum(counts),
                    values['#rand'], count)
            # every bar holds at most the points outside the cluster at such distances
            near = 1e-9 * (1 + abs(edges[-1]))
            within = [int(((possible >= a - near) & (possible <= b + near)).sum()) for a, b in zip(edges, edges[1:])]
            require(all(a <= b for a, b in zip(counts, within)), '{}: random points {} in {}, of the distances {}', what, counts, edges,
                    possible)
            if count == len(outside):
                check_bars(axis, bins, possible, what + ' outside', 1)
    ctx.nontrivial(max(len(o) for o in own) >= 3)
    ctx.tag('k:{}'.format(k), 'plain' if spec['plain'] else 'random:{}'.format(spec['random']))


SUBS = [
    Sub('statistics', spec, run_statistics, quick=600, thorough=15000, shards=(3, 8)),
    Sub('figure', figure_spec, run_plot, quick=120, thorough=3000, shards=(2, 8)),
]
