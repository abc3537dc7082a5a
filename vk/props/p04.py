'''P04: clusters and medoids intersecting a rectangle.'''
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require, must_raise

RULE = ('partitions of 1..8 x 1..8 points in k 1..6 clusters (once in a while 9..25 x 9..25 in up to 300) and 1..5 rectangles each; non-trivial: k >= 2, a rectangle with '
        'some but not all clusters, region not square')
ASSUMPTIONS = ['the order of the reported clusters is unspecified']


@st.composite
def spec(draw):
    x_len, y_len = draw(gen.sizes((1, 8), (1, 8)))
    labels = draw(gen.labels(x_len * y_len, max_k=6, allow_empty=draw(st.integers(0, 4)) == 0))
    return dict(shape=[x_len, y_len], labels=labels, pick=draw(st.integers(0, 10 ** 6)),
                rects=draw(st.lists(gen.rectangle(x_len, y_len), min_size=1, max_size=5)))


def run(spec, ctx):
    from spta.region import Point, Region
    x_len, y_len = spec['shape']
    labels, k = spec['labels']['labels'], spec['labels']['k']
    partition = gen.build_partition(spec['labels'], x_len, y_len)
    with must_raise(ValueError, 'medoids of a partition without medoids'):
        partition.find_medoids_of_clusters_intersecting_with(Region(0, x_len, 0, y_len))
    medoids = []
    for c in range(k):
        own = gen.members(labels, y_len, c) or gen.points_of(x_len, y_len)
        medoids.append(Point(*own[(spec['pick'] + 7 * c) % len(own)]))
    partition.medoids = medoids
    for x1, x2, y1, y2 in spec['rects']:
        rect = Region(x1, x2, y1, y2)
        want = set()
        for x in range(x1, x2):
            for y in range(y1, y2):
                want.add(labels[x * y_len + y])
        got = [int(c) for c in partition.find_indices_of_clusters_intersecting_with(rect)]
        require(sorted(got) == sorted(want), 'clusters in {}: {} instead of {}', rect, got, sorted(want))
        found = partition.find_medoids_of_clusters_intersecting_with(rect)
        require(sorted(tuple(m) for m in found) == sorted(tuple(medoids[c]) for c in want),
                'medoids in {}: {} instead of those of {}', rect, found, sorted(want))
        ctx.nontrivial(k >= 2 and 0 < len(want) < k and x_len != y_len)
    ctx.tag('k:{}'.format(k))


SUBS = [Sub('rectangles', spec, run, quick=800, thorough=20000, shards=(2, 8))]
