'''C02: k-medoids is reproducible and does not depend on how distances are obtained.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen, kmed
from ..core import Sub, require

RULE = ('regions of 1..12, once in a while 32..55, distinct short series (small integers), every k, seeds, modes and given initial medoids, repeated '
        'after different uses of the random generator and of the algorithm, with a precomputed matrix and measured; '
        'non-trivial: 2 <= k < points and the result differs from the initial medoids or the initial medoids are seeded')
ASSUMPTIONS = ['series with small integer values, so that measured and stored distances are the same numbers',
               'a medoid is expected in its own cluster, and all clusters to have members, where no two points are '
               'at distance zero']


@st.composite
def spec(draw):
    large = draw(st.sampled_from([False] * 29 + [True]))
    if large:
        x_len, y_len = draw(st.sampled_from([[5, 7], [8, 4], [3, 14], [11, 5], [6, 6]]))
    else:
        x_len, y_len = draw(st.sampled_from([[3, 2], [2, 4], [3, 3], [1, 4], [2, 2], [2, 5], [4, 2], [1, 7], [1, 1]]))
    n = x_len * y_len
    t = draw(st.integers(1, 3))
    if large:
        raw = draw(gen.noise(n * t))
        series = [[raw[i * t + j] % 64 for j in range(t)] + [i] for i in range(n)]
    else:
        series = draw(st.lists(st.tuples(*[st.integers(0, 15 if t == 1 else 5)] * t), min_size=n, max_size=n, unique=True))
    mode = draw(st.sampled_from(['lite', 'robust']))
    k = kmed.clusters(draw, n)
    if large and mode == 'robust':
        k = min(k, 6)
    return dict(shape=[x_len, y_len], series=[list(s) for s in series], k=k, seed=draw(st.integers(0, 1000)),
                mode=mode, noise=draw(st.integers(0, 1000)),
                initial=draw(st.none() | st.none() | st.permutations(range(n)).map(lambda p: p[:k])),
                other_seed=draw(st.integers(0, 1000)), max_iter=draw(st.sampled_from([1000, 1000, 1000, 0, 1])), tol=draw(st.sampled_from([0.001, 0.001, 0.75, 2.5])),
                dtype=draw(st.sampled_from(['f8', 'i8', 'f4', 'i4'])), layout=draw(st.sampled_from(gen.LAYOUTS)))


def summary(result):
    return ([int(m) for m in result.medoids], [int(v) for v in result.labels], round(float(result.total_cost), 9))


def run(spec, ctx):
    from spta.clustering.kmedoids import KmedoidsClusteringAlgorithm, KmedoidsClusteringMetadata
    from spta.distance.dtw import DistanceByDTW
    from spta.kmedoids.kmedoids import run_kmedoids, run_kmedoids_from_metadata, kmedoids_default_metadata
    from spta.region.temporal import SpatioTemporalRegion

    class Remembering(DistanceByDTW):
        '''the same distances, each of them measured once'''
        def __init__(self):
            super(Remembering, self).__init__()
            self.known = {}

        def measure(self, first_series, second_series):
            key = (first_series.tobytes(), second_series.tobytes())
            if key not in self.known:
                self.known[key] = super(Remembering, self).measure(first_series, second_series)
            return self.known[key]

    x_len, y_len = spec['shape']
    X = np.array(spec['series'], dtype=np.dtype(spec.get('dtype', 'f8')))
    n, t = X.shape
    k, seed, mode, initial = spec['k'], spec['seed'], spec['mode'], spec['initial']
    cube = X.T.reshape(t, x_len, y_len)
    region = SpatioTemporalRegion(gen.array(dict(values=cube, shape=cube.shape, dtype=spec.get('dtype', 'f8'),
                                                 layout=spec.get('layout', 'C'))))
    require(gen.exact(region.as_2d, X), 'the list of series of the region is not in row-major order')

    def measured():
        return Remembering() if n > 20 else DistanceByDTW()

    def run_once(measure, **extra):
        options = dict(initial_medoids=None if initial is None else list(initial), random_seed=seed, mode=mode,
                       max_iter=spec['max_iter'], tol=spec['tol'], verbose=False)
        options.update(extra)
        return summary(run_kmedoids(X.copy(), k, measure, **options))

    first = run_once(measured())
    stored = DistanceByDTW()
    matrix = stored.compute_distance_matrix(X)
    # warping can make different series equal
    unequal = bool(np.all(np.asarray(matrix)[~np.eye(n, dtype=bool)] > 0))
    require(run_once(stored) == first, 'with a stored matrix {} instead of {}', run_once(stored), first)
    # another use of the algorithm and of the random generator in between
    np.random.seed(spec['noise'])
    np.random.rand(spec['noise'] % 7)
    run_kmedoids(X[::-1].copy(), min(k, n), measured(), random_seed=spec['other_seed'], verbose=False)
    require(run_once(measured()) == first, 'measured again after other work: another result')
    require(run_once(stored, verbose=True) == first, 'stored matrix again after other work: another result')
    np.random.seed(spec['noise'] + 1)
    default = kmedoids_default_metadata(k, distance_measure=stored, random_seed=seed, mode=mode, max_iter=spec['max_iter'],
                                        tol=spec['tol'], initial_medoids=None if initial is None else list(initial))
    require(summary(run_kmedoids_from_metadata(X, default)) == first, 'described by metadata: another result')
    if initial is not None:
        require(run_once(stored, random_seed=spec['other_seed']) == first,
                'given initial medoids, but the seed changes the result')
        # a tolerance that no exchange can exceed: it has to stay where it starts
        stay = run_once(stored, tol=1e9)
        require(stay[0] == list(initial), 'started at {} with no exchange allowed, ends at {}', initial, stay[0])
        require(stay[1] == kmed.crisp_cost(matrix, initial)[0].tolist(), 'labels at the initial medoids')

    metadata = KmedoidsClusteringMetadata(k, random_seed=seed, mode=mode, max_iter=spec['max_iter'],
                                          tol=spec['tol'], verbose=False, initial_medoids=None if initial is None else list(initial))
    for measure in (measured(), stored):
        partition = KmedoidsClusteringAlgorithm(metadata, measure).partition(region)
        require(tuple(partition.shape) == (x_len, y_len), 'partition {}', partition.shape)
        require(partition.k == k or not unequal, 'partition with k {} instead of {}', partition.k, k)
        want_labels = np.array(first[1]).reshape(x_len, y_len)
        require(gen.exact(partition.as_numpy, want_labels), 'labels of the region {} instead of {}',
                np.array(partition.as_numpy).tolist(), want_labels.tolist())
        want = [(m // y_len, m % y_len) for m in first[0]]
        require([(p.x, p.y) for p in partition.medoids] == want, 'medoids {} instead of {}', partition.medoids, want)
        if unequal:
            for c, p in enumerate(partition.medoids):
                require(partition.is_member(p, c), 'medoid {} outside its cluster', p)
    require(gen.exact(region.as_2d, X), 'the region was modified')
    ctx.tag('type:' + str(X.dtype))
    ctx.nontrivial(2 <= k < n and (initial is None or set(first[0]) != set(initial)))
    ctx.tag(mode, 'k:{}'.format(k), 'initial' if initial is not None else 'seeded')


SUBS = [Sub('reproducible', spec, run, quick=250, thorough=8000, shards=(6, 8))]
