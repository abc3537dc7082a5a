'''C07: silhouette scores and the clustering chosen with them.'''
import math

import numpy as np
from hypothesis import strategies as st

from .. import dataset, gen, kmed
from ..core import Sub, require, scratch_dir
from .c05 import make_metadatas

RULE = ('arbitrary labels (2..5 used clusters, singletons included) over 4..14 samples with arbitrary distance matrices, and '
        'both analyses of real suites (several counts and seeds, ties between scores included); non-trivial: the score is '
        'not an extreme value and, for analyses, the best clustering is not the first visited')
ASSUMPTIONS = ['every clustering has between 2 and n-1 used clusters', 'labels are 0..k-1']


def silhouette(matrix, labels):
    '''By definition, with scalar loops.'''
    n = len(labels)
    total = 0.0
    for i in range(n):
        own = [j for j in range(n) if j != i and labels[j] == labels[i]]
        if not own:
            continue
        a = sum(float(matrix[i, j]) for j in own) / len(own)
        b = math.inf
        for other in set(labels):
            if other != labels[i]:
                members = [j for j in range(n) if labels[j] == other]
                b = min(b, sum(float(matrix[i, j]) for j in members) / len(members))
        total += (b - a) / max(a, b)
    return total / n


@st.composite
def score_spec(draw):
    n = draw(st.sampled_from([4, 5, 6, 8, 9, 12, 14]))
    k = draw(st.sampled_from([k for k in [2, 2, 3, 4, 5] if k < n]))
    return dict(n=n, triangle=draw(gen.symmetric_matrix(n)), labels=draw(gen.labels(n, k=k, allow_empty=False)))


def run_score(spec, ctx):
    import matplotlib.pyplot as plt
    from spta.util import plot as plot_util
    matrix = gen.full_matrix(spec['triangle'], spec['n'])
    labels = spec['labels']['labels']
    given = np.array(labels)
    before = matrix.copy()
    try:
        got = plot_util.plot_clustering_silhouette(matrix, given)
    finally:
        plt.close('all')
    want = silhouette(matrix, labels)
    require(abs(got - want) < 1e-9, 'score {} instead of {} for labels {}', got, want, labels)
    require(gen.exact(matrix, before) and given.tolist() == labels, 'the distances or labels were modified')
    ctx.nontrivial(-0.99 < want < 0.99)
    ctx.tag('k:{}'.format(spec['labels']['k']), 'singleton' if 1 in [labels.count(v) for v in set(labels)] else 'all larger')


@st.composite
def analysis_spec(draw):
    shape = draw(st.sampled_from([[2, 3], [3, 3], [2, 4], [4, 3], [2, 5], [1, 6]]))
    n = shape[0] * shape[1]
    t = draw(st.integers(2, 3))
    series = draw(st.lists(st.tuples(*[st.integers(0, 9)] * t), min_size=n, max_size=n, unique=True))
    return dict(shape=shape, t=t, series=[list(s) for s in series],
                kind=draw(st.sampled_from(['kmedoids', 'kmedoids', 'kmedoids', 'regular'])),
                ks=draw(st.lists(st.integers(2, min(5, n - 1)), min_size=draw(st.sampled_from([3, 2, 1])), max_size=3, unique=True)),
                seeds=draw(st.lists(st.integers(0, 30), min_size=draw(st.sampled_from([2, 1])), max_size=2, unique=True)),
                mode=draw(st.sampled_from(['lite', 'robust'])), corner=draw(st.tuples(st.integers(0, 9), st.integers(0, 9))),
                triangle=draw(gen.symmetric_matrix(n)), initial=draw(st.none() | st.permutations(range(n))),
                max_iter=draw(st.sampled_from([0, 1, 1000])))


def expectation(spec, matrix, labels_of):
    '''(best score, [keys of the best]) in the order of the keys'''
    scores = {key: silhouette(matrix, labels) for key, labels in labels_of.items()}
    best = max(scores.values())
    return scores, best


def run_suite(spec, ctx):
    '''SilhouetteAnalysis over a suite.'''
    import matplotlib.pyplot as plt
    from spta.clustering.factory import ClusteringFactory
    from spta.clustering.silhouette import SilhouetteAnalysis
    from spta.clustering.suite import ClusteringSuite
    from spta.distance.dtw import DistanceByDTW
    from spta.region import Region
    from spta.region.metadata import SpatioTemporalRegionMetadata
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['shape']
    x, y = spec['corner']
    n = x_len * y_len
    matrix = gen.full_matrix(spec['triangle'], n)
    metadata = SpatioTemporalRegionMetadata('place', Region(x, x + x_len, y, y + y_len), 2015, 2015, 1, scaled=False)
    data = np.array(spec['series'], dtype=float).T.reshape(spec['t'], x_len, y_len)
    reference = DistanceByDTW()
    reference.distance_matrix = matrix.copy()
    if spec['kind'] == 'regular':
        ks = [k for k in spec['ks'] if regular_possible(k, x_len, y_len)]
        if not ks:
            return
        spec = dict(spec, ks=ks)
        suite = ClusteringSuite('mine', 'regular', k=ks)
    else:
        suite = ClusteringSuite('mine', 'kmedoids', k=spec['ks'], random_seed=spec['seeds'], mode=spec['mode'], verbose=False)
    labels_of = {}
    for m in make_metadatas(spec):
        partition = ClusteringFactory(reference).instance(m).partition(SpatioTemporalRegion(data.copy('K')))
        labels_of[repr(m)] = [int(v) for v in np.array(partition.as_numpy).reshape(-1)]
    if any(not 2 <= len(set(labels)) <= n - 1 for labels in labels_of.values()):
        return
    scores, best = expectation(spec, matrix, labels_of)
    with scratch_dir():
        dataset.install(data, metadata)
        np.save(metadata.distances_filename, matrix)
        try:
            analysis = SilhouetteAnalysis(metadata, DistanceByDTW(), suite)
            got_score, got = analysis.perform_analysis('outputs', 'pickle')
        finally:
            plt.close('all')
    require(repr(got) in scores, 'the best clustering is {!r}', got)
    require(abs(got_score - best) < 1e-9, 'best score {} instead of {} ({})', got_score, best, scores)
    judge_choice(labels_of, scores, repr(got), best)
    ctx.nontrivial(list(scores).index(repr(got)) > 0)
    tag_ties(ctx, labels_of)
    ctx.tag('suite ' + spec['kind'], 'clusterings:{}'.format(len(scores)))


def grouping(labels):
    return [labels.index(v) for v in labels]


def tag_ties(ctx, labels_of):
    groups = [grouping(labels) for labels in labels_of.values()]
    ctx.tag('same groups twice' if any(g in groups[:i] for i, g in enumerate(groups)) else 'all groups differ')


def judge_choice(labels_of, scores, chosen, best):
    keys = list(labels_of)
    require(best - scores[chosen] < 1e-9, 'chosen {} with score {}, best is {}', chosen, scores[chosen], best)
    # rounding must not decide: the scores of the same groups are exactly equal
    earlier = [key for key in keys[:keys.index(chosen)] if grouping(labels_of[key]) == grouping(labels_of[chosen])]
    require(not earlier, 'chosen {} although {} has the same groups, score {}, before it', chosen, earlier, best)


def regular_possible(k, x_len, y_len):
    '''Both factors of the regular partition divide the region.'''
    from spta.util import arrays as arrays_util
    try:
        from spta.region.partition import PartitionRegionCrisp
        PartitionRegionCrisp.with_regular_partition(k, x_len, y_len)
        return k <= x_len * y_len
    except Exception:
        return False


def run_seeds(spec, ctx):
    '''The analysis over seeds and counts.'''
    import matplotlib.pyplot as plt
    from spta.distance.dtw import DistanceByDTW
    from spta.kmedoids.kmedoids import run_kmedoids
    from spta.kmedoids.silhouette import do_silhouette_analysis, silhouette_default_metadata
    from spta.region.temporal import SpatioTemporalRegion
    x_len, y_len = spec['shape']
    n = x_len * y_len
    data = np.array(spec['series'], dtype=float).T.reshape(spec['t'], x_len, y_len)
    region = SpatioTemporalRegion(data.copy('K'))
    measure = DistanceByDTW()
    matrix = gen.full_matrix(spec['triangle'], n)
    measure.distance_matrix = matrix.copy()
    results, labels_of = {}, {}
    for seed in spec['seeds']:
        for k in spec['ks']:
            initial = None if spec['initial'] is None else spec['initial'][:k]
            result = run_kmedoids(data.reshape(spec['t'], n).T.copy(), k, measure, initial_medoids=initial, random_seed=seed,
                                  mode=spec['mode'], max_iter=spec['max_iter'], verbose=False)
            results[seed, k] = result
            labels_of[seed, k] = [int(v) for v in result.labels]
    if any(not 2 <= len(set(labels)) <= n - 1 for labels in labels_of.values()):
        return
    scores, best = expectation(spec, matrix, labels_of)
    description = silhouette_default_metadata(spec['ks'], spec['seeds'], kmedoids_mode=spec['mode'], distance_measure=measure,
                                              initial_medoids=spec['initial'], max_iter=spec['max_iter'], verbose=False,
                                              show_graphs=False, save_graphs=None)
    try:
        best_k, best_seed, best_medoids, best_labels = do_silhouette_analysis(region, description)
    finally:
        plt.close('all')
    chosen = (best_seed, best_k)
    require(chosen in scores, 'chosen seed {} and k {} were not asked for', best_seed, best_k)
    judge_choice(labels_of, scores, chosen, best)
    require([int(m) for m in best_medoids] == [int(m) for m in results[chosen].medoids], '{}: medoids {} instead of {}',
            chosen, best_medoids, results[chosen].medoids)
    require([int(v) for v in best_labels] == labels_of[chosen], '{}: labels {} instead of {}', chosen, best_labels,
            labels_of[chosen])
    require(gen.exact(measure.distance_matrix, matrix), 'the distances were modified')
    ctx.nontrivial(list(scores).index(chosen) > 0)
    tag_ties(ctx, labels_of)
    ctx.tag('seeds', 'clusterings:{}'.format(len(scores)))


SUBS = [Sub('score', score_spec, run_score, quick=150, thorough=2500, shards=(4, 8)),
        Sub('suite', analysis_spec, run_suite, quick=40, thorough=600, shards=(4, 8)),
        Sub('seeds', analysis_spec, run_seeds, quick=80, thorough=1500, shards=(4, 8))]
