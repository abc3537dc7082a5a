'''C01: k-medoids returns a valid, locally consistent clustering.'''
import numpy as np
from hypothesis import strategies as st

from .. import kmed
from ..core import Sub, require

RULE = ('1..12 samples given by an arbitrary symmetric distance matrix or by points whose distances are measured '
        '(duplicates included), once in a while 30..90 samples in up to 18 clusters, every k, both modes, tolerances 0..1, iteration limits 0..1000, given and seeded initial '
        'medoids; non-trivial: 2 <= k < samples and the search left its initial medoids')
ASSUMPTIONS = ['distances are symmetric and zero from a sample to itself',
               'the local optimum is checked for iteration limits that these sizes never reach']


@st.composite
def spec(draw):
    samples = draw(kmed.samples(large=(30, 90)))
    n = samples['n']
    k = draw(st.integers(1, n)) if n <= 12 and draw(st.integers(0, 4)) == 4 else kmed.clusters(draw, n)
    return dict(samples=samples, k=k, mode=draw(st.sampled_from(['lite', 'robust'])),
                tol=draw(st.sampled_from([0.001, 0.001, 0, 0.3, 1.0])),
                max_iter=draw(st.sampled_from([1000, 1000, 1000, 0, 1, 2])), seed=draw(st.integers(0, 50)),
                initial=draw(st.none() | st.permutations(range(n)).map(lambda p: p[:k])),
                verbose=draw(st.booleans()), again=draw(st.integers(0, 50)))


def check_result(result, spec, matrix, what):
    n, k = len(matrix), spec['k']
    medoids = [int(m) for m in result.medoids]
    require(len(medoids) == k and len(set(medoids)) == k and all(0 <= m < n for m in medoids),
            '{}: medoids {} for k={} of {} samples', what, medoids, k, n)
    labels, columns, total = kmed.crisp_cost(matrix, medoids)
    require(len(result.labels) == n, '{}: {} labels', what, len(result.labels))
    require([int(v) for v in result.labels] == labels.tolist(), '{}: labels {} with medoids {}, nearest are {}', what,
            list(result.labels), medoids, labels.tolist())
    require(np.shape(result.medoid_distances) == (n, k) and np.allclose(result.medoid_distances, columns, rtol=1e-12,
                                                                         atol=1e-12),
            '{}: distances to the medoids', what)
    costs = [float(columns[labels == j, j].sum()) for j in range(k)]
    require(np.shape(result.costs) == (k,) and np.allclose(result.costs, costs, rtol=1e-9, atol=1e-9),
            '{}: costs {} instead of {}', what, result.costs, costs)
    require(abs(result.total_cost - total) <= 1e-9 * max(1, total), '{}: total cost {} instead of {}', what,
            result.total_cost, total)
    require(result.k == k and result.mode == spec['mode'], '{}: k {} mode {}', what, result.k, result.mode)
    return medoids, labels, total


def run(spec, ctx):
    from spta.kmedoids.kmedoids import run_kmedoids
    X, measure, matrix = kmed.build(spec['samples'])
    n, k, tol = len(matrix), spec['k'], spec['tol']
    options = dict(mode=spec['mode'], max_iter=spec['max_iter'], tol=tol, verbose=spec['verbose'])
    initial = spec['initial']
    before = X.copy()
    result = run_kmedoids(X, k, measure, initial_medoids=None if initial is None else list(initial),
                          random_seed=spec['seed'], **options)
    require(np.array_equal(before, X), 'the samples were modified')
    what = 'k={} {} seed {}'.format(k, spec['mode'], spec['seed'])
    medoids, labels, total = check_result(result, spec, matrix, what)
    require(result.random_seed == spec['seed'], 'seed {}', result.random_seed)
    moved = initial is not None and set(initial) != set(medoids)
    if initial is not None:
        start = kmed.crisp_cost(matrix, initial)[2]
        require(total <= start + 1e-9, '{}: ends at cost {}, started at {}', what, total, start)
        if total == start and tol > 0:
            require(medoids == list(initial), '{}: left the initial medoids for nothing', what)
    if spec['max_iter'] >= 1000:
        for j in range(k):
            candidates = range(n) if spec['mode'] == 'robust' else [i for i in range(n) if labels[i] == j]
            for i in candidates:
                if i in medoids:
                    continue
                other = list(medoids)
                other[j] = i
                cost = kmed.crisp_cost(matrix, other)[2]
                require(total - cost <= tol + 1e-9, '{}: medoids {} cost {}, but exchanging {} for {} costs {}', what,
                        medoids, total, medoids[j], i, cost)
        # a local optimum is where it stays when started there
        again = run_kmedoids(X, k, measure, initial_medoids=list(medoids), random_seed=spec['again'], **options)
        if tol > 0:
            require([int(m) for m in again.medoids] == medoids, '{}: started at its own result {} it goes to {}', what,
                    medoids, again.medoids)
        check_result(again, spec, matrix, what + ' restarted')
    ctx.nontrivial(2 <= k < n and (moved or initial is None))
    ctx.tag(spec['mode'], spec['samples']['kind'], 'moved' if moved else 'stayed or unknown',
            'tol:{}'.format(tol), 'max_iter:{}'.format(spec['max_iter']), 'initial' if initial is not None else 'seeded')


SUBS = [Sub('local', spec, run, quick=1500, thorough=40000, shards=(4, 8), case_timeout=90, timeout_violation=True)]
