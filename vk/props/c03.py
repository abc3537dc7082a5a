'''C03: fuzzy k-medoids gives probabilistic memberships at a local optimum.'''
import numpy as np
from hypothesis import strategies as st

from .. import kmed
from ..core import Sub, require

RULE = ('2..10, once in a while 15..40, distinct samples (arbitrary symmetric distance matrix, or measured points), every k up to 4 (18 for many samples), fuzzifiers '
        '1.25..4, tolerances, given initial medoids (among them the best ones found by exhaustive search, so that the start '
        'is already optimal) and seeded ones; non-trivial: 2 <= k < samples')
ASSUMPTIONS = ['no two samples at distance zero (the memberships are undefined there)']


@st.composite
def spec(draw):
    samples = draw(kmed.samples(n_min=2, n_max=10, distinct=True, large=(15, 40)))
    n = samples['n']
    k = kmed.clusters(draw, n)
    return dict(samples=samples, k=k, m=draw(st.sampled_from([2, 2, 1.25, 1.5, 3, 4])),
                tol=draw(st.sampled_from([0.001, 1e-6, 0.05])), max_iter=draw(st.sampled_from([1000, 1000, 0, 1])),
                seed=draw(st.integers(0, 50)),
                start=draw(st.sampled_from(['seeded', 'given', 'given', 'optimal'] if n <= 10 else ['seeded', 'given'])),
                initial=draw(st.permutations(range(n)))[:k], verbose=draw(st.booleans()))


def climb(matrix, medoids, m):
    '''Reference descent to a set of medoids that no single replacement improves.'''
    n = len(matrix)
    medoids = list(medoids)
    best = kmed.fuzzy_cost(matrix, medoids, m)[1].sum()
    improved = True
    while improved:
        improved = False
        for j in range(len(medoids)):
            for i in range(n):
                if i in medoids:
                    continue
                other = medoids[:j] + [i] + medoids[j + 1:]
                cost = kmed.fuzzy_cost(matrix, other, m)[1].sum()
                if cost < best - 1e-9:
                    best, medoids, improved = cost, other, True
    return medoids


def run(spec, ctx):
    from spta.kmedoids.kmedoids_fuzzy import run_kmedoids_fuzzy, run_kmedoids_fuzzy_from_params, \
        kmedoids_fuzzy_default_params
    X, measure, matrix = kmed.build(spec['samples'])
    n, k, m, tol = len(matrix), spec['k'], spec['m'], spec['tol']
    initial = None
    if spec['start'] == 'given':
        initial = list(spec['initial'])
    elif spec['start'] == 'optimal':
        initial = climb(matrix, spec['initial'], m)
    with np.errstate(all='ignore'):
        result = run_kmedoids_fuzzy(X, k, m, measure, initial_medoids=initial, random_seed=spec['seed'],
                                    max_iter=spec['max_iter'], tol=tol, verbose=spec['verbose'])
    medoids = [int(i) for i in result.medoids]
    what = 'k={} m={}'.format(k, m)
    require(len(medoids) == k == len(set(medoids)) and all(0 <= i < n for i in medoids), '{}: medoids {}', what, medoids)
    u = np.asarray(result.uij)
    require(u.shape == (n, k), '{}: memberships {}', what, u.shape)
    require(not np.isnan(u).any() and u.min() >= 0 and u.max() <= 1 + 1e-9, '{}: memberships outside [0, 1]', what)
    require(np.allclose(u.sum(axis=1), 1, rtol=0, atol=1e-9), '{}: memberships add to {}', what, u.sum(axis=1))
    want_u, want_costs = kmed.fuzzy_cost(matrix, medoids, m)
    require(np.allclose(u, want_u, rtol=1e-7, atol=1e-9), '{}: memberships {} instead of {}', what, u.tolist(),
            want_u.tolist())
    for j, i in enumerate(medoids):
        require(u[i, j] == 1, '{}: medoid {} has membership {} in its own cluster', what, i, u[i, j])
    require(np.allclose(result.costs, want_costs, rtol=1e-7, atol=1e-9), '{}: costs {} instead of {}', what, result.costs,
            want_costs)
    total = float(want_costs.sum())
    require(abs(result.total_cost - total) <= 1e-7 * max(1, total), '{}: total cost {} instead of {}', what,
            result.total_cost, total)
    require(result.k == k and result.m == m and result.random_seed == spec['seed'], '{}: parameters reported', what)
    if initial is not None:
        start = float(kmed.fuzzy_cost(matrix, initial, m)[1].sum())
        require(total <= start + 1e-7, '{}: ends at cost {}, started at {}', what, total, start)
        if spec['start'] == 'optimal':
            require(medoids == initial, '{}: started at an optimum {}, ends at {}', what, initial, medoids)
    if spec['max_iter'] >= 1000:
        for j in range(k):
            for i in range(n):
                if i in medoids:
                    continue
                other = medoids[:j] + [i] + medoids[j + 1:]
                cost = float(kmed.fuzzy_cost(matrix, other, m)[1].sum())
                require(total - cost <= tol + 1e-7, '{}: medoids {} cost {}, but replacing {} by {} costs {}', what,
                        medoids, total, medoids[j], i, cost)
    params = kmedoids_fuzzy_default_params(k, m=m, distance_measure=measure, initial_medoids=initial,
                                           random_seed=spec['seed'], max_iter=spec['max_iter'], tol=tol)
    with np.errstate(all='ignore'):
        again = run_kmedoids_fuzzy_from_params(X, params)
    require([int(i) for i in again.medoids] == medoids and np.array_equal(again.uij, u), '{}: another result again', what)
    ctx.nontrivial(2 <= k < n)
    ctx.tag(spec['start'], 'k:{}'.format(k), 'm:{}'.format(m))


SUBS = [Sub('fuzzy', spec, run, quick=500, thorough=12000, shards=(4, 8), case_timeout=90, timeout_violation=True)]
