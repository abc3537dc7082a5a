'''Shared by the k-medoids checks: sample specs and the reference costs.'''
import numpy as np
from hypothesis import strategies as st

from . import gen


class Euclid(object):
    '''A plain measure between samples, without distance matrix.'''
    def measure(self, a, b):
        return float(np.sqrt(np.sum(np.square(np.asarray(a) - np.asarray(b)))))


def sized(draw, low, high):
    '''An integer without the preference for the smallest values.'''
    return draw(st.sampled_from(list(range(high, low - 1, -1)) + [min(low + 4, high)] * 2))


def clusters(draw, n, high=4):
    if n > 20:
        high = draw(st.integers(5, 18))
    return min(n, draw(st.sampled_from([2, 2, 3, 3, 3, 4, 1, high])))


@st.composite
def samples(draw, n_min=1, n_max=12, distinct=False, kinds=('matrix', 'plane', 'line'), large=None):
    '''
    Either an arbitrary symmetric distance matrix or points whose distances are measured.
    Once in a while many samples, if a range for their number is given.
    '''
    kind = draw(st.sampled_from(kinds))
    if large and draw(st.sampled_from([False] * 24 + [True])):
        n = draw(st.integers(*large))
        if kind != 'matrix':
            raw = draw(gen.noise(2 * n))
            values = [[raw[2 * i] % 97, raw[2 * i + 1] % 89] if kind == 'plane' else [raw[2 * i]] for i in range(n)]
            if distinct:
                values = [v + [i] for i, v in enumerate(values)]
            return dict(kind=kind, n=n, values=values, layout=draw(st.sampled_from(gen.LAYOUTS)),
                        dtype=draw(st.sampled_from(['f8', 'i8', 'i4', 'f4'])), scale=1)
    else:
        n = sized(draw, n_min, n_max)
    if kind == 'matrix':
        return dict(kind=kind, n=n, triangle=draw(gen.symmetric_matrix(n)), layout=draw(st.sampled_from(gen.LAYOUTS)))
    width = 1 if kind == 'line' else 2
    if distinct:
        values = draw(st.lists(st.tuples(*[st.integers(0, 20)] * width), min_size=n, max_size=n, unique=True))
    else:
        values = draw(st.lists(st.tuples(*[st.integers(0, draw(st.sampled_from([2, 5, 20])))] * width), min_size=n,
                               max_size=n))
    return dict(kind=kind, n=n, values=[list(v) for v in values], layout=draw(st.sampled_from(gen.LAYOUTS)),
                dtype=draw(st.sampled_from(['f8', 'i8', 'i4', 'f4'])), scale=draw(st.sampled_from([1, 1, 1, 1000])))


def build(spec):
    '''(X, distance measure, reference matrix)'''
    from spta.distance.dtw import DistanceByDTW
    n = spec['n']
    if spec['kind'] == 'matrix':
        matrix = gen.full_matrix(spec['triangle'], n)
        measure = DistanceByDTW()
        measure.distance_matrix = gen.array(dict(values=matrix, shape=[n, n], layout=spec.get('layout', 'C')))
        return np.arange(n * 2.0).reshape(n, 2), measure, matrix
    values = np.array(spec['values']) * spec.get('scale', 1)
    X = gen.array(dict(values=values, shape=values.shape, layout=spec.get('layout', 'C'), dtype=spec.get('dtype', 'f8')))
    measure = Euclid()
    matrix = np.array([[measure.measure(a, b) for b in X] for a in X])
    return X, measure, matrix


def crisp_cost(matrix, medoids):
    columns = matrix[:, list(medoids)]
    labels = np.argmin(columns, axis=1)
    return labels, columns, float(columns.min(axis=1).sum())


def memberships(matrix, medoids, m):
    '''uij by definition: a medoid belongs to its own cluster only.'''
    n, k = len(matrix), len(medoids)
    u = np.zeros((n, k))
    for i in range(n):
        if i in medoids:
            u[i, list(medoids).index(i)] = 1
            continue
        weights = [(1.0 / matrix[i, c]) ** (1.0 / (m - 1)) for c in medoids]
        u[i] = np.array(weights) / sum(weights)
    return u


def fuzzy_cost(matrix, medoids, m):
    u = memberships(matrix, medoids, m)
    return u, (u * matrix[:, list(medoids)]).sum(axis=0)
