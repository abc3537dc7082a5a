'''
Strategies of JSON-able specs for regions, partitions and the like, and the builders of the real
objects (the objects of the code under test are only built while a case runs).
'''
import math

import numpy as np
from hypothesis import strategies as st


# ---------------------------------------------------------------- numbers

def noise(n):
    '''
    n bytes. Mostly expanded from one drawn number: varied content even in long inputs, where Hypothesis
    itself prefers runs of zeros, and quick to shrink in its length; sometimes drawn byte by byte.
    '''
    if n == 0:
        return st.just(b'')
    seeded = st.integers(0, 2**32 - 1).map(lambda seed: np.random.RandomState(seed).bytes(n))
    if n > 400:
        return seeded
    return st.sampled_from([0, 1, 2, 3]).flatmap(lambda way: st.binary(min_size=n, max_size=n) if way == 0 else seeded)


def grid_values(n, kinds=('coarse', 'fine', 'temperature')):
    '''n numbers as a JSON list; 'coarse' has many ties, 'fine' few, 'temperature' looks like Kelvin.'''
    def decode(pair):
        kind, raw = pair
        if kind == 'coarse':
            return [float((b % 5) - 1) for b in raw]
        if kind == 'fine':
            return [float(((b + 128) % 256) - 128) / 4.0 for b in raw]
        if kind == 'positive':
            return [1.0 + b / 8.0 for b in raw]
        if kind == 'nearly':
            return [300.0 + b / 65536.0 for b in raw]
        if kind == 'tiny':
            return [b / 2.0 ** 40 for b in raw]
        return [280.0 + b * 0.173 for b in raw]
    return st.tuples(st.sampled_from(kinds), noise(n)).map(decode)


@st.composite
def sizes(draw, x, y, often=40):
    '''Small lengths of both sides of a region; once in a while tens of points along each side.'''
    if often and draw(st.sampled_from([False] * (often - 1) + [True])):
        x = y = (9, 25)
    return [draw(st.integers(*x)), draw(st.integers(*y))]


@st.composite
def cube(draw, t=(1, 6), x=(1, 5), y=(1, 5), kinds=('coarse', 'fine', 'temperature'), nan=0, often=0):
    '''A spatio-temporal dataset: {'shape': [t, x, y], 'values': flat list (NaN allowed)}.'''
    shape = [draw(st.integers(*t))] + draw(sizes(x, y, often))
    n = shape[0] * shape[1] * shape[2]
    values = draw(grid_values(n, kinds))
    if nan and draw(st.integers(0, 2)) == 0:
        for index in draw(st.lists(st.integers(0, n - 1), max_size=nan)):
            values[index] = math.nan
    return dict(shape=shape, values=values, layout=draw(st.sampled_from(LAYOUTS)))


@st.composite
def sheet(draw, x=(1, 6), y=(1, 6), kinds=('coarse', 'fine'), nan=0, often=40):
    shape = draw(sizes(x, y, often))
    n = shape[0] * shape[1]
    values = draw(grid_values(n, kinds))
    if nan and draw(st.integers(0, 2)) == 0:
        for index in draw(st.lists(st.integers(0, n - 1), max_size=nan)):
            values[index] = math.nan
    return dict(shape=shape, values=values, layout=draw(st.sampled_from(LAYOUTS)))


# how the array of a dataset is stored in memory: row by row, column by column, or as part of a larger array
LAYOUTS = ('C', 'F', 'part')


def array(spec):
    data = np.array(spec['values'], dtype=np.dtype(spec.get('dtype', 'f8'))).reshape(spec['shape'])
    layout = spec.get('layout', 'C')
    if layout == 'F':
        return np.asfortranarray(data)
    if layout == 'part':
        larger = np.full([n + 2 for n in data.shape], -7, dtype=data.dtype)
        part = larger[tuple(slice(1, n + 1) for n in data.shape)]
        part[...] = data
        return part
    return data


def interval(limit, min_len=1):
    '''[a, b] with 0 <= a, a + min_len <= b <= limit'''
    return st.integers(0, limit - min_len).flatmap(
        lambda a: st.tuples(st.just(a), st.integers(a + min_len, limit))).map(list)


@st.composite
def rectangle(draw, x_len, y_len):
    a, b = draw(interval(x_len)), draw(interval(y_len))
    return [a[0], a[1], b[0], b[1]]


@st.composite
def large_rectangle(draw, x_len, y_len):
    '''Most of the grid: without a row or column at some of the sides.'''
    x1 = draw(st.integers(0, 1)) if x_len > 2 else 0
    y1 = draw(st.integers(0, 1)) if y_len > 2 else 0
    x2 = x_len - (draw(st.integers(0, 1)) if x_len - x1 > 1 else 0)
    y2 = y_len - (draw(st.integers(0, 1)) if y_len - y1 > 1 else 0)
    return [x1, x2, y1, y2]


# ---------------------------------------------------------------- partitions

@st.composite
def labels(draw, n, k=None, max_k=5, allow_empty=True):
    '''A label per point and k = max + 1. Unless allow_empty, every label is used.'''
    if k is None:
        k = draw(st.sampled_from(list(range(2, min(max_k, n) + 1)) + [1]))
        if n > 80 and draw(st.booleans()):
            k = min(n, draw(st.sampled_from([40, 17, 130, 300, 260])))
    raw = draw(noise(n if k < 200 else 2 * n))
    values = [b % k for b in raw] if k < 200 else [(raw[2 * i] * 256 + raw[2 * i + 1]) % k for i in range(n)]
    if not allow_empty:
        # give a distinct random position to each label
        if n <= 80:
            positions = draw(st.permutations(range(n)))[:k]
        else:
            positions = [int(i) for i in np.random.RandomState(draw(st.integers(0, 2**32 - 1))).permutation(n)[:k]]
        for label, position in enumerate(positions):
            values[position] = label
    else:
        values[draw(st.integers(0, n - 1))] = k - 1
    return dict(k=k, labels=values, layout=draw(st.sampled_from(LAYOUTS)), dtype=draw(st.sampled_from(['i8', 'u4', 'i4'])))


def permutation(n):
    if n <= 80:
        return st.permutations(range(n))
    return st.integers(0, 2**32 - 1).map(lambda seed: [int(i) for i in np.random.RandomState(seed).permutation(n)])


def members(labels_list, y_len, cluster):
    '''[(x, y)] in row-major order'''
    return [(i // y_len, i % y_len) for i, label in enumerate(labels_list) if label == cluster]


def build_partition(spec, x_len, y_len):
    from spta.region.partition import PartitionRegionCrisp
    sheet = dict(shape=[x_len, y_len], values=spec['labels'], layout=spec.get('layout', 'C'), dtype=spec.get('dtype', 'i8'))
    return PartitionRegionCrisp(array(sheet), spec['k'])


# ---------------------------------------------------------------- distances

@st.composite
def symmetric_matrix(draw, n, ties=True):
    '''
    Symmetric, zero diagonal, positive elsewhere; as list of the strict lower triangle.
    All values are dyadic, so that sums of them are exact in any order.
    '''
    m = n * (n - 1) // 2
    kind = draw(st.sampled_from(('coarse', 'fine', 'distinct', 'close', 'tiny') if ties else ('distinct',)))
    if kind == 'distinct':
        order = draw(st.permutations(range(m))) if m <= 60 else None
        if order is None:
            raw = draw(noise(2 * m))
            return [1.0 + (raw[2 * i] * 256 + raw[2 * i + 1]) / 64.0 + i / 8192.0 for i in range(m)]
        return [1.0 + 0.375 * v for v in order]
    raw = draw(noise(m))
    if kind == 'coarse':
        return [1.0 + b % 4 for b in raw]
    if kind == 'close':
        return [1000.0 + b / 4096.0 for b in raw]
    if kind == 'tiny':
        return [(1.0 + b) / 2.0 ** 40 for b in raw]
    return [1.0 + b / 16.0 for b in raw]


def full_matrix(triangle, n):
    matrix = np.zeros((n, n))
    it = iter(triangle)
    for i in range(n):
        for j in range(i):
            matrix[i, j] = matrix[j, i] = next(it)
    return matrix


# ---------------------------------------------------------------- comparison

def same(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)


def exact(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def points_of(x_len, y_len):
    return [(x, y) for x in range(x_len) for y in range(y_len)]
