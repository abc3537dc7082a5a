'''Series specs and the reference warping distance.'''
import numpy as np
from hypothesis import strategies as st

from . import gen


def dtw_squared(a, b):
    '''Minimal sum of squared differences over all monotone alignments, by definition.'''
    n, m = len(a), len(b)
    cost = np.full((n + 1, m + 1), np.inf)
    cost[0, 0] = 0
    for i in range(n):
        for j in range(m):
            cost[i + 1, j + 1] = (a[i] - b[j]) ** 2 + min(cost[i, j], cost[i, j + 1], cost[i + 1, j])
    return float(cost[n, m])


@st.composite
def one(draw, low=1, high=8, kinds=('coarse', 'fine', 'temperature')):
    n = draw(st.integers(low, high))
    return draw(gen.grid_values(n, kinds))


@st.composite
def many(draw, count, length, kinds=('coarse', 'fine', 'temperature')):
    values = draw(gen.grid_values(count * length, kinds))
    return [values[i * length:(i + 1) * length] for i in range(count)]
