'''U01: numeric helpers agree with their mathematical definitions.'''
import calendar
import math
from collections import namedtuple

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require, must_raise

RULE = ('whole numbers up to 10^6 (primes, squares, products of close factors); arrays of 1..3 dimensions with ties, missing and '
        'infinite values; grids of up to 12 x 12; ranges with exclusion lists that leave 0..40 numbers, drawn with many states; '
        'year ranges across 1900..2100; non-trivial: a composite number, an array with a tie or missing value, a grid with '
        'two sides of different length, an exclusion list that matters, a leap year')
ASSUMPTIONS = ['divisors are of numbers from 1', 'arrays have at least one value that is not missing',
               'years are given in order']

Pair = namedtuple('Pair', 'a b')


@st.composite
def divisor_spec(draw):
    near = st.tuples(st.integers(1, 900), st.integers(-3, 3)).map(lambda p: max(1, p[0] * (p[0] + p[1])))
    many = st.lists(st.sampled_from([2, 3, 5, 7, 11, 13]), min_size=1, max_size=6).map(lambda fs: int(np.prod(fs)))
    n = draw(st.integers(1, 200) | st.integers(1, 1000000) | near | many)
    return dict(n=n, x=draw(st.integers(1, 50)), y=draw(st.integers(1, 50)))


def run_divisors(spec, ctx):
    from spta.util import maths
    n = spec['n']
    want = [d for d in range(1, math.isqrt(n) + 1) if n % d == 0]
    want = want + [n // d for d in want[::-1] if d * d != n]
    got = maths.divisors(n)
    require(list(got) == want, 'divisors of {}: {} instead of {}', n, got, want)
    small = max(d for d in want if d * d <= n)
    got = maths.find_two_balanced_divisors(n)
    require(list(got) == [small, n // small], 'balanced divisors of {}: {} instead of {}', n, got, [small, n // small])
    require(all(isinstance(d, (int, np.integer)) for d in got), 'balanced divisors {} of {} are not whole', got, n)
    got = maths.two_balanced_divisors_order_x_y(n, spec['x'], spec['y'])
    ordered = (small, n // small) if spec['x'] < spec['y'] else (n // small, small)
    require(sorted(got) == [small, n // small], 'balanced divisors of {}: {}', n, got)
    if spec['x'] != spec['y']:
        require(tuple(got) == ordered, 'balanced divisors of {} for {} x {}: {} instead of {}', n, spec['x'], spec['y'], got, ordered)
    ctx.nontrivial(len(want) > 2)
    ctx.tag('prime' if len(want) == 2 else 'one' if n == 1 else 'square' if small * small == n else 'composite')


@st.composite
def array_spec(draw):
    shape = draw(st.sampled_from([[5], [1], [3, 4], [2, 3, 2], [4, 1], [9], [2, 2, 3]]))
    n = int(np.prod(shape))
    return dict(shape=shape, values=draw(st.lists(st.integers(-6, 6).map(lambda v: v / 2.0), min_size=n, max_size=n)),
                missing=draw(st.lists(st.integers(0, n - 1), max_size=max(0, n - 1))),
                infinite=draw(st.sampled_from([None, None, None, 'high', 'low'])), where=draw(st.integers(0, n - 1)),
                transposed=draw(st.booleans()), as_list=draw(st.booleans()))


def run_arrays(spec, ctx):
    from spta.util import arrays
    flat = np.array(spec['values'])
    for i in set(spec['missing']):
        flat[i] = math.nan
    if np.all(np.isnan(flat)):
        flat[0] = 1.0
    finite = flat.copy()
    if spec['infinite']:
        flat[spec['where']] = math.inf if spec['infinite'] == 'high' else -math.inf
    data = flat.reshape(spec['shape'])
    if spec['transposed']:
        # the same values in another order in memory
        data = np.asfortranarray(data)
    before = data.copy()
    for name, function, pick in (('minimum', arrays.minimum_value_and_index, min), ('maximum', arrays.maximum_value_and_index, max)):
        value, index = function(data)
        known = [(v, i) for i, v in enumerate(flat) if not math.isnan(v)]
        best = pick(v for v, _ in known)
        first = min(i for v, i in known if v == best)
        want = tuple(int(i) for i in np.unravel_index(first, spec['shape']))
        require(value == best and tuple(int(i) for i in index) == want, '{} of {}: {} at {} instead of {} at {}', name, data.tolist(),
                value, index, best, want)
        require(isinstance(index, tuple), '{}: index {!r}', name, index)
    require(gen.exact(data, before), 'the array was modified')
    given = finite.tolist() if spec['as_list'] else finite.reshape(spec['shape'])
    known = [float(v) for v in finite if not math.isnan(v)]
    mean = math.fsum(v * v for v in known) / len(known)
    require(gen.same(arrays.mean_squared(given), mean), 'mean squared of {}: {}', given, arrays.mean_squared(given))
    require(gen.same(arrays.root_mean_squared(given), math.sqrt(mean)), 'root mean squared of {}: {}', given,
            arrays.root_mean_squared(given))
    require(gen.same(np.ravel(arrays.squared(given)), [v * v for v in finite]), 'squares of {}: {}', given, arrays.squared(given))
    complete = np.where(np.isnan(finite), 3.0, finite)
    total = math.fsum(v * v for v in complete)
    given = complete.tolist() if spec['as_list'] else complete
    require(gen.same(arrays.sum_squared(given), total), 'sum of squares of {}: {}', given, arrays.sum_squared(given))
    require(gen.same(arrays.root_sum_squared(given), math.sqrt(total)), 'root of the sum of squares of {}', given)
    tie = len(set(known)) < len(known)
    ctx.nontrivial(tie or len(known) < len(flat))
    ctx.tag('tie' if tie else 'no tie', 'missing' if len(known) < len(flat) else 'complete', spec['infinite'] or 'finite')


@st.composite
def grid_spec(draw):
    x, y = draw(st.integers(1, 12)), draw(st.integers(1, 12))
    long = draw(st.sampled_from([None, None, None, None, None, 'x', 'y']))
    if long:
        x, y = (draw(st.integers(100, 700)), 1) if long == 'x' else (1, draw(st.integers(100, 700)))
    return dict(x=x, y=y, i=draw(st.integers(0, x - 1)), j=draw(st.integers(0, y - 1)), t=draw(st.integers(1, 6)),
                values=list(draw(gen.noise(6 * x * y))), kind=draw(st.sampled_from(['number', 'pair', 'text', 'whole', 'none'])))


def run_grid(spec, ctx):
    from spta.util import arrays
    x_len, y_len, t = spec['x'], spec['y'], spec['t']
    points = gen.points_of(x_len, y_len)
    got = arrays.list_of_2d_points(x_len, y_len)
    require([tuple(int(v) for v in p) for p in got] == points, 'points of {} x {}: {}', x_len, y_len, got)
    got = arrays.distances_to_point_in_2d_region(spec['i'], spec['j'], x_len, y_len)
    want = [math.hypot(x - spec['i'], y - spec['j']) for x, y in points]
    require(np.shape(got) == (len(points),) and gen.same(got, want), 'distances to {} in {} x {}: {} instead of {}',
            (spec['i'], spec['j']), x_len, y_len, got, want)
    data = np.array(spec['values'][:t * x_len * y_len], dtype=float).reshape(t, x_len, y_len)
    got = arrays.spatio_temporal_to_list_of_time_series(data)
    require(len(got) == len(points), '{} series of {} points', len(got), len(points))
    for p, series in zip(points, got):
        require(gen.exact(series, [data[k, p[0], p[1]] for k in range(t)]), 'series of {}: {}', p, series)
    series = [v / 2.0 for v in spec['values'][:t]]
    got = arrays.copy_array_as_matrix_elements(np.array(series), x_len, y_len)
    require(got.shape == (t, x_len, y_len) and all(gen.exact(got[:, x, y], series) for x, y in points), 'copies of {}: {}', series,
            got)
    value = {'number': 2.5, 'pair': Pair(series, 'b'), 'text': 'abc', 'whole': 7, 'none': None}[spec['kind']]
    got = arrays.copy_value_as_matrix_elements(value, x_len, y_len)
    require(got.shape == (x_len, y_len) and all(got[p] == value for p in points), 'copies of {}: {}', value, got)
    if spec['kind'] == 'pair':
        require(all(isinstance(got[p], Pair) for p in points), 'copies of {}: {}', value, got)
    ctx.nontrivial(x_len != y_len and x_len > 1 and y_len > 1)
    ctx.tag(spec['kind'])


@st.composite
def random_spec(draw):
    low = draw(st.integers(-20, 30))
    size = draw(st.integers(1, 40))
    excluded = draw(st.lists(st.integers(low - 5, low + size + 5), max_size=30))
    return dict(low=low, size=size, excluded=excluded, share=draw(st.sampled_from([0, 1, 2, 4, 4])),
                kind=draw(st.sampled_from(['list', 'array', 'set', 'tuple', 'absent'])), state=draw(st.integers(0, 2 ** 31)))


def run_random(spec, ctx):
    from spta.util import maths
    low, high = spec['low'], spec['low'] + spec['size'] - 1
    excluded = [] if spec['kind'] == 'absent' else spec['excluded']
    allowed = set(range(low, high + 1)) - set(excluded)
    given = {'list': list, 'array': lambda v: np.array(v, dtype=int), 'set': set, 'tuple': tuple,
             'absent': list}[spec['kind']](excluded)
    arguments = [] if spec['kind'] == 'absent' else [given]
    n = max(1, len(allowed) * spec['share'] // 4)
    np.random.seed(spec['state'])
    if not allowed:
        with must_raise(ValueError, 'drawing 1 of no numbers'):
            maths.random_integers_with_blacklist(1, low, high, *arguments)
        ctx.tag('none allowed')
        return
    reached = set()
    for _ in range(600 if spec['share'] else 3):
        got = [int(v) for v in maths.random_integers_with_blacklist(n, low, high, *arguments)]
        require(len(got) == n and len(set(got)) == n and set(got) <= allowed, 'drew {} as {} of {} .. {} without {}', got, n, low,
                high, excluded)
        reached |= set(got)
    if spec['share']:
        # each number is missed with a chance below (1 - n / allowed) ** 600
        if (1 - n / len(allowed)) ** 600 < 1e-12:
            require(reached == allowed, 'the numbers {} are never drawn', sorted(allowed - reached))
    with must_raise(ValueError, 'drawing {} of {} numbers'.format(len(allowed) + 1, len(allowed))):
        maths.random_integers_with_blacklist(len(allowed) + 1, low, high, *arguments)
    ctx.nontrivial(len(allowed) < spec['size'])
    ctx.tag(spec['kind'], 'all drawn' if n == len(allowed) else 'some drawn')


@st.composite
def years_spec(draw):
    first = draw(st.integers(1895, 2095))
    start = first + draw(st.integers(0, 40))
    return dict(first=first, start=start, end=start + draw(st.integers(0, 12)), per_day=draw(st.sampled_from([1, 4, 2, 24])))


def run_years(spec, ctx):
    from spta.util import maths
    def days(year):
        return 366 if calendar.isleap(year) else 365
    start = spec['per_day'] * sum(days(y) for y in range(spec['first'], spec['start']))
    end = start + spec['per_day'] * sum(days(y) for y in range(spec['start'], spec['end'] + 1))
    got = maths.years_to_series_interval(spec['start'], spec['end'], spec['first'], spec['per_day'])
    require(tuple(got) == (start, end), 'samples {} instead of {}', got, (start, end))
    leap = any(calendar.isleap(y) for y in range(spec['first'], spec['end'] + 1))
    ctx.nontrivial(leap and spec['start'] > spec['first'])
    ctx.tag('leap' if leap else 'no leap')


SUBS = [Sub('divisors', divisor_spec, run_divisors, quick=500, thorough=20000, shards=(1, 4)),
        Sub('arrays', array_spec, run_arrays, quick=500, thorough=20000, shards=(1, 4)),
        Sub('grids', grid_spec, run_grid, quick=300, thorough=8000, shards=(1, 4)),
        Sub('draws', random_spec, run_random, quick=150, thorough=4000, shards=(1, 4)),
        Sub('years', years_spec, run_years, quick=300, thorough=8000, shards=(1, 2))]
