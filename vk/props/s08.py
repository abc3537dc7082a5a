'''S08: synthetic training data follow their parameters.'''
import csv
import os

import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require, scratch_dir

RULE = ('data sets of 1..300 entries with 1..4 counts, 1..3 seeds, 1..5 medoids in regions of any shape, series of 1..400 samples, '
        'several slopes, intercepts and noises, generated twice with other random numbers drawn in between; delayed profiles of '
        '7..400 samples; non-trivial: at least two counts and two seeds and at least 20 entries, or a delayed profile of 50 samples')
ASSUMPTIONS = ['noise of a sample is beyond ten times its size never, and its mean and deviation over hundreds of samples are '
               'within six standard errors', 'delays need series of at least 7 samples']


@st.composite
def spec(draw):
    low = draw(st.sampled_from([298, 0, -10, 273.5]))
    noise = draw(st.sampled_from([0, 0.2, 0, 0.05]))
    return dict(ks=draw(st.lists(st.sampled_from([2, 3, 5, 1, 8, 32]), min_size=draw(st.sampled_from([2, 3, 1])), max_size=4, unique=True)),
                seeds=draw(st.lists(st.sampled_from([0, 1, 2, 7, 10]), min_size=draw(st.sampled_from([2, 1])), max_size=3, unique=True)),
                medoids=draw(st.sampled_from([2, 3, 1, 5])), entries=draw(st.sampled_from([40, 5, 20, 1, 300, 900])),
                length=draw(st.sampled_from([8, 1, 30, 365])), seed=draw(st.integers(0, 1000)),
                shape=[draw(st.sampled_from([90, 1, 2, 30])), draw(st.sampled_from([90, 3, 1, 50]))],
                weight=draw(st.sampled_from([0.01, 0.5, 0.001, 0])), low=low, high=low + draw(st.sampled_from([4, 12, 6])), noise=noise,
                as_tuple=draw(st.booleans()), other=draw(st.integers(0, 100)))


def run(spec, ctx):
    import random
    from spta.classifier.synthetic import generate_synthetic_csv, generate_synthetic_series
    x_len, y_len = spec['shape']
    ks, seeds = (tuple(v) if spec['as_tuple'] else list(v) for v in (spec['ks'], spec['seeds']))
    options = dict(a_weight=spec['weight'], b_min=spec['low'], b_max=spec['high'], noise=spec['noise'])

    def generate():
        return generate_synthetic_series(ks, seeds, spec['medoids'], spec['entries'], spec['length'], spec['seed'], x_len, y_len,
                                         **options)

    data = generate()
    require(len(data) == spec['entries'], '{} entries instead of {}', len(data), spec['entries'])
    step = (spec['high'] - spec['low']) / 12.0
    residuals, intercepts = [], set()
    for i, entry in enumerate(data):
        k, seed, index = entry['k'], entry['seed'], entry['cluster_index']
        what = 'entry {} (k={} seed={} cluster {})'.format(i, k, seed, index)
        require(k in ks and seed in seeds, '{}: not among the counts and seeds', what)
        require(0 <= index < k, '{}: no such cluster', what)
        require(0 <= entry['medoid_x'] < x_len and 0 <= entry['medoid_y'] < y_len, '{}: medoid {} outside the region', what,
                (entry['medoid_x'], entry['medoid_y']))
        series = np.asarray(entry['series'], dtype=float)
        require(series.shape == (spec['length'],), '{}: series of shape {}', what, series.shape)
        slope = (k - index) * (1 if seed % 2 else -1) * spec['weight']
        rest = series - slope * np.arange(spec['length'])
        at = (float(np.mean(rest)) - spec['low']) / step
        nearest = spec['low'] + min(11, max(0, round(at))) * step
        limit = 10 * spec['noise'] + 1e-6
        require(np.all(np.abs(rest - nearest) <= limit), '{}: not a line of slope {} from one of the intercepts: {}', what, slope,
                list(series[:4]))
        residuals.extend(rest - nearest)
        intercepts.add(round((nearest - spec['low']) / step))
    places = {(e['medoid_x'], e['medoid_y']) for e in data}
    require(len(places) <= spec['medoids'], '{} medoids instead of {}', len(places), spec['medoids'])
    if spec['entries'] >= 300:
        require({e['k'] for e in data} == set(ks), 'counts {} instead of {}', {e['k'] for e in data}, ks)
        require({e['seed'] for e in data} == set(seeds), 'seeds {} instead of {}', {e['seed'] for e in data}, seeds)
        require(len(intercepts) >= 6, 'intercepts only at {} of 12 steps', sorted(intercepts))
        for k in ks:
            indices = [e['cluster_index'] for e in data if e['k'] == k]
            # each index is missing with a probability below exp(-30)
            if len(indices) >= 30 * k:
                require(set(indices) == set(range(k)), 'cluster indices {} for k={}', sorted(set(indices)), k)
        if x_len * y_len >= 900 and spec['medoids'] > 1:
            require(len(places) >= 2, 'a single medoid')
    if spec['noise'] and len(residuals) >= 200 and spec['length'] > 1:
        n = len(residuals)
        deviation = float(np.std(residuals))
        require(abs(deviation / spec['noise'] - 1) <= 6 / np.sqrt(2 * n), 'noise of size {} instead of {}', deviation, spec['noise'])
        require(abs(np.mean(residuals)) <= 6 * spec['noise'] / np.sqrt(n), 'noise around {}', np.mean(residuals))

    def plain(entries):
        return [(e['k'], e['seed'], e['cluster_index'], e['medoid_x'], e['medoid_y'], [float(v) for v in e['series']]) for e in entries]

    random.seed(spec['other'])
    np.random.seed(spec['other'] + 1)
    require(plain(generate()) == plain(data), 'the same random seed gives other entries')
    with scratch_dir() as path:
        np.random.rand(3)
        random.random()
        name = os.path.join(path, 'data.csv')
        generate_synthetic_csv(ks, seeds, spec['medoids'], spec['entries'], spec['length'], spec['seed'], x_len, y_len, name,
                               region_id='place_{}'.format(spec['other']), clustering_type='kind', clustering_mode='robust', **options)
        with open(name, newline='') as f:
            rows = list(csv.reader(f, delimiter=' ', quotechar='|'))
    header = ['region_id', 'type', 'k', 'seed', 'mode', 'cluster_index', 'medoid_x', 'medoid_y']
    require(rows[0] == header + ['s{}'.format(i) for i in range(spec['length'])], 'header {}', rows[0][:12])
    require(len(rows) == 1 + len(data), '{} rows for {} entries', len(rows) - 1, len(data))
    for row, e in zip(rows[1:], data):
        want = ['place_{}'.format(spec['other']), 'kind', str(e['k']), str(e['seed']), 'robust', str(e['cluster_index']),
                str(e['medoid_x']), str(e['medoid_y'])]
        require(row[:8] == want, 'row {} instead of {}', row[:8], want)
        require(len(row) == 8 + spec['length'], 'row of {} columns', len(row))
        for text, value in zip(row[8:], e['series']):
            require(len(text.split('.')[1]) == 3 and abs(float(text) - value) <= 0.0005 + 1e-9, 'value {} instead of {}', text, value)
    ctx.nontrivial(len(ks) >= 2 and len(seeds) >= 2 and spec['entries'] >= 20)
    ctx.tag('noise:{}'.format(spec['noise']), 'entries:{}'.format(spec['entries']))


@st.composite
def profile_spec(draw):
    return dict(length=draw(st.sampled_from([50, 7, 13, 20, 100, 200, 201, 400]) | st.integers(7, 300)),
                kind=draw(st.sampled_from(['steep', 'steep', 'sine', 'square', 'gaussian'])), seed=draw(st.integers(0, 1000)))


def run_profile(spec, ctx):
    import math
    import random
    from spta.dataset import synthetic_temporal as temporal
    length, kind = spec['length'], spec['kind']
    padding = int(min(30, 0.15 * length))
    n = length - padding
    sine = [math.sin(2 * math.pi * j / n) for j in range(n)]
    profiles = dict(steep=(lambda j, indices: 500.0 + 10.0 * j + len(indices), [500.0 + 10.0 * j + n for j in range(n)], 0),
                    sine=(temporal.sine_function, sine, 0),
                    # the sign of the rounded zero in the middle is open
                    square=(temporal.square_function, [(v > 0) - (v < 0) for v in sine], 1),
                    gaussian=(temporal.gaussian_function, [math.exp(-(3 * (2 * j / n - 1)) ** 2 / 2) / math.sqrt(2 * math.pi)
                                                           for j in range(n)], 0))
    function, want, loose = profiles[kind]
    for j in range(n):
        got = float(function(j, range(n)))
        require(abs(got - want[j]) < 1e-9 or (loose and abs(sine[j]) < 1e-9), '{} profile at {} of {}: {} instead of {}', kind, j, n,
                got, want[j])
    np.random.seed(spec['seed'])
    random.seed(spec['seed'])
    draws = [np.asarray(temporal.delayed_function_with_noise(function, length)) for _ in range(6)]
    delays = set()
    for series in draws:
        require(series.shape == (length,), 'series of shape {} instead of {}', series.shape, length)
        best = None
        for delay in range(padding):
            shifted = np.concatenate([np.zeros(delay), want, np.zeros(padding - delay)])
            rest = np.abs(series - shifted)
            if loose:
                rest[delay + int(np.argmin(np.abs(sine[1:]))) + 1] = 0
                rest[delay] = 0
            error = float(rest.max())
            if best is None or error < best[0]:
                best = (error, delay)
        require(best[0] <= 0.2, 'the profile is not shifted by 0..{} samples: off by {}', padding - 1, best[0])
        delays.add(best[1])
        flat = series - np.concatenate([np.zeros(best[1]), want, np.zeros(padding - best[1])])
        if length >= 100 and kind == 'steep':
            require(0.01 < np.std(flat) < 0.03, 'noise of size {}', np.std(flat))
    require(any(not np.array_equal(draws[0], d) for d in draws[1:]), 'the same series every time')
    if padding >= 10:
        require(len(delays) >= 2, 'always delayed by {}', delays)
    ctx.nontrivial(length >= 50)
    ctx.tag(kind)


SUBS = [Sub('entries', spec, run, quick=300, thorough=8000, shards=(3, 8)),
        Sub('delays', profile_spec, run_profile, quick=200, thorough=4000, shards=(2, 8))]
