'''U02: barycentre averaging of series never increases the total warping cost.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen, series
from ..core import Sub, require

RULE = ('1..7 series of 1..14 samples of different lengths, in one case of six repeated to up to 455 (coarse values with ties '
        'and fine values), centres among them, other series or constants, matrices as large as needed or larger and dirty, 0..6 iterations; non-trivial: at least two series '
        'of different length and a step that lowers the cost')
ASSUMPTIONS = ['series are finite arrays with at least one sample', 'where several alignments have the same cost, any of them '
               'may be the one that is averaged (then only length and cost of the average are decided)']


@st.composite
def spec(draw):
    count = draw(st.sampled_from([2, 3, 1, 5, 7]))
    longest = draw(st.sampled_from([6, 3, 9, 14, 2]))
    equal = draw(st.sampled_from([False, False, True]))
    lengths = [longest if equal else draw(st.integers(1, longest)) for _ in range(count + 1)]
    fine = draw(st.sampled_from([True, True, False]))
    raw = list(draw(gen.noise(2 * sum(lengths))))
    values, at = [], 0
    for length in lengths:
        one = []
        for _ in range(length):
            one.append((raw[at] * 256 + raw[at + 1]) / 4096.0 if fine else float(raw[at] % 4))
            at += 2
        values.append(one)
    copies = draw(st.sampled_from([1, 1, 1, 1, 1, 65])) if longest <= 6 else 1
    return dict(copies=copies, series=values[:-1], other=values[-1], start=draw(st.sampled_from(['other', 'first', 'constant'])),
                room=draw(st.sampled_from([0, 3])), dirty=draw(st.sampled_from([True, False])), steps=draw(st.sampled_from([2, 3, 0, 1, 6])),
                whole=draw(st.sampled_from([not fine, False])))


def total(center, many):
    return sum(series.dtw_squared(list(center), list(s)) for s in many)


def alignment(center, one):
    '''Pairs of the only cheapest alignment, or None when several are as cheap (up to rounding).'''
    n, m = len(center), len(one)
    cost = np.full((n + 1, m + 1), np.inf)
    cost[0, 0] = 0.0
    for i in range(n):
        for j in range(m):
            cost[i + 1, j + 1] = (center[i] - one[j]) ** 2 + min(cost[i, j], cost[i + 1, j], cost[i, j + 1])
    pairs, i, j = [], n, m
    while True:
        pairs.append((i - 1, j - 1))
        if (i, j) == (1, 1):
            return pairs
        options = sorted([(cost[i - 1, j - 1], (i - 1, j - 1)), (cost[i, j - 1], (i, j - 1)), (cost[i - 1, j], (i - 1, j))])
        if np.isfinite(options[1][0]) and options[1][0] - options[0][0] <= 1e-7 * (1 + options[0][0]):
            return None
        i, j = options[0][1]


def run(spec, ctx):
    from spta.dba import dba
    many = [np.array(s, dtype=int if spec['whole'] else float) for s in spec['series']]
    kept = [s.copy() for s in many]
    center = {'other': np.array(spec['other']), 'first': many[0], 'constant': np.full(len(spec['other']), 1.5)}[spec['start']]
    side = max(len(s) for s in many + [center]) + spec['room']

    def room(dtype=float):
        return np.full((side, side), 77 if spec['dirty'] else 0, dtype=dtype)
    for one in many:
        for a, b in ((center, one), (one, center)):
            got = dba.squared_DTW(a, b, room(), room())
            want = series.dtw_squared(list(a), list(b))
            require(gen.same(got, want), 'squared distance of {} and {}: {} instead of {}', a, b, got, want)
            require(gen.same(dba.DTW(a, b, room(), room()), np.sqrt(want)), 'distance of {} and {}', a, b)
    got = dba.sum_of_squares(center, many, room(), room())
    require(gen.same(got, total(center, many)), 'sum of squares {} instead of {}', got, total(center, many))
    lowered = decided = False
    shared = [room(), room(np.int8), room()]
    for step in range(spec['steps']):
        before = np.array(center)
        matrices = shared if spec['dirty'] else [room(), room(np.int8), room()]
        updated = dba.DBA_update(center, many, *matrices)
        require(gen.exact(center, before), 'step {} modified its centre', step + 1)
        require(np.shape(updated) == np.shape(center), 'step {}: {} samples instead of {}', step + 1, np.shape(updated),
                np.shape(center))
        old, new = total(center, many), total(updated, many)
        require(new <= old + 1e-9 * (1 + old), 'step {} raised the cost from {} to {}: {} to {}', step + 1, old, new, center, updated)
        paths = [alignment(list(center), list(one)) for one in many]
        if all(paths):
            decided = True
            assigned = [[] for _ in center]
            for one, path in zip(many, paths):
                for i, j in path:
                    assigned[i].append(float(one[j]))
            want = [sum(values) / len(values) for values in assigned]
            require(gen.same(updated, want), 'step {}: {} instead of {} of the alignments', step + 1, updated, want)
        lowered = lowered or new < old * (1 - 1e-6)
        center = updated
    if spec['copies'] > 1:
        check_many(spec, many, center, dba, room)
    check_whole(spec, many, dba)
    require(all(gen.exact(a, b) for a, b in zip(many, kept)), 'the series were modified')
    ctx.nontrivial(lowered and len({len(s) for s in many}) > 1)
    ctx.tag('decided' if decided else 'undecided', 'lowered' if lowered else 'not lowered', 'whole' if spec['whole'] else 'real',
            spec['start'])


def check_many(spec, many, center, dba, room):
    '''Repeated as often as its companions, a series weighs the same: the average stays.'''
    once = dba.DBA_update(center, many, room(), room(np.int8), room())
    often = dba.DBA_update(center, many * spec['copies'], room(), room(np.int8), room())
    require(gen.same(once, often), 'average of {} copies of the series: {} instead of {}', spec['copies'], often, once)
    index = dba.approximate_medoid_index(many * spec['copies'], np.zeros((14, 14)), np.zeros((14, 14)))
    require(0 <= index < len(many) * spec['copies'], 'medoid {} of {} series', index, len(many) * spec['copies'])


def check_whole(spec, many, dba):
    sums = [total(s, many) for s in many]
    average = dba.performDBA(many, n_iterations=spec['steps'])
    found = total(average, many)
    # starts at one of the best of the series
    best = [s for s, cost in zip(many, sums) if cost <= min(sums) + 1e-9 * (1 + min(sums))]
    require(len(average) in [len(s) for s in best], 'average of {} samples, the best series have {}', len(average), [len(s) for s in best])
    require(found <= min(sums) + 1e-9 * (1 + min(sums)), 'average {} with the cost {}, the best series has {}', average, found, min(sums))
    if spec['steps'] == 0:
        require(any(gen.exact(average, s) for s in best), 'no iterations: {} is none of the best {}', average, best)
    if len(best) == 1:
        # more iterations, the same path
        center = best[0]
        side = max(len(s) for s in many)
        for _ in range(spec['steps']):
            center = dba.DBA_update(center, many, np.zeros((side, side)), np.zeros((side, side), dtype=np.int8), np.zeros((side, side)))
        require(gen.same(average, center), 'average {} instead of {} after {} steps', average, center, spec['steps'])
    index = dba.approximate_medoid_index(many, np.zeros((14, 14)), np.zeros((14, 14)))
    require(sums[index] <= min(sums) + 1e-9 * (1 + min(sums)), 'medoid {} with the cost {} of {}', index, sums[index], sums)


SUBS = [Sub('averages', spec, run, quick=300, thorough=10000, shards=(2, 8))]
