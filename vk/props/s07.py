'''S07: sliding windows cover a series completely, in order, with their labels.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen
from ..core import Sub, require

RULE = ('arrays of 0..60 numbers (lists, tuples, arrays of whole or real numbers) with windows of 1..70 and strides of 1..70; '
        'tables of 1..8 labelled series of 1..14 samples (repeated labels, repeated series, any order and index of the rows and '
        'columns in between) with every window length that fits; non-trivial: at least two windows per row and two rows, or a '
        'stride that leaves a rest')
ASSUMPTIONS = ['labelled series are finite and at least as long as the window']


@st.composite
def array_spec(draw):
    n = draw(st.sampled_from([20, 7, 30, 12]) | st.integers(0, 60))
    length = draw(st.integers(1, 6) | st.integers(1, 12) | st.integers(1, 70) | st.sampled_from([max(1, n), max(1, n - 1), n + 1]))
    return dict(n=n, values=list(draw(gen.noise(n))), length=length,
                stride=draw(st.sampled_from([None, 1, 2, 3]) | st.integers(1, 70) | st.just(length)),
                kind=draw(st.sampled_from(['float', 'int', 'list', 'tuple', 'strided'])))


def run_array(spec, ctx):
    from spta.util import arrays
    values = [v / 4.0 for v in spec['values']]
    if spec['kind'] == 'int':
        values = [int(v) for v in values]
    given = {'list': list, 'tuple': tuple, 'float': np.array, 'int': np.array,
             'strided': lambda v: np.repeat(np.array(v), 2)[::2]}[spec['kind']](values)
    stride = spec['stride'] or 1
    got = arrays.sliding_window(given, spec['length'], *([] if spec['stride'] is None else [spec['stride']]))
    want = [values[start:start + spec['length']] for start in range(len(values))
            if start % stride == 0 and start + spec['length'] <= len(values)]
    require(len(got) == len(want) and all(gen.exact(g, w) for g, w in zip(got, want)),
            '{} windows of {} every {} of {}: {} instead of {}', len(got), spec['length'], stride, values, got, want)
    require(list(given) == values, 'the series was modified')
    ctx.nontrivial(len(want) >= 2 and (len(values) - spec['length']) % stride != 0)
    ctx.tag('windows:{}'.format(min(len(want), 3)), spec['kind'])


@st.composite
def table_spec(draw):
    rows = draw(st.sampled_from([2, 3, 1, 5, 8]))
    t = draw(st.sampled_from([7, 10, 4]) | st.integers(1, 14))
    return dict(rows=rows, t=t, values=list(draw(gen.noise(rows * t))), labels=draw(st.lists(
        st.sampled_from(['a', '2-0-1', 'b', 'c']), min_size=rows, max_size=rows)), size=draw(st.integers(1, max(1, t // 2)) | st.integers(1, t)),
        same=draw(st.booleans()), index=draw(st.sampled_from(['default', 'reversed', 'repeated', 'offset'])),
        place=draw(st.sampled_from(['first', 'last', 'middle'])), whole=draw(st.sampled_from(['none', 'all', 'some', 'some'])),
        wholes=draw(st.lists(st.booleans(), min_size=t, max_size=t)))


def run_table(spec, ctx):
    import pandas as pd
    from spta.classifier.sliding_window import apply_sliding_window_to_labeled_series
    rows, t = spec['rows'], spec['t']
    data = np.array(spec['values'], dtype=float).reshape(rows, t)
    whole = {'none': [False] * t, 'all': [True] * t, 'some': spec['wholes']}[spec['whole']]
    data = np.where(whole, data, data / 8.0)
    if spec['same'] and rows > 1:
        data[1] = data[0]
    columns = {'s{}'.format(i): data[:, i].astype(int if whole[i] else float) for i in range(t)}
    df = pd.DataFrame(columns)
    df.insert({'first': 0, 'last': t, 'middle': t // 2}[spec['place']], 'label', spec['labels'])
    df.index = {'default': list(range(rows)), 'reversed': list(range(rows))[::-1], 'repeated': [0] * rows,
                'offset': list(range(7, 7 + rows))}[spec['index']]
    before = df.copy()
    got = apply_sliding_window_to_labeled_series(df, spec['size'])
    require(df.equals(before), 'the table was modified')
    want = [(spec['labels'][r], [float(v) for v in data[r, o:o + spec['size']]], o)
            for r in range(rows) for o in range(t - spec['size'] + 1)]
    require(set(got.columns) == {'label', 'window', 'offset'}, 'columns {}', list(got.columns))
    seen = [(label, [float(v) for v in window], int(offset))
            for label, window, offset in zip(got['label'], got['window'], got['offset'])]
    require(seen == want, 'windows of {}: {} instead of {}', spec['size'], seen, want)
    require(list(got.index) == list(range(len(want))), 'rows numbered {}', list(got.index))
    ctx.nontrivial(rows >= 2 and t - spec['size'] >= 1 and len(set(spec['labels'])) >= 2)
    ctx.tag('one window' if spec['size'] == t else 'several windows', 'size 1' if spec['size'] == 1 else 'size > 1',
            spec['index'], spec['place'], 'whole numbers: ' + spec['whole'])


SUBS = [Sub('arrays', array_spec, run_array, quick=600, thorough=20000, shards=(1, 8)),
        Sub('tables', table_spec, run_table, quick=300, thorough=8000, shards=(2, 8))]
