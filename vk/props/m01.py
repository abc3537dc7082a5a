'''M01: splitting into training and test data.'''
import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require

RULE = ('plain, scaled and clustered regions of 2..12 samples up to 5x5 points (once in a while 120..4001 samples of 2..4 points), after 0..3 subsetting or clustering operations, '
        'split at every kind of test length (1, all but one, in between); non-trivial: both parts have at least one '
        'sample, one of them at least two, over at least two points')
ASSUMPTIONS = ['the test length is between 1 and the series length minus 1']


@st.composite
def split_spec(draw):
    spec = draw(regions.chain_spec(['rect', 'cluster', 'descale'], t=(2, 12), max_ops=3, nan=2))
    if draw(st.booleans()):
        spec['ops'] = []
    spec['test'] = draw(st.integers(0, 1000))
    return spec


def run_split(spec, ctx):
    from spta.model.train import SplitTrainingAndTestLast
    from spta.region import Point
    real, model = regions.build(spec)
    done = []
    for name, args in spec['ops']:
        new_real, new_model = regions.apply_op(name, args, real, model)
        if new_model is not None:
            real, model = new_real, new_model
            done.append(name)
    t = model.shape[0]
    test_len = 1 + spec['test'] % (t - 1)
    before = np.array(real.as_numpy, copy=True)
    training, test = SplitTrainingAndTestLast(test_len).split(real)
    require(gen.exact(before, real.as_numpy), 'splitting modified the region')
    require(test.series_len == test_len, 'test length {} instead of {}', test.series_len, test_len)
    require(training.series_len == t - test_len, 'training length {} of {}', training.series_len, t)
    regions.compare(training, model.copy(data=model.data[:t - test_len].copy()), 'training')
    regions.compare(test, model.copy(data=model.data[t - test_len:].copy()), 'test')
    regions.compare_scaling(training, model.copy(data=model.data[:t - test_len].copy()), 'training')
    regions.compare_scaling(test, model.copy(data=model.data[t - test_len:].copy()), 'test')
    for x, y in model.points():
        joined = np.concatenate([training.series_at(Point(x, y)), test.series_at(Point(x, y))])
        require(gen.exact(joined, real.series_at(Point(x, y))), 'joined series at {} is {}', (x, y), joined)
    require(str(type(training)) == str(type(test)), 'kinds {} and {}', type(training), type(test))
    regions.compare(real, model, 'region after splitting', deep=False)
    # splitting again gives the same, and independent, parts
    again, _ = SplitTrainingAndTestLast(test_len).split(real)
    require(gen.exact(again.as_numpy, training.as_numpy), 'a second split differs')
    ctx.nontrivial(t >= 3 and len(model.points()) >= 2)
    ctx.tag('scaled' if model.mins is not None else 'unscaled', 'cluster' if model.labels is not None else 'whole',
            'ops:{}'.format(len(done)), 'test 1' if test_len == 1 else 'test all but one' if test_len == t - 1 else 'between')


@st.composite
def long_spec(draw):
    return dict(t=draw(st.sampled_from([366, 731, 1461, 120, 1000, 4001])), shape=draw(st.sampled_from([[1, 2], [2, 1], [2, 2]])),
                noise=draw(st.integers(0, 10 ** 6)), scaled=draw(st.booleans()), labels=draw(st.sampled_from([None, [0, 1], [1, 1]])),
                test=draw(st.one_of(st.integers(0, 30), st.integers(0, 5000), st.sampled_from([364, 0, -1]))))


def run_long(spec, ctx):
    '''Years of samples.'''
    x_len, y_len = spec['shape']
    n = x_len * y_len
    values = np.random.RandomState(spec['noise']).randint(-9999, 9999, size=spec['t'] * n) / 16.0
    whole = dict(cube=dict(shape=[spec['t'], x_len, y_len], values=values.tolist()), scaled=spec['scaled'], ops=[],
                 test=spec['test'])
    if spec['labels']:
        whole['labels'] = dict(labels=(spec['labels'] * n)[:n], k=2)
        whole['cluster'] = 1
    run_split(whole, ctx)
    ctx.nontrivial(True)
    ctx.tag('samples:{}'.format(spec['t']))


SUBS = [Sub('split', split_spec, run_split, quick=900, thorough=20000, shards=(3, 8)),
        Sub('long', long_spec, run_long, quick=60, thorough=2000, shards=(1, 4))]
