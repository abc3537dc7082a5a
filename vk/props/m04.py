'''M04: ARIMA orders and failures.'''
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, regions
from ..core import Sub, require

RULE = ('order lists of 0..4 values each; regions and clusters of 1..6 points with series of 8..24 samples, one order or one order '
        '(or none) per point, training failures injected into the library at an arbitrary set of points (ValueError and '
        'LinAlgError, when the model is built or fitted), refitting on other data, and automatic searches; '
        'non-trivial: at least two points with a model and one failure, or at least two different orders')
ASSUMPTIONS = ['the numerical work of statsmodels and pmdarima is trusted and deterministic: the reference calls them directly',
               'at least eight samples per series']

FAULTS = {}     # series (as tuple) -> (where, exception type)


class Faults(object):
    '''While active, the library fails for the series listed, in the given place.'''

    def __init__(self, faults):
        self.faults = faults

    def __enter__(self):
        from statsmodels.tsa.arima.model import ARIMA
        self.cls = ARIMA
        self.init, self.fit = ARIMA.__init__, ARIMA.fit
        faults, init, fit = self.faults, self.init, self.fit

        def faulty_init(model, endog, *args, **kwargs):
            fault = faults.get(key_of(endog))
            if fault and fault[0] == 'build':
                raise fault[1]('injected')
            init(model, endog, *args, **kwargs)
            model.vk_key = key_of(endog)

        def faulty_fit(model, *args, **kwargs):
            fault = faults.get(getattr(model, 'vk_key', None))
            if fault and fault[0] == 'fit':
                raise fault[1]('injected')
            return fit(model, *args, **kwargs)

        ARIMA.__init__, ARIMA.fit = faulty_init, faulty_fit
        self.filters = warnings.catch_warnings()
        self.filters.__enter__()
        warnings.simplefilter('ignore')
        return self

    def __exit__(self, *exc):
        self.cls.__init__, self.cls.fit = self.init, self.fit
        self.filters.__exit__(*exc)


def key_of(series):
    return tuple(round(float(v), 9) for v in np.asarray(series).reshape(-1))


def reference_fit(series, order):
    from statsmodels.tsa.arima.model import ARIMA
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return ARIMA(np.array(series, dtype=np.float64), order=tuple(order), seasonal_order=(0, 0, 0, 0)).fit()


# ---------------------------------------------------------------- suites

@st.composite
def suite_spec(draw):
    values = st.lists(st.integers(0, 6), max_size=4, unique=True)
    return [draw(values) for _ in range(3)]


def run_suite(spec, ctx):
    from spta.arima import ArimaSuiteParams
    p, d, q = spec
    suite = ArimaSuiteParams(p, d, q)
    for turn in range(2):
        got = list(suite.arima_params_gen())
        want = [(a, b, c) for a in p for b in d for c in q]
        require(sorted(tuple(o) for o in got) == sorted(want), 'orders {} instead of {} (time {})', got, want, turn + 1)
        require(all((o.p, o.d, o.q) == tuple(o) for o in got), 'fields of {}', got)
    ctx.nontrivial(len(want) >= 4)


# ---------------------------------------------------------------- regions

@st.composite
def train_spec(draw):
    x_len, y_len = draw(st.sampled_from([[1, 2], [2, 1], [1, 3], [2, 2], [1, 1], [2, 3]]))
    n = x_len * y_len
    t = draw(st.sampled_from([10, 8, 16, 24]))
    orders = st.sampled_from([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, 0, 1], [0, 2, 0], [0, 2, 1]])
    spec = dict(cube=dict(shape=[t, x_len, y_len], values=draw(gen.grid_values(t * n, ('fine', 'temperature')))), ops=[],
                scaled=draw(st.sampled_from([False, False, True])), mode=draw(st.sampled_from(['constant', 'refit', 'refit'])),
                order=draw(orders), orders=draw(st.lists(st.one_of(orders, orders, st.none()), min_size=n, max_size=n)),
                faults=draw(st.lists(st.sampled_from([None, None, 'build', 'fit']), min_size=n, max_size=n)),
                errors=draw(st.lists(st.sampled_from(['value', 'linalg']), min_size=n, max_size=n)),
                length=draw(st.integers(1, 5)))
    if draw(st.booleans()):
        spec['labels'] = draw(gen.labels(n, max_k=2))
        spec['cluster'] = draw(st.integers(0, spec['labels']['k'] - 1))
    return spec


def check_models(models, real, data, points, orders, failed, length, what):
    '''orders: {point: order or None}'''
    from spta.region import Point
    shape = data.shape[1:]
    expected = {}
    for p in points:
        model = models.value_at(Point(*p))
        if orders[p] is None or p in failed:
            require(model is None, '{}: a model at {} although training failed', what, p)
            expected[p] = None
        else:
            require(model is not None, '{}: no model at {}', what, p)
            require(tuple(int(v) for v in model.model.order) == tuple(orders[p]), '{}: order {} at {} instead of {}', what,
                    model.model.order, p, orders[p])
            expected[p] = reference_fit(data[:, p[0], p[1]], orders[p])
            require(gen.same(model.aic, expected[p].aic, 1e-9, 1e-9), '{}: criterion {} at {} instead of {}', what, model.aic, p,
                    expected[p].aic)
    missing = sum(1 for p in points if expected[p] is None)
    require(models.missing_count == missing, '{}: missing_count {} instead of {}', what, models.missing_count, missing)
    for p in points:
        aic = models.aic_region.value_at(Point(*p))
        want = math.nan if expected[p] is None else expected[p].aic
        require(gen.same(aic, want, 1e-9, 1e-9), '{}: reported criterion {} at {} instead of {}', what, aic, p, want)
        if hasattr(models, 'pdq_region'):
            pdq = [int(v) for v in models.pdq_region.series_at(Point(*p))]
            require(pdq == ([-1, -1, -1] if expected[p] is None else list(orders[p])), '{}: reported order {} at {}', what, pdq, p)
    forecast = models.apply_to(real.empty_region_2d(), length)
    require(tuple(forecast.shape) == (length,) + shape, '{}: shape of the forecast {}', what, forecast.shape)
    seen = regions.list_pairs(forecast)
    require([(p.x, p.y) for p, _ in seen] == points, '{}: forecasts at {}', what, [tuple(p) for p, _ in seen])
    for p, got in seen:
        want = [math.nan] * length if expected[(p.x, p.y)] is None else expected[(p.x, p.y)].forecast(length)
        require(gen.same(got, want, 1e-7, 1e-7), '{}: forecast at {} is {} instead of {}', what, tuple(p), got, want)
    return missing


def make_faults(spec, data, points):
    y_len = data.shape[2]
    faults, failed = {}, set()
    for p in points:
        i = p[0] * y_len + p[1]
        if spec['faults'][i]:
            faults[key_of(data[:, p[0], p[1]])] = (spec['faults'][i],
                                                   ValueError if spec['errors'][i] == 'value' else np.linalg.LinAlgError)
    for p in points:
        if key_of(data[:, p[0], p[1]]) in faults:
            failed.add(p)
    return faults, failed


def run_train(spec, ctx):
    from spta.arima import ArimaPDQ
    from spta.arima.model import ModelRegionArima
    from spta.arima.train import TrainerArimaPDQ, TrainerRefitArima
    real, model = regions.build(spec)
    t, x_len, y_len = model.shape
    points = model.points()
    if not points:
        return
    data = model.data
    faults, failed = make_faults(spec, data, points)
    before = np.array(real.as_numpy, copy=True)
    if spec['mode'] == 'constant':
        orders = {p: spec['order'] for p in points}
        trainer = TrainerArimaPDQ(ArimaPDQ(*spec['order']), x_len, y_len)
        require(trainer.create_refitter(None) is trainer, 'the refitter of constant orders')
    else:
        # models found earlier, with their own orders; here refitted on this region
        class Found(object):
            def __init__(self, order):
                self.model = type('M', (), {'order': tuple(order)})()
        grid = np.full((x_len, y_len), None, dtype=object)
        for x, y in gen.points_of(x_len, y_len):
            order = spec['orders'][x * y_len + y]
            grid[x, y] = None if order is None else Found(order)
        orders = {p: spec['orders'][p[0] * y_len + p[1]] for p in points}
        trainer = TrainerRefitArima(ModelRegionArima(grid))
    with Faults(faults):
        models = trainer.apply_to(real)
    require(trainer.missing_count == models.missing_count, 'missing_count of the trainer {} and of the models {}',
            trainer.missing_count, models.missing_count)
    missing = check_models(models, real, data, points, orders, failed, spec['length'], spec['mode'])
    require(gen.exact(before, real.as_numpy), 'training modified the region')
    different = set(tuple(orders[p]) for p in points if orders[p])
    ctx.nontrivial((missing and len(points) - missing >= 2) or len(different) >= 2)
    ctx.tag(spec['mode'], 'cluster' if model.labels is not None else 'whole', 'failures' if failed else 'no failures',
            'orders:{}'.format(len(different)))


# ---------------------------------------------------------------- automatic search

@st.composite
def auto_spec(draw):
    spec = draw(train_spec())
    n = len(spec['faults'])
    while n > 4:
        spec = draw(train_spec())
        n = len(spec['faults'])
    # some series wander, so that different orders are found
    t, x_len, y_len = spec['cube']['shape']
    values = gen.array(spec['cube'])
    for i, walks in enumerate(draw(st.lists(st.sampled_from([True, False]), min_size=n, max_size=n))):
        if walks:
            series = values[:, i // y_len, i % y_len]
            values[:, i // y_len, i % y_len] = np.round(np.cumsum(series - np.mean(series)), 3)
    spec['cube']['values'] = [float(v) for v in values.reshape(-1)]
    spec['unknown'] = draw(st.lists(st.integers(0, n - 1), max_size=1))
    spec['auto'] = draw(st.sampled_from([[1, 1, 2, 2, None, True], [0, 0, 1, 1, 0, True], [1, 0, 2, 1, 1, True],
                                         [0, 1, 1, 1, None, False]]))
    return spec


def run_auto(spec, ctx):
    from pmdarima.arima import auto_arima
    from spta.arima import AutoArimaParams
    from spta.arima.train import TrainerAutoArima
    from spta.region import Point
    spec = dict(spec, scaled=False)
    real, model = regions.build(spec)
    t, x_len, y_len = model.shape
    data = model.data
    for index in spec['unknown']:
        # a series that cannot be searched
        real.as_numpy[t // 2, index // y_len, index % y_len] = np.nan
        data[t // 2, index // y_len, index % y_len] = np.nan
    points = model.points()
    if not points:
        return
    faults, failed = make_faults(spec, data, points)
    names = ['start_p', 'start_q', 'max_p', 'max_q', 'd', 'stepwise']
    params = dict(zip(names, spec['auto']))
    orders = {}
    for p in points:
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                found = auto_arima(data[:, p[0], p[1]].copy(), seasonal=False, suppress_warnings=True, **params)
            orders[p] = tuple(int(v) for v in found.order)
        except ValueError:
            orders[p] = None
    trainer = TrainerAutoArima(AutoArimaParams(**params), x_len, y_len)
    with Faults(faults):
        models = trainer.apply_to(real)
    require(hasattr(models, 'pdq_region'), 'the orders found are not reported')
    missing = check_models(models, real, data, points, orders, failed, spec['length'], 'auto')
    # refitting on the series backwards keeps the orders found
    other = real.new_spatio_temporal_region(np.array(real.as_numpy[::-1]))
    with Faults({}):
        refitted = trainer.create_refitter(models).apply_to(other)
    kept = {p: None if p in failed else orders[p] for p in points}
    check_models(refitted, other, data[::-1], points, kept, set(), spec['length'], 'refitted')
    require(all((models.value_at(Point(*p)) is None) == (kept[p] is None) for p in points), 'the models were modified')
    different = set(o for o in orders.values() if o)
    ctx.nontrivial((missing and len(points) - missing >= 2) or len(different) >= 2)
    ctx.tag('failures' if missing else 'no failures', 'orders:{}'.format(len(different)))


# ---------------------------------------------------------------- single series

def run_none(spec, ctx):
    from spta.arima import ArimaPDQ, AutoArimaParams
    from spta.arima.train import TrainerArimaPDQ, TrainerAutoArima, extract_aic, extract_pdq
    series = np.array(spec, dtype=np.float64)
    auto = AutoArimaParams(1, 1, 1, 1, None, True)
    for trainer, params in ((TrainerArimaPDQ(ArimaPDQ(0, 0, 0), 1, 1), ArimaPDQ(0, 0, 0)), (TrainerAutoArima(auto, 1, 1), auto)):
        require(trainer.training_function(None, series) is None, '{}: a model without parameters', type(trainer).__name__)
        require(trainer.training_function(params, None) is None, '{}: a model without a series', type(trainer).__name__)
    require(math.isnan(extract_aic(None)) and math.isnan(extract_aic(0)), 'criterion of a missing model')
    require(list(extract_pdq(None)) == [-1, -1, -1] and list(extract_pdq(0)) == [-1, -1, -1], 'order of a missing model')
    ctx.nontrivial()


SUBS = [Sub('suites', suite_spec, run_suite, quick=300, thorough=3000, shards=(1, 2)),
        Sub('train', train_spec, run_train, quick=600, thorough=8000, shards=(4, 8)),
        Sub('auto', auto_spec, run_auto, quick=64, thorough=800, shards=(4, 8), case_timeout=600),
        Sub('missing', lambda: gen.grid_values(9), run_none, quick=5, thorough=20, shards=(1, 1))]
