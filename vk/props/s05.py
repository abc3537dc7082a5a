'''S05: a classifier solver forecasts each point with the model its label denotes.'''
import copy
import json

import numpy as np
from hypothesis import strategies as st

from .. import dataset, gen, solve
from ..core import Sub, require, must_raise, scratch_dir
from . import m05, s04

RULE = ('1..3 trained and saved solvers over one dataset that differ in clusters and seed, one classifier solver asked 1..4 '
        'queries in a row (rectangles, past lengths, the region itself or other regions as the source of the past); the '
        'classifier is a stand-in that recognises the stretch of series it is given and answers with a generated label; its '
        'text and tables are read back as in S04; also labels to descriptions and back, and the real classifier code around a '
        'stand-in network; non-trivial: points of one query whose labels belong to different clusterings')
ASSUMPTIONS = ['the network itself is a stand-in: only its surroundings are decided',
               'a region that is the source of the past has the shape of the trained region',
               'labels denote k-medoids clusterings of the mode lite, as documented']


@st.composite
def spec(draw):
    base = draw(solve.solver_spec(trainers=['harness', 'mean', 'knn']))
    n = base['shape'][0] * base['shape'][1]
    pairs = draw(st.lists(st.tuples(st.integers(1, min(n, 4)), st.integers(0, 12)), min_size=draw(st.sampled_from([2, 1])), max_size=3, unique=True))
    base['clusterings'] = [dict(kind='kmedoids', k=k, seed=seed, mode='lite') for k, seed in pairs]
    base['clustering'] = base['clusterings'][0]
    t = base['train'] + base['test']
    rectangle = gen.rectangle(*base['shape']) | gen.large_rectangle(*base['shape'])
    query = st.fixed_dictionaries(dict(rectangle=rectangle, tp=st.integers(1, t) | st.sampled_from([base['test'], t]),
                                       source=st.sampled_from([None, 0, None, 1])))
    base['queries'] = draw(st.lists(query, min_size=1, max_size=4))
    base['choices'] = list(draw(gen.noise(3 * n)))
    # how many samples fewer (negative) or more the other sources have than the region
    base['longer'] = draw(st.lists(st.sampled_from([0, 3, -2, 7]), min_size=2, max_size=2))
    base['other_scaled'] = draw(st.sampled_from([True, False]))
    base['absent'] = draw(st.sampled_from([False, False, True]))
    base['save'] = draw(st.sampled_from([True, False]))
    return base


class StandIn(object):
    '''Knows the series of each possible source; answers with the label chosen for the point that has it.'''

    def __init__(self, sources, labels):
        self.sources = sources
        self.labels = labels
        self.asked = 0

    def label(self, series):
        series = np.array(series, dtype=float)
        for source, labels in zip(self.sources, self.labels):
            if len(series) > len(source):
                continue
            tail = source.reshape(source.shape[0], -1)[source.shape[0] - len(series):]
            for i in range(tail.shape[1]):
                if np.all(np.abs(tail[:, i] - series) <= 1e-7 * (1 + np.abs(series))):
                    return labels[i]
        return None

    def label_for_series(self, series):
        self.asked += 1
        label = self.label(series)
        require(label is not None, 'the classifier was given {}: not the last samples of any point', series)
        return label


def sources_of(world):
    '''(metadata, data in the units of the loaded region) of the own region and two others.'''
    from spta.region.metadata import SpatioTemporalRegionMetadata
    own = world.region_metadata
    found = [(None, world.seen)]
    for i in range(2):
        data = world.data[::-1] * (1.25 + i) + 50.0 * (i + 1)
        longer = world.spec['longer'][i]
        data = data[-longer:] if longer < 0 else np.concatenate([data[:longer] * 1.125 + 200.0, data])
        scaled = world.spec['other_scaled'] if i else world.spec['scaled']
        metadata = SpatioTemporalRegionMetadata('other{}'.format(i), own.region, 2010 + i, 2010 + i, own.spd, scaled=scaled)
        dataset.install(data, metadata)
        if scaled:
            low, high = data.min(axis=0), data.max(axis=0)
            data = (data - low) / np.where(high > low, high - low, 1.0)
        found.append((metadata, data))
    return found


def run(spec, ctx):
    from spta.clustering.kmedoids import kmedoids_metadata_generator
    from spta.classifier import model as classifier_model
    from spta.classifier.dnn import ClassifierDNNParams
    from spta.region import Point, Region
    with scratch_dir():
        worlds = []
        for i, clustering in enumerate(spec['clusterings']):
            world = solve.World(dict(spec, clustering=clustering), install=i == 0)
            world.find_partition()
            world.solver_trainer().train('results').save()
            worlds.append(world)
        world = worlds[0]
        n = world.x_len * world.y_len
        names, meaning = [], {}
        for each in worlds:
            for index, medoid in enumerate(each.medoids):
                name = '{}-{}-{}'.format(each.spec['clustering']['k'], each.spec['clustering']['seed'], index)
                names.append(name)
                meaning[name] = (each, medoid)
        sources = sources_of(world)
        labels = [[names[c % len(names)] for c in spec['choices'][i * n:(i + 1) * n]] for i in range(3)]
        stand_in = StandIn([data for _, data in sources], labels)
        trainer, params = world.trainer_and_params()
        suite = kmedoids_metadata_generator([c['k'] for c in spec['clusterings']], [0])
        suite.identifier = 'mine'
        solver = classifier_model.SolverFromClassifier(
            world.region_metadata, world.distance(), suite, trainer, params,
            ClassifierDNNParams('net', 'nowhere', 'nowhere', 4), spec['test'], spec['error'])
        real = classifier_model.ClassifierDNN
        classifier_model.ClassifierDNN = lambda *args, **kwargs: stand_in
        several = False
        try:
            for turn, query in enumerate(spec['queries']):
                several = check_query(spec, query, turn, world, solver, sources, stand_in, meaning, suite) or several
            if spec['absent']:
                # a label of a clustering that has no saved solver
                unknown = '{}-{}-0'.format(spec['clustering']['k'], 77)
                stand_in.labels = [[unknown] * n for _ in range(3)]
                with must_raise(IOError, 'label {} without a saved solver'.format(unknown)):
                    solver.predict(Region(0, 1, 0, 1), 1)
                ctx.tag('absent')
        finally:
            classifier_model.ClassifierDNN = real
    ctx.nontrivial(several)
    ctx.tag('solvers:{}'.format(len(worlds)), 'queries:{}'.format(len(spec['queries'])),
            *['own past' if q['source'] is None else 'other past' for q in spec['queries']])
    solve.tag(spec, ctx)


def check_query(spec, query, turn, world, solver, sources, stand_in, meaning, suite):
    from spta.region import Point, Region
    x1, x2, y1, y2 = query['rectangle']
    source = 0 if query['source'] is None else query['source'] + 1
    query = dict(query, tp=min(query['tp'], len(sources[source][1])))
    what = 'query {}: {}'.format(turn + 1, query)
    before = s04.tables()
    asked = stand_in.asked
    result = solver.predict(Region(x1, x2, y1, y2), query['tp'], out_of_sample_region=copy.deepcopy(sources[source][0]),
                            output_home='given{}'.format(turn))
    points = gen.points_of(x2 - x1, y2 - y1)
    require([tuple(p) for p in result] == points, '{}: answers at {}', what, [tuple(p) for p in result])
    data = sources[source][1]
    wanted, forecasts, errors = {}, [], []
    for x, y in points:
        place = (x + x1, y + y1)
        label = stand_in.label(data[data.shape[0] - query['tp']:, place[0], place[1]])
        wanted[x, y] = label
        each, medoid = meaning[label]
        values = np.array(each.model_forecast(medoid, spec['test'], False))
        if spec['scaled']:
            values = world.mins[place] + values * (world.maxs[place] - world.mins[place])
        forecasts.append(values)
        error = m05.reference(spec['error'], values, world.test_series(place),
                              world.data[:spec['train'], place[0], place[1]])
        errors.append(error)
        got = result.prediction_forecast_at(Point(x, y))
        require(solve.close(got, values), '{}: forecast at {} is {} instead of {} of the label {}', what, place, got, values, label)
        got = result.prediction_error_at(Point(x, y))
        require(solve.close(got, error), '{}: error at {} is {} instead of {}', what, place, got, error)
    length = spec['test']
    as_query = dict(rectangle=query['rectangle'], test=length, future=0, error=spec['error'], missing=[],
                    forecast=np.array(forecasts).T.reshape(-1), errors=errors, suite_labels=[0] * len(points))
    as_result = dict(shape=spec['shape'], corner=spec['corner'], scaled=spec['scaled'], values=world.data.reshape(-1),
                     labels=dict(labels=[0] * (world.x_len * world.y_len), k=1), medoids=[0], kind='classifier')
    want = s04.Expected(as_result, as_query)
    want.suite_labels = wanted
    for p in points:
        s04.check_lines(as_result, as_query, result, want, p)
    if spec['save']:
        result.save_as_csv()
        files = [f for f in s04.tables() if f not in before]
        require(len(files) == 2 and all(f.startswith('./given{}/'.format(turn)) for f in files), '{}: files {}', what, files)
        contents = sorted([s04.read(f) for f in files], key=lambda rows: rows[0][0] != 'Point')
        s04.check_tables(as_result, as_query, want, None, suite, *contents)
    return len({meaning[label][0] is world for label in wanted.values()}) > 1


# ---------------------------------------------------------------- labels

@st.composite
def label_spec(draw):
    return dict(k=draw(st.integers(1, 300)), seed=draw(st.integers(0, 300)), index=draw(st.integers(0, 299)),
                mode=draw(st.sampled_from([None, 'lite', 'robust'])))


def run_label(spec, ctx):
    from spta.clustering.kmedoids import KmedoidsClusteringMetadata
    from spta.clustering.factory import ClusteringMetadataFactory
    index = spec['index'] % spec['k']
    given = [] if spec['mode'] is None else [spec['mode']]
    metadata = KmedoidsClusteringMetadata.from_classifier_label('{}-{}-{}'.format(spec['k'], spec['seed'], index), *given)
    require((metadata.k, metadata.random_seed, metadata.mode) == (spec['k'], spec['seed'], spec['mode'] or 'lite'),
            'label {}-{}-{} denotes {!r}', spec['k'], spec['seed'], index, metadata)
    same = KmedoidsClusteringMetadata(spec['k'], random_seed=spec['seed'], mode=spec['mode'] or 'lite')
    require(repr(metadata) == repr(same) and metadata == same, '{!r} instead of {!r}', metadata, same)
    again = ClusteringMetadataFactory().from_repr(repr(metadata))
    require((again.k, again.random_seed, again.mode) == (metadata.k, metadata.random_seed, metadata.mode), '{!r} read as {!r}',
            metadata, again)
    ctx.nontrivial(spec['k'] >= 10 and spec['seed'] != spec['k'])
    ctx.tag(spec['mode'] or 'default')


# ---------------------------------------------------------------- the code around the network

@st.composite
def network_spec(draw):
    length = draw(st.integers(1, 8))
    count = draw(st.integers(1, 6))
    return dict(length=length, weights=draw(st.lists(st.lists(st.integers(-9, 9), min_size=length, max_size=length),
                                                     min_size=count, max_size=count)),
                series=draw(st.lists(st.lists(st.integers(-40, 400).map(lambda v: v / 8.0), min_size=length, max_size=length),
                                     min_size=1, max_size=4)),
                labels=draw(st.lists(st.tuples(st.integers(2, 99), st.integers(0, 9), st.integers(0, 98)), min_size=count,
                                     max_size=count, unique=True)))


def run_network(spec, ctx):
    from spta.classifier import dnn
    weights = np.array(spec['weights'], dtype=float)
    names = ['{}-{}-{}'.format(*label) for label in spec['labels']]

    class Network(object):
        weights = None

        def __init__(self, layers=()):
            self.layers = list(layers)

        def add(self, layer):
            self.layers.append(layer)

        def compile(self, *args, **kwargs):
            pass

        summary = compile

        def load_weights(self, path):
            with open(path) as f:
                self.weights = np.array(json.load(f), dtype=float)
            # as a network would: weights fit the layers they were saved from
            require(self.layers[-1] == len(self.weights), 'the last layer has {} units for {} labels', self.layers[-1], len(names))

        def predict(self, given, *args, **kwargs):
            given = np.array(given)
            require(given.shape == (1, spec['length'], 1), 'the network was given {}', given.shape)
            require(self.weights is not None, 'the network was asked without the saved weights')
            return (self.weights @ given.reshape(-1))[np.newaxis]

    class Anything(object):
        def __getattr__(self, name):
            return lambda *args, **kwargs: Anything()

    saved = {name: getattr(dnn, name) for name in ('Sequential', 'keras', 'LSTM', 'Dense', 'Dropout') if hasattr(dnn, name)}
    with scratch_dir():
        with open('weights.h5', 'w') as f:
            json.dump(spec['weights'], f)
        with open('labels.csv', 'w') as f:
            f.write('code,name\n' + ''.join('{},{}\n'.format(i, name) for i, name in enumerate(names)))
        try:
            dnn.Sequential = Network
            dnn.keras = type('keras', (), {'optimizers': Anything()})
            dnn.LSTM = dnn.Dense = dnn.Dropout = lambda *args, **kwargs: (args + tuple(kwargs.values()))[0]
            classifier = dnn.ClassifierDNN(dnn.ClassifierDNNParams('net', 'weights.h5', 'labels.csv', spec['length']))
        finally:
            for name, value in saved.items():
                setattr(dnn, name, value)
        clear = 0
        for series in spec['series']:
            total = sum(abs(v) for v in series)
            share = np.array(series) / (total if total > 0 else 1.0)
            scores = weights @ share
            order = np.sort(scores)
            if len(order) > 1 and order[-1] - order[-2] < 1e-9:
                continue
            clear += 1
            got = classifier.label_for_series(np.array(series))
            require(got == names[int(np.argmax(scores))], 'label {} of {} with the scores {} of {}', got, series, scores, names)
    ctx.nontrivial(clear >= 2 and len(names) >= 2)
    ctx.tag('labels:{}'.format(len(names)))


SUBS = [Sub('queries', spec, run, quick=160, thorough=4000, shards=(6, 8)),
        Sub('labels', label_spec, run_label, quick=400, thorough=4000, shards=(1, 2)),
        Sub('network', network_spec, run_network, quick=150, thorough=3000, shards=(1, 2))]
