'''X01: the forecasting commands answer like the solver they describe.'''
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import commands, gen, solve
from ..core import Sub, require, scratch_dir
from . import m04, m05, s04, s05

RULE = ('the commands themselves (main function and arguments) on a described region of 4..12 points at some corner of the '
        'dataset: one to three solvers that differ in number of clusters, seed, test length, error or model parameter are '
        'trained one after another, then queries for rectangles are answered, in-sample or future, for trained and never '
        'trained solvers, with arguments given or left out; the commands that model each point by itself likewise; printed '
        'lines and tables are compared with what follows from the data; '
        'non-trivial: two different solvers trained before a query, or a rectangle of at least two points')
ASSUMPTIONS = ['the numerical work of pmdarima and statsmodels is trusted', 'enough samples for the models']

PROGRAMS = {'mean': 'experiments.baseline.solver_mean_past', 'knn': 'experiments.baseline.solver_knn_medoids',
            'auto': 'experiments.auto_arima.solver'}
EACH = {'knn': 'experiments.baseline.solver_knn_each', 'auto': 'experiments.auto_arima.solver_each'}
ERRORS = ['sMAPE', 'MASE', 'MSE']


class CommandWorld(solve.World):
    '''With models found automatically.'''
    search = [1, 1, 3, 3, None, True]

    def found_order(self, series):
        from pmdarima.arima import auto_arima
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            options = dict(zip(['start_p', 'start_q', 'max_p', 'max_q', 'd', 'stepwise'], self.search))
            return auto_arima(np.array(series), seasonal=False, suppress_warnings=True, **options).order

    def model_forecast(self, medoid, length, whole):
        if self.spec['trainer'] != 'auto':
            return super(CommandWorld, self).model_forecast(medoid, length, whole)
        key = (medoid, length, whole)
        if key not in self._forecasts:
            series = self.seen[:, medoid[0], medoid[1]]
            training = series[:self.spec['train']]
            order = self._forecasts.get(medoid)
            if order is None:
                order = self._forecasts[medoid] = tuple(self.found_order(training))
            self._forecasts[key] = m04.reference_fit(series if whole else training, order).forecast(length)
        return self._forecasts[key]


# ---------------------------------------------------------------- one model per cluster

@st.composite
def region_spec(draw, shapes=([3, 3], [2, 3], [3, 2], [2, 4], [4, 3], [1, 5])):
    shape = draw(st.sampled_from(shapes))
    n = shape[0] * shape[1]
    t = draw(st.sampled_from([20, 22, 25]))
    return dict(shape=shape, t=t, values=draw(gen.grid_values(t * n, ('temperature', 'positive'))),
                factors=[1.0 + b / 32.0 for b in draw(gen.noise(n))],
                corner=draw(st.sampled_from([[3, 7], [0, 0], [20, 2], [0, 5], [31, 40]])),
                scaled=draw(st.sampled_from([True, False])), spd=draw(st.sampled_from([1, 4])),
                triangle=draw(gen.symmetric_matrix(n)))


PARAMS = {'mean': [None, 3, 10, 5, 1, 12], 'knn': [1, 2, 3], 'auto': [None]}
TESTS = [None, 8, 3, 2, 1, 5]


@st.composite
def solver_args(draw, program):
    return dict(kind=draw(st.sampled_from(['kmedoids', 'kmedoids', 'kmedoids', 'regular'])),
                k=draw(st.sampled_from([2, 3, 1, 4])), seed=draw(st.sampled_from([None, 0, 1, 2, 7])),
                test=draw(st.sampled_from(TESTS)), error=draw(st.sampled_from([None] + ERRORS)),
                param=draw(st.sampled_from(PARAMS[program])))


@st.composite
def changed(draw, program, args):
    '''The same solver but for one argument.'''
    what = draw(st.sampled_from([w for w in ['error', 'test', 'seed', 'k', 'param', 'kind'] if len(PARAMS[program]) > 1 or
                                 w != 'param']))
    options = dict(error=[None] + ERRORS, test=TESTS, seed=[None, 0, 1, 2, 7], k=[2, 3, 1, 4], param=PARAMS[program],
                   kind=['kmedoids', 'regular'])[what]
    other = dict(args)
    other[what] = draw(st.sampled_from([o for o in options if o != args[what]]))
    return other


@st.composite
def spec(draw, programs=('mean', 'knn')):
    program = draw(st.sampled_from(programs))
    one = draw(region_spec())
    one['program'] = program
    solvers = [draw(solver_args(program))]
    for _ in range(draw(st.sampled_from([1, 0, 2]))):
        base = solvers[draw(st.integers(0, len(solvers) - 1))]
        solvers.append(draw(changed(program, base)) if draw(st.booleans()) else draw(solver_args(program)))
    one['solvers'] = solvers
    one['queries'] = []
    for _ in range(draw(st.integers(1, 3))):
        one['queries'].append(dict(solver=draw(st.integers(0, len(solvers) - 1)),
                                   rectangle=draw(gen.large_rectangle(*one['shape']) | gen.rectangle(*one['shape'])),
                                   future=draw(st.sampled_from([0, 2, None, 4, 1]))))
    one['never'] = draw(changed(program, solvers[0])) if draw(st.integers(0, 3)) == 0 else None
    return one


def clusters(args):
    '''Four rectangles do not fit every region.'''
    return min(args['k'], 3) if args['kind'] == 'regular' else args['k']


def effective(program, args):
    '''The solver the arguments describe, with the documented defaults.'''
    return dict(kind=args['kind'], k=clusters(args), seed=(1 if args['seed'] is None else args['seed']) if args['kind'] == 'kmedoids'
                else 0, test=8 if args['test'] is None else args['test'], error=args['error'] or 'sMAPE',
                param=10 if program == 'mean' and args['param'] is None else args['param'])


def arguments(program, args):
    words = []
    if program == 'mean':
        words = ['place', args['kind']]
        if args['param'] is not None:
            words += ['--past', args['param']]
    elif program == 'knn':
        words = ['place', args['kind'], args['param']]
    else:
        words = ['place', 'simple', args['kind']]
    words += ['-k', clusters(args), '--log', 'WARN']
    if args['seed'] is not None:
        words += ['--seed', args['seed']]
    if args['test'] is not None:
        words += ['--tp' if program == 'auto' else '--test', args['test']]
    if args['error']:
        words += ['--error', args['error']]
    return words


def make_world(spec, solver, install=False):
    one = dict(spec, train=spec['t'] - solver['test'], test=solver['test'], trainer=spec['program'], params=solver['param'],
               error=solver['error'], refit=False,
               clustering=dict(kind=solver['kind'], k=solver['k'], seed=solver['seed'], mode='lite'))
    world = CommandWorld(one, install)
    if install:
        commands.forget()
        commands.REGIONS['place'] = lambda: world.region_metadata
    return world


class Printed(object):
    '''What was printed about each point, in place of a result.'''

    def __init__(self, lines, points):
        self.lines = dict(zip(points, lines))

    def lines_for_point(self, point):
        return self.lines[tuple(point)]


def expectation(world, rectangle, test, future, forecast, errors, error, kind):
    x1, x2, y1, y2 = rectangle
    places = [(x, y) for x in range(x1, x2) for y in range(y1, y2)]
    query = dict(rectangle=rectangle, test=test, future=future, error=error, missing=[],
                 forecast=np.array([forecast(p) for p in places]).T.reshape(-1), errors=[errors(p) for p in places],
                 suite_labels=[0] * len(places))
    labels = getattr(world, 'labels', np.zeros((world.x_len, world.y_len), dtype=int))
    medoids = getattr(world, 'medoids', [(0, 0)])
    result = dict(shape=[world.x_len, world.y_len], corner=world.spec['corner'], scaled=world.spec['scaled'],
                  values=world.data.reshape(-1), labels=dict(labels=labels.reshape(-1), k=len(medoids)), kind=kind,
                  medoids=[x * world.y_len + y for x, y in medoids])
    return result, query, s04.Expected(result, query)


def check_output(result, query, want, printed, before, clustering, what):
    require(len(printed) == len(want.points), '{}: {} points printed for the rectangle {}', what, len(printed),
            query['rectangle'])
    for p in want.points:
        s04.check_lines(result, query, Printed(printed, want.points), want, p)
    files = [f for f in s04.tables() if f not in before and f.endswith('.csv')]
    require(len(files) == 2 and all(f.startswith('./outputs/') for f in files), '{}: tables {}', what, files)
    contents = sorted([s04.read(f) for f in files], key=lambda rows: rows[0][0] != 'Point')
    s04.check_tables(result, query, want, clustering, None, *contents)


def clear_tables():
    import os
    for f in s04.tables():
        if f.startswith('./outputs/') and f.endswith('.csv'):
            os.remove(f)


def run(spec, ctx):
    program = PROGRAMS[spec['program']]
    solvers = [effective(spec['program'], args) for args in spec['solvers']]
    with scratch_dir():
        make_world(spec, solvers[0], install=True)
        for args in spec['solvers']:
            commands.call(program, 'processRequest', ['train'] + arguments(spec['program'], args))
        if spec['never'] and effective(spec['program'], spec['never']) not in solvers:
            clear_tables()
            x_len, y_len = spec['shape']
            try:
                commands.call(program, 'processRequest', ['predict'] + arguments(spec['program'], spec['never']) +
                              [0, x_len, 0, y_len])
            except commands.Failed:
                pass
            else:
                require(False, 'an answer of the solver {} although only {} were trained', spec['never'], spec['solvers'])
            ctx.tag('never trained')
        worlds = {}
        for query in spec['queries']:
            solver = solvers[query['solver']]
            key = repr(sorted(solver.items(), key=str))
            if key not in worlds:
                worlds[key] = make_world(spec, solver)
                worlds[key].find_partition()
            world = worlds[key]
            clear_tables()
            before = s04.tables()
            words = ['predict'] + arguments(spec['program'], spec['solvers'][query['solver']]) + query['rectangle']
            if query['future'] is not None:
                words += ['--tf', query['future']]
            output = commands.blocks(commands.call(program, 'processRequest', words))
            future = query['future'] or 0
            length = future or solver['test']
            result, asked, want = expectation(world, query['rectangle'], solver['test'], future,
                                              lambda p: world.forecast(p, length, future > 0), world.error, solver['error'],
                                              'clustered')
            about = [lines for lines in output if not lines[0].startswith('Point')]
            require(len(about) == 1 and 'Test samples: {}'.format(solver['test']) in about[0] and
                    'Error function: {}'.format(solver['error']) in about[0], 'the solver {} is described as {}', solver, about)
            check_output(result, asked, want, [lines for lines in output if lines[0].startswith('Point')], before,
                         world.clustering_metadata(), ' '.join(str(w) for w in words))
    different = len({repr(sorted(s.items(), key=str)) for s in solvers})
    ctx.nontrivial(different >= 2 or len(want.points) >= 2)
    ctx.tag(spec['program'], 'solvers:{}'.format(different), 'scaled' if spec['scaled'] else 'unscaled',
            *['future' if q['future'] else 'in-sample' for q in spec['queries']])
    for s in solvers:
        ctx.tag(s['kind'], s['error'], 'test:{}'.format(s['test']))


# ---------------------------------------------------------------- one model per point

@st.composite
def each_spec(draw, programs=('knn',), shapes=None):
    one = draw(region_spec(shapes) if shapes else region_spec())
    one['program'] = draw(st.sampled_from(programs))
    one['queries'] = []
    for _ in range(draw(st.sampled_from([1, 2])) if one['program'] == 'knn' else 1):
        one['queries'].append(dict(rectangle=draw(gen.large_rectangle(*one['shape']) | gen.rectangle(*one['shape'])),
                                   future=draw(st.sampled_from([None, 8, 3, 2, 1, 5])),
                                   error=draw(st.sampled_from([None] + ERRORS)),
                                   param=draw(st.sampled_from(PARAMS[one['program']]))))
    return one


def run_each(spec, ctx):
    with scratch_dir():
        for number, query in enumerate(spec['queries']):
            solver = dict(kind='regular', k=1, seed=0, test=query['future'] or 8, error=query['error'] or 'sMAPE',
                          param=query['param'])
            world = make_world(spec, solver, install=number == 0)
            world.medoid_of = lambda p: p
            words = ['place', query['param'] if spec['program'] == 'knn' else 'simple'] + query['rectangle'] + ['--log', 'WARN']
            if query['future']:
                words += ['--tf', query['future']]
            if query['error']:
                words += ['--error', query['error']]
            clear_tables()
            before = s04.tables()
            output = commands.blocks(commands.call(EACH[spec['program']], 'call_parser', words))
            result, asked, want = expectation(world, query['rectangle'], solver['test'], 0,
                                              lambda p: world.forecast(p, solver['test'], False), world.error, solver['error'],
                                              'plain')
            check_output(result, asked, want, output, before, None, ' '.join(str(w) for w in words))
    ctx.nontrivial(len(want.points) >= 2)
    ctx.tag(spec['program'], 'scaled' if spec['scaled'] else 'unscaled', solver['error'])


# ---------------------------------------------------------------- one model per label

TINY = [0, 0, 1, 1, 0, True]


class LabelWorld(CommandWorld):
    search = TINY


@st.composite
def classifier_spec(draw):
    one = draw(region_spec(shapes=([2, 3], [3, 2], [2, 2], [3, 3])))
    one['program'] = 'auto'
    n = one['shape'][0] * one['shape'][1]
    pairs = st.tuples(st.integers(1, min(n, 3)), st.integers(0, 4))
    one['solvers'] = [dict(kind='kmedoids', k=k, seed=seed, test=None, error=None, param=None)
                      for k, seed in draw(st.lists(pairs, min_size=draw(st.sampled_from([2, 1])), max_size=2, unique=True))]
    test, error = draw(st.sampled_from(TESTS[:4])), draw(st.sampled_from([None] + ERRORS))
    for args in one['solvers']:
        args.update(test=test, error=error)
    one['choices'] = list(draw(gen.noise(3 * n)))
    # the sources of the past have at least the samples the classifier needs
    one['longer'] = draw(st.lists(st.sampled_from([0, 3, -2, 7]), min_size=2, max_size=2))
    one['other_scaled'] = draw(st.booleans())
    one['queries'] = []
    for _ in range(draw(st.integers(1, 2))):
        one['queries'].append(dict(rectangle=draw(gen.large_rectangle(*one['shape']) | gen.rectangle(*one['shape'])),
                                   source=draw(st.sampled_from([None, 0, 1])), suite=draw(st.sampled_from(['mine', 'yours']))))
    return one


def run_classifier(spec, ctx):
    from experiments.metadata.arima_clustering import AutoArimaCluster
    from spta.arima import AutoArimaParams
    from spta.classifier import model as classifier_model
    from spta.clustering.kmedoids import kmedoids_metadata_generator
    with scratch_dir():
        solvers = [effective('auto', args) for args in spec['solvers']]
        worlds = []
        for i, solver in enumerate(solvers):
            one = dict(spec, train=spec['t'] - solver['test'], test=solver['test'], trainer='auto', params=None,
                       error=solver['error'], refit=False,
                       clustering=dict(kind='kmedoids', k=solver['k'], seed=solver['seed'], mode='lite'))
            worlds.append(LabelWorld(one, install=i == 0))
            worlds[-1].find_partition()
        world = worlds[0]
        commands.forget()
        commands.REGIONS['place'] = lambda: world.region_metadata
        commands.AUTO['tiny'] = lambda: AutoArimaParams(*TINY)
        counts = sorted({s['k'] for s in solvers})
        for name in ('mine', 'yours'):
            commands.AUTO_CLUSTERS[name] = lambda name=name: AutoArimaCluster('tiny', 'kmedoids', name, 'dtw')
            commands.KMEDOIDS[name] = lambda: kmedoids_metadata_generator(k_values=counts, seed_values=[0])
        sources = s05.sources_of(world)
        for i in range(2):
            commands.REGIONS['other{}'.format(i)] = lambda i=i: sources[i + 1][0]
        for args in spec['solvers']:
            words = ['train'] + arguments('auto', args)
            words[2] = 'tiny'
            commands.call(PROGRAMS['auto'], 'processRequest', words)
        meaning = {}
        for each in worlds:
            for index, medoid in enumerate(each.medoids):
                meaning['{}-{}-{}'.format(each.spec['clustering']['k'], each.spec['clustering']['seed'], index)] = (each, medoid)
        names, n = sorted(meaning), world.x_len * world.y_len
        labels = [[names[c % len(names)] for c in spec['choices'][i * n:(i + 1) * n]] for i in range(3)]
        stand_in = s05.StandIn([data for _, data in sources], labels)
        commands.load('experiments.classifier.solver_dnn')
        real = classifier_model.ClassifierDNN
        classifier_model.ClassifierDNN = lambda *args, **kwargs: stand_in
        several = False
        try:
            for query in spec['queries']:
                words = ['place', query['suite'], 'dnn'] + query['rectangle'] + ['--log', 'WARN']
                words += ['--tf', spec['solvers'][0]['test']] if spec['solvers'][0]['test'] is not None else []
                words += ['--error', spec['solvers'][0]['error']] if spec['solvers'][0]['error'] else []
                words += ['--out-of-sample', 'other{}'.format(query['source'])] if query['source'] is not None else []
                clear_tables()
                before = s04.tables()
                output = commands.blocks(commands.call('experiments.classifier.solver_dnn', 'call_parser', words))
                x1, x2, y1, y2 = query['rectangle']
                data = sources[0 if query['source'] is None else query['source'] + 1][1]
                wanted, forecasts, errors = {}, {}, {}
                for x in range(x1, x2):
                    for y in range(y1, y2):
                        label = stand_in.label(data[len(data) - 15:, x, y])
                        each, medoid = meaning[label]
                        values = np.array(each.model_forecast(medoid, world.spec['test'], False))
                        if spec['scaled']:
                            values = world.mins[x, y] + values * (world.maxs[x, y] - world.mins[x, y])
                        wanted[x - x1, y - y1], forecasts[x, y] = label, values
                        errors[x, y] = m05.reference(world.spec['error'], values, world.test_series((x, y)),
                                                     world.data[:world.spec['train'], x, y])
                result, asked, want = expectation(world, query['rectangle'], world.spec['test'], 0, forecasts.get, errors.get,
                                                  world.spec['error'], 'classifier')
                want.suite_labels = wanted
                printed = [lines for lines in output if lines[0].startswith('Point')]
                require(len(printed) == len(want.points), '{}: {} points printed', words, len(printed))
                for p in want.points:
                    s04.check_lines(result, asked, Printed(printed, want.points), want, p)
                files = [f for f in s04.tables() if f not in before and f.endswith('.csv')]
                require(len(files) == 2 and all(f.startswith('./outputs/') for f in files), '{}: tables {}', words, files)
                contents = sorted([s04.read(f) for f in files], key=lambda rows: rows[0][0] != 'Point')
                suite = kmedoids_metadata_generator(k_values=counts, seed_values=[0])
                suite.identifier = query['suite']
                s04.check_tables(result, asked, want, None, suite, *contents)
                several = several or len({repr(meaning[label]) for label in wanted.values()}) >= 2
        finally:
            classifier_model.ClassifierDNN = real
    ctx.nontrivial(several)
    ctx.tag('solvers:{}'.format(len(worlds)), 'scaled' if spec['scaled'] else 'unscaled', world.spec['error'],
            *['own past' if q['source'] is None else 'other past' for q in spec['queries']])


SUBS = [Sub('solvers', spec, run, quick=120, thorough=2400, shards=(4, 8)),
        Sub('auto', lambda: spec(programs=('auto',)), run, quick=12, thorough=240, shards=(4, 8), case_timeout=600),
        Sub('each', each_spec, run_each, quick=60, thorough=1200, shards=(2, 8)),
        Sub('each-auto', lambda: each_spec(programs=('auto',), shapes=([2, 2], [1, 3], [3, 1])), run_each, quick=12, thorough=200,
            shards=(4, 8), case_timeout=600),
        Sub('classifier', classifier_spec, run_classifier, quick=20, thorough=400, shards=(4, 8), case_timeout=600)]
