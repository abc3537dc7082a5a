'''Runs the command-line programs of the repository inside a case: in process, on described regions, output captured.'''
import contextlib
import importlib
import io
import logging
import re
import sys

import numpy as np

from .core import Violation

# What is described in addition to what experiments.metadata predefines, by identifier: a function of what to describe.
REGIONS, KMEDOIDS, REGULAR, ARIMA, AUTO, ARIMA_CLUSTERS, AUTO_CLUSTERS = ({} for _ in range(7))
_PLACES = (('region', 'predefined_regions', REGIONS), ('clustering', 'kmedoids_suites', KMEDOIDS),
           ('clustering', 'regular_suites', REGULAR), ('arima', 'predefined_arima_suites', ARIMA),
           ('arima', 'predefined_auto_arima', AUTO),
           ('arima_clustering', 'experiments_for_arima_with_clusters', ARIMA_CLUSTERS),
           ('arima_clustering', 'auto_arima_clustering_experiments', AUTO_CLUSTERS))


def _describe(module, name, more):
    '''Before any program is imported: they have the described functions, however they refer to them.'''
    original = getattr(module, name)
    if not hasattr(original, 'vk'):
        def described():
            return dict(original(), **{key: make() for key, make in more.items()})
        described.vk = True
        setattr(module, name, described)


def forget():
    for _, _, more in _PLACES:
        more.clear()


def load(name):
    for module, function, more in _PLACES:
        _describe(importlib.import_module('experiments.metadata.' + module), function, more)
    return importlib.import_module(name)


class Failed(Exception):
    '''The program ended with an error: exit status or exception.'''


class _Keep(logging.Handler):
    def __init__(self, kept):
        super(_Keep, self).__init__()
        self.kept = kept

    def emit(self, record):
        self.kept.append((record.levelno, record.getMessage()))


@contextlib.contextmanager
def quiet(logs=None):
    '''Nothing is logged; messages are kept in the list of logs instead, if there is one.'''
    options = np.get_printoptions()
    root = logging.getLogger()
    level, handlers, disabled = root.level, list(root.handlers), root.manager.disable
    if logs is None:
        logging.disable(logging.CRITICAL)
    else:
        logging.disable(logging.NOTSET)
        root.handlers[:] = [_Keep(logs)]
        root.setLevel(logging.INFO)
    try:
        yield
    finally:
        logging.disable(disabled)
        root.setLevel(level)
        root.handlers[:] = handlers
        np.set_printoptions(**options)
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')


def call(module, main, arguments, logs=None):
    '''Standard output of the program with these arguments; Failed when it ends with an error.'''
    program = load(module)
    arguments = [str(a) for a in arguments]
    out, err, argv = io.StringIO(), io.StringIO(), sys.argv
    sys.argv = [module.split('.')[-1]] + arguments
    try:
        with quiet(logs), contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            getattr(program, main)()
    except SystemExit as exc:
        if exc.code not in (None, 0):
            raise Failed('{} {}: exit {}: {}'.format(module, ' '.join(arguments), exc.code, err.getvalue()[-300:]))
    except (Violation, MemoryError):
        raise
    except Exception as exc:
        raise Failed('{} {}: {}: {}'.format(module, ' '.join(arguments), type(exc).__name__, exc)) from exc
    finally:
        sys.argv = argv
    return out.getvalue()


def blocks(output):
    '''The texts between lines of stars, as lists of lines; long arrays are printed over several lines.'''
    found = []
    for text in re.split(r'^\*+$', output, flags=re.M):
        lines = []
        for line in text.split('\n'):
            if not line.strip():
                continue
            if lines and line.startswith(' '):
                lines[-1] += line
            else:
                lines.append(line)
        if lines:
            found.append(lines)
    return found
