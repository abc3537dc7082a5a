'''What figures contain when they are saved or shown, without writing image files.'''
import contextlib

import numpy as np


class Axes(object):
    '''Plain data of the parts of one subplot.'''

    def __init__(self, ax):
        from matplotlib import colors
        self.title = ax.get_title()
        self.xlabel, self.ylabel = ax.get_xlabel(), ax.get_ylabel()
        self.images = [np.array(i.get_array()) for i in ax.images]
        self.lines = [(np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float),
                       colors.to_rgba(l.get_color()), l.get_marker(), l.get_linestyle()) for l in ax.lines]
        self.rectangles = [(p.get_x(), p.get_y(), p.get_width(), p.get_height(), p.get_edgecolor(), p.get_fill())
                           for p in ax.patches if hasattr(p, 'get_width')]
        self.areas = [([np.array(path.vertices) for path in c.get_paths()], tuple(c.get_facecolor()[0]) if len(c.get_facecolor()) else None)
                      for c in ax.collections]
        self.texts = [t.get_text() for t in ax.texts]
        self.xlim, self.ylim = ax.get_xlim(), ax.get_ylim()


class Figure(object):
    def __init__(self, fig, path=None):
        self.path = path
        self.title = fig._suptitle.get_text() if getattr(fig, '_suptitle', None) is not None else ''
        self.axes = [Axes(ax) for ax in fig.axes]


class Seen(object):
    def __init__(self):
        self.saved, self.shown = [], []

    def at(self, path):
        '''The last figure saved there.'''
        found = [f for f in self.saved if f.path == path]
        return found[-1] if found else None


@contextlib.contextmanager
def watch():
    '''Figures saved (an empty file is written in their place) and shown in the block.'''
    from matplotlib import figure, pyplot as plt
    seen = Seen()
    savefig, show = figure.Figure.savefig, plt.show

    def save(self, fname, *args, **kwargs):
        with open(fname, 'wb'):
            pass
        seen.saved.append(Figure(self, str(fname)))

    def display(*args, **kwargs):
        seen.shown.extend(Figure(plt.figure(number)) for number in plt.get_fignums())

    figure.Figure.savefig, plt.show = save, display
    plt.close('all')
    try:
        yield seen
    finally:
        figure.Figure.savefig, plt.show = savefig, show
        plt.close('all')
