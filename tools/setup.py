'''Nothing is installed: verifies that everything the checks import is there.'''
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check  # noqa: E402

check.setup_paths()
import hypothesis  # noqa: E402
import numpy  # noqa: E402
import spta.region.temporal  # noqa: E402
print('hypothesis', hypothesis.__version__, 'numpy', numpy.__version__, 'spta from', spta.__path__[0])
