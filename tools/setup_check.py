"""setup: verifies that the working tree can be imported from /repo by the interpreter used by the checks"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc.core import import_hickle
try:
    h = import_hickle()
    print('hickle', h.__version__, 'from', os.path.dirname(h.__file__))
except SystemExit:
    raise
except BaseException as e:  # reported by the checks themselves
    print('importing hickle failed: %r' % (e,))
