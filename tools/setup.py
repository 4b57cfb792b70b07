"""Nothing to build (pure Python): check that the interpreter can import the
framework and the library from the working tree, leaving no files behind."""
import os
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.environ.get('VERIF_REPO', '/repo')]
from vf import core, model, gen, monitor, draw      # noqa
import pythonbmp.BITMAPlib as L                     # noqa
print('library under test:', L.__file__)
