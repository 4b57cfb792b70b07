#!/opt/venv/bin/python
"""run.py <property id> [--thorough|--quick] [--stage S] [--replay FILE]"""
import importlib
import os
import sys

os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))

if __name__ == '__main__':
    from vf import core
    mod = importlib.import_module(f'vf.props.{sys.argv[1].lower()}')
    import pythonbmp
    where = os.path.abspath(pythonbmp.__file__ or '')
    if not where.startswith(core.REPO + os.sep):
        print('wrong library under test:', where)
        sys.exit(4)
    sys.exit(core.run_property(mod, sys.argv[2:]))
