"""Names of /repo's public functions no property module mentions."""
import ast, glob, os, re
src = ''.join(open(f).read() for f in glob.glob('/verif/vf/props/*.py')) + open('/verif/vf/draw.py').read()
for f in sorted(glob.glob('/repo/pythonbmp/*.py')):
    ns = [n.name for n in ast.parse(open(f).read()).body if isinstance(n, ast.FunctionDef)]
    miss = [n for n in ns if not re.search(r'\b%s\b' % n, src)]
    print(os.path.basename(f), len(ns), len(miss), ' '.join(miss))
