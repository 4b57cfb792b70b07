"""usage: mkseed.py seeds_file.py  -- file defines SEEDS list of dicts(id, prop, edits[(file, old, new)], needs, breaks, demo)"""
import sys, os, subprocess, json, runpy, shutil
S = runpy.run_path(sys.argv[1])['SEEDS']
only = sys.argv[2:]
R='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh('git -C /repo status --short').stdout.strip()
B=None
for s in S:
    if only and s['id'] not in only: continue
    D=f'/verif/seeded/{s["id"]}'
    os.makedirs(D, exist_ok=True)
    try:
        for e in s['edits']:
            f, old, new = e[0], e[-2], e[-1]
            p=f'{R}/{f}'; t=open(p).read()
            a, b = 0, len(t)
            if len(e) == 4:
                import ast
                n = next(n for n in ast.parse(t).body if isinstance(n, ast.FunctionDef) and n.name == e[1])
                ls = t.splitlines(True)
                a = len(''.join(ls[:min([n.lineno] + [q.lineno for q in n.decorator_list]) - 1])); b = len(''.join(ls[:n.end_lineno]))
            assert t[a:b].count(old)==1, (s['id'], f, t[a:b].count(old), old)
            open(p,'w').write(t[:a]+t[a:b].replace(old,new)+t[b:])
        d=sh('git -C /repo diff -U0').stdout
        import re
        own=0; orig=0
        cur=None
        for l in d.splitlines():
            if l.startswith('--- a/'): cur=l[6:]
            m=re.match(r'@@ -(\d+)(?:,(\d+))?', l)
            if m and m[2] != '0':
                bl=sh(f'git -C /repo blame -s -L {m[1]},+{m[2] or 1} HEAD -- {cur}').stdout
                for q in bl.splitlines():
                    if q.startswith('^') or q.startswith('8a472d6'): orig+=1
                    else:
                        h=q.split()[0]
                        if sh(f'git -C /repo merge-base --is-ancestor {h} 8a472d6').returncode==0: orig+=1
                        else: own+=1
        if own or not orig: print('   BLAME own', own, 'orig', orig)
        d=sh('git -C /repo diff').stdout
        open(f'{D}/patch.diff','w').write(d)
        open(f'{D}/demo.py','w').write(s['demo'].lstrip())
        open(f'{D}/demo.sh','w').write('''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" exec timeout 200 /opt/venv/bin/python "$here/demo.py"
''')
        os.chmod(f'{D}/demo.sh',0o755)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']}, open(f'{D}/meta.json','w'), indent=1)
        r=sh(f'{D}/demo.sh', cwd=R); 
        bad='PATCHED DEMO PASSES' if r.returncode==0 else 'demo-ok:'+ (r.stderr or r.stdout).strip().splitlines()[-1][:120]
        t=sh('/tmp/t.sh').stdout.splitlines()
        tb=[l for l in t if l.startswith('baseline')]
        c=sh(f'/opt/venv/bin/python run.py {s["prop"]} --quick', cwd='/verif', env=dict(os.environ,VERIF_SEED='1'))
        v=[l for l in c.stdout.splitlines() if l.startswith(('VIOLATION','  stage'))]
        print(s['id'], '|', bad, '|', tb[0][tb[0].index('broken'):][:200] if tb else t, '| CHECK', c.returncode, (v[1][:200] if len(v)>1 else c.stdout[-200:]+c.stderr[-300:]))
    finally:
        sh('git -C /repo checkout -- .')
    r=sh(f'{D}/demo.sh', cwd=R)
    if r.returncode: print('   CLEAN DEMO FAILS', r.stdout[-300:], r.stderr[-500:])
    sys.stdout.flush()
