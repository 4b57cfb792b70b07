"""dev_cov.py OUT.json [cases]: which stage of which check runs which line of the library (development aid)."""
import importlib, json, multiprocessing, os, random, sys, time
os.environ['PYTHONHASHSEED'] = '0'
sys.dont_write_bytecode = True
sys.path.insert(0, '/verif')
sys.path.insert(0, '/repo')
import pythonbmp
from pythonbmp import BITMAPlib
from vf import core
PK = '/repo/pythonbmp/'


def one(a):
    pid, si, n = a
    m = importlib.import_module(f'vf.props.{pid.lower()}')
    st = m.STAGES[si]
    mon = sys.monitoring
    mon.use_tool_id(5, 'cov')
    hit = set()

    def line(code, ln):
        if code.co_filename.startswith(PK):
            hit.add((code.co_filename[len(PK):], ln))
        return mon.DISABLE
    mon.register_callback(5, mon.events.LINE, line)
    mon.set_events(5, mon.events.LINE)
    ctx = core.Ctx(pid, 'quick', 1)
    t = time.time()
    bad = 0
    with core.quiet():
        for i in range(min(n, st.quick)):
            if core.run_case(ctx, st, i, 1):
                bad += 1
            if time.time() - t > 60:
                break
    return pid, si, st.name, (time.time() - t) / (i + 1), bad, sorted(hit)


if __name__ == '__main__':
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 150
    jobs = []
    for f in sorted(os.listdir('/verif/vf/props')):
        if f.startswith('p') and f.endswith('.py'):
            m = importlib.import_module('vf.props.' + f[:-3])
            jobs += [(m.PID, si, n) for si in range(len(m.STAGES))]
    cov, speed = {}, {}
    with multiprocessing.get_context('fork').Pool(8, maxtasksperchild=1) as p:
        for pid, si, name, t, bad, hit in p.imap_unordered(one, jobs, 1):
            speed[f'{pid}:{si}'] = t
            if bad:
                print('bad', pid, name, bad)
            for f, l in hit:
                cov.setdefault(f, {}).setdefault(l, []).append(f'{pid}:{si}')
    json.dump({'cov': cov, 'speed': speed}, open(sys.argv[1], 'w'))
    # what nothing runs
    import ast
    for f in sorted(os.listdir(PK)):
        if not f.endswith('.py'):
            continue
        tree = ast.parse(open(PK + f).read())
        c = cov.get(f, {})
        out = []
        tot = hitn = 0
        for fn in ast.walk(tree):
            if not isinstance(fn, ast.FunctionDef):
                continue
            body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
            lines = {s.lineno for b in body for s in ast.walk(b) if isinstance(s, ast.stmt)}
            miss = sorted(l for l in lines if l not in c)
            tot += len(lines)
            hitn += len(lines) - len(miss)
            if miss:
                out.append(f'{fn.name}:{",".join(map(str, miss[:8]))}{"*" if len(miss) == len(lines) else ""}')
        print(f'{f} {hitn}/{tot}', ' '.join(out))
