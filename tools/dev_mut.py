"""dev_mut.py COV.json OUT.jsonl [--per N] [--file F] [--func REGEX] [--budget SECONDS]

Development aid: changes one expression of the library at a time in memory
(in a forked child: the code object of the function is replaced) and runs the
stages known to reach that line, in order of speed, until a check reports a
violation.  What survives is written with its source line.
"""
import ast, copy, importlib, json, multiprocessing, os, random, re, sys, time, types, gc, signal
os.environ['PYTHONHASHSEED'] = '0'
sys.dont_write_bytecode = True
sys.path.insert(0, '/verif')
sys.path.insert(0, '/repo')
from pythonbmp import BITMAPlib
import pythonbmp
from vf import core
PK = '/repo/pythonbmp/'
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.Div: [ast.FloorDiv, ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd, ast.BitXor], ast.BitXor: [ast.BitOr], ast.Pow: [ast.Mult]}


def guarded(fn):
    """changes of one argument under a rare condition: as sites()"""
    body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
    k0 = len(fn.body) - len(body)
    ar = [a for a in [*fn.args.posonlyargs, *fn.args.args] if a.arg != 'self']
    names = [a.arg for a in ar]
    ints = [a.arg for a in ar if isinstance(a.annotation, ast.Name) and a.annotation.id in ('int', 'float')]
    other = [a.arg for a in ar if a.arg not in ints and a.arg not in ('bmp', 'self')]
    out = []

    def add(cond, act):
        code = f'if {cond}:\n    {act}'

        def f(m, code=code):
            m.body.insert(k0, ast.parse(code).body[0])
        out.append((body[0].lineno, code.replace('\n   ', ''), 0, f))
    for n in ints:
        t = f'type({n}) in (int, float)'
        for c in ('> 12', '> 40', '> 100', '> 255', '< 0', '== 0', '== 1', '% 8 == 7', '% 2 == 1', '< -40'):
            add(f'{t} and {n} {c}', f'{n} += 1')
            if 'bmp' in names:
                add(f'{t} and {n} {c} and bmp[28] == 4', f'{n} -= 1')
                add(f'{t} and {n} {c} and bmp[28] == 1', f'{n} += 1')
        for q in ints:
            if q != n:
                add(f'{t} and {n} == {q}', f'{n} += 1')
                add(f'{t} and {n} - {q} > 30', f'{n} -= 1')
                add(f'{t} and {n} < {q} - 1', f'{n} += 1')
    for n in other:
        t = f'type({n}) in (list, tuple, str)'
        add(f'{t} and len({n}) > 5', f'{n} = {n}[:-1]')
        add(f'{t} and len({n}) > 12', f'{n} = {n}[1:]')
        add(f'{t} and len({n}) == 1', f'{n} = {n} + {n}')
        add(f'{t} and len({n}) == 2 and {n}[0] == {n}[1]', f'{n} = {n}[:1] + type({n})(({n}[1], ))' if 0 else f'{n} = {n}[:1] * 3')
        add(f'{t} and len({n}) > 1 and type({n}[0]) in (int, float) and {n}[0] > {n}[1]', f'{n} = type({n})(reversed({n}))')
        add(f'{t} and len({n}) > 1 and type({n}[0]) in (int, float) and {n}[0] < 0', f'{n} = type({n})([0, *{n}[1:]])')
    return out


def sites(fn):
    """mutations of one function: (line, description, apply(tree copy))"""
    if '--guarded' in sys.argv:
        return guarded(fn)
    nodes = list(ast.walk(fn))
    out = []

    def add(i, desc, f):
        out.append((getattr(nodes[i], 'lineno', fn.lineno), desc, i, f))
    body = fn.body[1:] if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else fn.body
    skip = {id(x) for d in [*fn.decorator_list, fn.args, *( [fn.returns] if fn.returns else []), *fn.body[:len(fn.body) - len(body)]] for x in ast.walk(d)}
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for k, o in enumerate(n.ops):
                if type(o) in CMP:
                    add(i, f'{type(o).__name__}->{CMP[type(o)].__name__}', lambda m, k=k, o=o: m.ops.__setitem__(k, CMP[type(o)]()))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            for b in BIN[type(n.op)]:
                add(i, f'{type(n.op).__name__}->{b.__name__}', lambda m, b=b: setattr(m, 'op', b()))
        elif isinstance(n, ast.BoolOp):
            add(i, 'and<->or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            add(i, 'drop last operand', lambda m: m.values.__setitem__(-1, copy.deepcopy(m.values[0])))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)) :
            add(i, 'negate condition', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test)))
            if isinstance(n, ast.If):
                add(i, 'condition True', lambda m: setattr(m, 'test', ast.Constant(True)))
                add(i, 'condition False', lambda m: setattr(m, 'test', ast.Constant(False)))
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            add(i, f'{n.value}->{n.value + 1}', lambda m: setattr(m, 'value', m.value + 1))
            if n.value:
                add(i, f'{n.value}->{n.value - 1}', lambda m: setattr(m, 'value', m.value - 1))
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(i, 'not bool', lambda m: setattr(m, 'value', not m.value))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            add(i, 'drop minus', lambda m: setattr(m, 'op', ast.UAdd()))
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
            for k in range(len(n.args) - 1):
                if ast.dump(n.args[k]) != ast.dump(n.args[k + 1]):
                    add(i, f'swap args {k},{k + 1}', lambda m, k=k: m.args.__setitem__(slice(k, k + 2), [m.args[k + 1], m.args[k]]))
        elif isinstance(n, ast.Slice) and n.step is None and n.upper is not None:
            pass
        for field in ('body', 'orelse'):
            b = getattr(n, field, None)
            if isinstance(b, list) and n is not fn or (n is fn and field == 'body'):
                b = b if n is not fn else body
                for s in b:
                    if isinstance(s, (ast.Expr, ast.AugAssign, ast.Assign, ast.Continue, ast.Break, ast.Return)) and not (isinstance(s, ast.Return) and s is fn.body[-1]) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        j = next(q for q, z in enumerate(nodes) if z is s)
                        add(j, 'delete ' + type(s).__name__, None)
    return out


class Drop(ast.NodeTransformer):
    def __init__(self, t):
        self.t = t

    def visit(self, n):
        if n is self.t:
            return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)


def codes(c, pre=''):
    """top level and nested code objects by position"""
    out = {}
    k = 0
    for x in c.co_consts:
        if isinstance(x, types.CodeType):
            out[pre + f'/{k}'] = x
            k += 1
    return out


def find(code, name, line):
    for x in code.co_consts:
        if isinstance(x, types.CodeType) and x.co_name == name and abs(x.co_firstlineno - line) <= 12:
            return x


def replace(fname, fn, mutated):
    """put the mutated code into every function object made from fn"""
    mod = ast.Module([mutated], [])
    ast.fix_missing_locations(mod)
    mutated.decorator_list = []
    c = compile(mod, PK + fname, 'exec')
    new = find(c, fn.name, fn.lineno)
    old = find(compile(LINES_ALL[fname], PK + fname, 'exec'), fn.name, fn.lineno)
    pairs = {}

    def pair(o, q):
        pairs[(o.co_qualname, o.co_firstlineno)] = q
        a = [x for x in o.co_consts if isinstance(x, types.CodeType)]
        b = [x for x in q.co_consts if isinstance(x, types.CodeType)]
        if len(a) == len(b):
            for x, y in zip(a, b):
                pair(x, y)
    pair(old, new)
    n = 0
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename == PK + fname:
            q = pairs.get((o.__code__.co_qualname, o.__code__.co_firstlineno))
            if q is not None and len(o.__code__.co_freevars) == len(q.co_freevars):
                o.__code__ = q
                n += 1
    return n


def job(a):
    fname, fi, si, stages, budget, scale = a
    tree = TREES[fname]
    fn = FUNCS[fname][fi]
    line, desc, ni, f = sites(fn)[si]
    src = LINES[fname][line - 1].strip()[:100]
    res = {'file': fname, 'func': fn.name, 'line': line, 'mut': desc, 'src': src, 'site': si}
    pid = os.fork()
    if pid:
        t = time.time()
        while time.time() - t < budget + 60:
            p, st = os.waitpid(pid, os.WNOHANG)
            if p:
                break
            time.sleep(.02)
        else:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
            res['by'] = 'hang'
            return res
        try:
            with open(f'/tmp/mut/r.{pid}') as g:
                res.update(json.load(g))
            os.unlink(f'/tmp/mut/r.{pid}')
        except OSError:
            res['by'] = 'died'
        return res
    # child
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        m = copy.deepcopy(fn)
        node = list(ast.walk(m))[ni]
        if '--guarded' in sys.argv:
            f(m)
        elif f is None:
            m = Drop(node).visit(m)
        else:
            f(node)
        if not replace(fname, fn, m):
            out = {'by': 'unreplaced'}
        else:
            out = run(stages, budget, scale)
    except BaseException as e:
        out = {'by': f'tool {type(e).__name__} {e}'}
    with open(f'/tmp/mut/r.{os.getpid()}', 'w') as g:
        json.dump(out, g)
    os._exit(0)


def run(stages, budget, scale):
    t0 = time.time()
    tot = 0
    sys.stderr = open('/dev/null', 'w')
    for pid, si in stages:
        mod = importlib.import_module(f'vf.props.{pid.lower()}')
        st = mod.STAGES[si]
        st.limit = 10
        ctx = core.Ctx(pid, 'quick', 1)
        ts = time.time()
        with core.quiet():
            for i in range(int(st.quick * scale)):
                tot += 1
                r = core.run_case(ctx, st, i, 1)
                if r:
                    return {'by': f'{pid}/{st.name}/{r[0]}', 'cases': tot}
                if time.time() - ts > 25 or time.time() - t0 > budget:
                    break
        if time.time() - t0 > budget:
            break
    return {'by': None, 'cases': tot, 'secs': round(time.time() - t0, 1), 'stages': [f'{p}:{s}' for p, s in stages]}


TREES, FUNCS, LINES, LINES_ALL = {}, {}, {}, {}
if __name__ == '__main__':
    av = sys.argv

    def opt(k, d):
        return av[av.index(k) + 1] if k in av else d
    per = int(opt('--per', 4))
    budget = float(opt('--budget', 40))
    scale = float(opt('--scale', 1))
    only = opt('--file', None)
    rx = re.compile(opt('--func', '.'))
    seed = int(opt('--seed', 1))
    d = json.load(open(av[1]))
    cov, speed = d['cov'], d['speed']
    for f in sorted(os.listdir('/verif/vf/props')):
        if f.startswith('p') and f.endswith('.py'):
            importlib.import_module('vf.props.' + f[:-3])
    jobs = []
    rng = random.Random(seed)
    retry = {}
    if '--retry' in av:
        for l in open(opt('--retry', '')):
            r = json.loads(l)
            if r.get('by') is None or r['by'].startswith(('tool', 'unrep', 'died')):
                retry.setdefault((r['file'], r['func']), []).append(r['site'])
    for f in sorted(os.listdir(PK)):
        if not f.endswith('.py') or (only and f != only):
            continue
        s = open(PK + f).read()
        TREES[f] = ast.parse(s)
        LINES[f] = s.splitlines()
        LINES_ALL[f] = s
        FUNCS[f] = [n for n in TREES[f].body if isinstance(n, ast.FunctionDef)]
        for fi, fn in enumerate(FUNCS[f]):
            if not rx.search(fn.name):
                continue
            all_ = sites(fn)
            pickd = list(range(len(all_)))
            if '--retry' in av:
                pickd = retry.get((f, fn.name), [])
            elif len(pickd) > per:
                pickd = rng.sample(pickd, per)
            for si in pickd:
                line = all_[si][0]
                hit = cov.get(f, {}).get(str(line))
                if not hit:     # statement that starts above
                    for l in range(line, fn.lineno, -1):
                        hit = cov.get(f, {}).get(str(l))
                        if hit:
                            break
                if not hit:
                    continue
                st = sorted((h for h in hit), key=lambda h: speed[h])
                jobs.append((f, fi, si, [(h.split(':')[0], int(h.split(':')[1])) for h in st], budget, scale))
    rng.shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    random.shuffle(jobs)
    t0 = time.time()
    n = k = 0
    from multiprocessing.pool import ThreadPool
    ctxm = multiprocessing.get_context('fork')
    with ctxm.Pool(8) as p, open(av[2], 'a') as g:
        for r in p.imap_unordered(job, jobs, 1):
            n += 1
            if r.get('by') is None or r['by'].startswith(('tool', 'unrep', 'died')):
                k += 1
            g.write(json.dumps(r) + '\n')
            g.flush()
            if n % 200 == 0:
                print(n, k, round(time.time() - t0), flush=True)
    print(n, 'done', k, 'not caught', round(time.time() - t0))
