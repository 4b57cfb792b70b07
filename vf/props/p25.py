"""P25 fractal iteration values, domains, recursive curves, function systems and attractors."""
import cmath
import math
from pythonbmp import fractals as F
from pythonbmp import primitives2D as PR
from .. import gen
from ..core import Stage, Violation
from ..monitor import call

PID = 'P25'
RULE = ('one case = one fractal function on one set of parameters at several points, or one grid, curve, function system or attractor; every value is compared with the '
        'iteration written out independently; distinct = distinct functions, parameters and points')
ASSUMPTIONS = ['where the value of a point, or its iteration on the way there, changes notably under a relative change of 1e-12 of the point (chaotic boundary) any value is accepted',
               'powers with exponents of at least one; bounds at which the iteration stays within floating point']


ORB = []      # points of the iteration that ran last


def esc(f, z, n, out):
    for i in range(n):
        z = f(z)
        ORB.append(z)
        if out(z):
            return i
    return n


def o2(z):
    return abs(z) > 2


def acc(f, z, n, lim, mod, g):
    """limit on a running sum"""
    s = 0
    for i in range(lim):
        z = f(z)
        ORB.append(z)
        s += g(z)
        if abs(s) > lim:
            return i % mod
    return mod


def bio(f):
    def h(P, Q, c, d, n, a=5):
        z = complex(P, Q)
        for i in range(n):
            z = f(z, d) + c
            ORB.append(z)
            m = (abs(z.real) > a) + (abs(z.imag) > a)
            if m:
                return i if m == 2 else n
        return n
    return h


def tet(P, Q, d, n):
    z, s = complex(P, Q), 0
    for i in range(d):
        try:
            z = z ** z
        except OverflowError:
            return i % n
        ORB.append(z)
        s += z.imag
        if abs(s) > d:
            return i % n
    return n


def variant(P, Q, c, d, n, a=5):
    z = complex(P, Q)
    for _ in range(n):
        z = z ** d + c
        ORB.append(z)
        if abs(z.real) > a or abs(z.imag) > a:
            return round(abs(z)) % n
    return n


def ngon(P, Q, c, d, n):
    z = complex(P, Q)
    for i in range(n):
        if z == 0:
            return i
        z = (z ** d + c) / z
        ORB.append(z)
        if abs(z) > 2:
            return i
    return n


def sgn(v):
    return (v > 0) - (v < 0)


# name: (oracle, parameter kinds, iterator, tuple of fixed leading parameters of the iterator)
FN = {
    'multibrot': (lambda P, Q, d, n: esc(lambda z: z ** d + complex(P, Q), 0, n, o2), 'd', 'itermultibrot'),
    'multicorn': (lambda P, Q, d, n: esc(lambda z: z.conjugate() ** d + complex(P, Q), 0j, n, o2), 'd', 'itermulticorn'),
    'multijulia': (lambda P, Q, c, d, n: esc(lambda z: z ** d + c, complex(P, Q), n, o2), 'cd', 'itermultijulia'),
    'lambdafn': (lambda P, Q, c, n: esc(lambda z: c * z * (1 - z), complex(P, Q), n, o2), 'c', 'iterlamdbafractal'),
    'spiraljulia': (lambda P, Q, c, n: esc(lambda z: cmath.tan(z * z + c), complex(P, Q), n, o2), 'c', 'iterspiraljulia'),
    'barnsleytree': (lambda P, Q, c, n: esc(lambda z: c * (z - sgn(z.real)), complex(P, Q), n, o2), 'c', 'iterbarnsleytree'),
    'sinjulia': (lambda P, Q, c, n, lim=50: acc(lambda z: c * cmath.sin(z), complex(P, Q), n, lim, n, lambda z: z.imag), 'c', 'itersinjulia'),
    'cosjulia': (lambda P, Q, c, n, lim=50: acc(lambda z: c * cmath.cos(z), complex(P, Q), n, lim, n, lambda z: z.imag), 'c', 'itercosjulia'),
    'marekdragon': (lambda P, Q, u, n, lim=65: acc(lambda z: z * (u + z), complex(P, Q), n, lim, n, lambda z: abs(z.imag)), 'u', 'itermarekdragon'),
    'tetrationfn': (tet, 't', 'itertetration'),
    'ngonfunc': (ngon, 'fe', 'iterngonfractal'),
    'multicircle': (lambda P, Q, d, n: round(math.hypot(P, Q) ** d) % n, 'd', 'itermulticircle'),
    'multihyperbola': (lambda P, Q, d, n: round(abs(P ** d - Q ** d)) % n, 'd', 'itermultihyperbola'),
    'multisuperellipse': (lambda P, Q, d, n: abs(P ** d + Q ** d) % n, 'd', 'itermultisuperellipse'),
    'astroid': (lambda P, Q, r, n: round(abs((P * P + Q * Q - r * r) ** 3 + 27 * (P * Q * r) ** 2)) % n, 'r', 'iterastroid'),
    'lemniscate': (lambda P, Q, r, n: math.floor(abs((P * P + Q * Q) ** 2 - 2 * r * r * (P * P - Q * Q))) % n, 'r', 'iterlemniscate'),
    'xorfn': (lambda P, Q, d, n: (math.trunc(P) ^ math.trunc(Q)) % d % n, 't', 'iterxorfractal'),
    'xordivfn': (lambda P, Q, d, n: (math.trunc(P) ^ math.trunc(Q)) // d % n, 't', 'iterxordivfractal'),
    'multibiomorph': (bio(lambda z, d: z ** d), 'cd', 'itermultibiomorph'),
    'multibiomorphphasevariant': (bio(lambda z, d: z ** (d + abs(cmath.phase(z)))), 'cd', 'itermultibiomorphphasevariant'),
    'multisinbiomorph': (bio(lambda z, d: cmath.sin(z) + z ** d), 'cd', 'itermultisinbiomorph'),
    'multicosbiomorph': (bio(lambda z, d: cmath.cos(z) + z ** d), 'cd', 'itermulticosbiomorph'),
    'multisinhbiomorph': (bio(lambda z, d: cmath.sinh(z) + z ** d), 'cd', 'itermultisinhbiomorph'),
    'multicoshbiomorph': (bio(lambda z, d: cmath.cosh(z) + z ** d), 'cd', 'itermulticoshbiomorph'),
    'multitanbiomorph': (bio(lambda z, d: cmath.tan(z) + z ** d), 'cd', 'itermultitanbiomorph'),
    'multitanhbiomorph': (bio(lambda z, d: cmath.tanh(z) + z ** d), 'cd', 'itermultitanhbiomorph'),
    'multiexpbiomorph': (bio(lambda z, d: cmath.exp(z) + z ** d), 'cd', 'itermultiexpbiomorph'),
    'multi2ndtetrationbiomorph': (bio(lambda z, d: z ** z + z ** d), 'cd', 'itermulti2ndtetrationbiomorph'),
    'multizconjugatebiomorph': (bio(lambda z, d: z.conjugate() ** d), 'cd', 'itermultizconjugatebiomorph'),
    'multibiomorphvariant': (variant, 'cd', 'itermultibiomorphvariant'),
}
# iterators without a function of their own
ALIAS = {'itermandelbrot': ('multibrot', (2,), ''), 'itertricorn': ('multicorn', (2,), ''), 'iterjulia': ('multijulia', (2,), 'c')}
WIDE = {'multicircle', 'multihyperbola', 'multisuperellipse', 'xorfn', 'xordivfn', 'astroid', 'lemniscate'}
LIMITED = {'sinjulia': 'lim', 'cosjulia': 'lim', 'marekdragon': 'lim'}


def param(rng, kind):
    if kind == 'd':
        return rng.choice((2, 2, 3, 4, 5, 7, 2.5, 1.5, rng.uniform(1, 6)))
    if kind == 'c':
        return rng.choice((.25 + 10 ** -rng.uniform(1, 5), 1 + 10 ** -rng.uniform(1, 4) * 1j, -.70176 - .3842j, .85 - .6j, 2.2 + .33j, .6 + 1.1j, complex(rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5))))
    if kind == 'u':
        return cmath.exp(1j * rng.uniform(0, 7))
    if kind == 'f':
        return rng.choice((-1, 1, .5, -.2, rng.uniform(-1, 1)))
    if kind == 'e':
        return rng.choice((3, 4, 5, 6, 8, rng.uniform(2, 7)))
    if kind == 'r':
        return rng.choice((1, 2, 3, rng.uniform(.1, 9)))
    return rng.choice((1, 2, 13, 97, rng.randint(1, 60)))


NUDGE = ((0, 0), (1e-12, -1e-12), (-1e-12, 1e-12), (1e-12, 1e-12), (-1e-12, -1e-12), (3e-15, 2e-14), (-2e-14, 1e-13), (1e-13, -4e-15), (-5e-13, -7e-15))


def values(name, P, Q, par, n, kw=None):
    r = set()
    first = None
    for e, f in NUDGE:
        ORB.clear()
        r.add(FN[name][0](P * (1 + e), Q * (1 + f), *par, n, **(kw or {})))
        if first is None:
            first = ORB[:]
        elif len(r) == 1 and any(abs(u - v) > 1e-4 * (1 + abs(u)) for u, v in zip(first, ORB) if abs(u) < 1e100):
            # the way there depends on the last digits: the value may be the same by chance
            r |= {-1}
    if name in ('multitanbiomorph', 'multibiomorphphasevariant') or not all(isinstance(d, int) for d in par):
        # powers jump across the negative axis
        r |= {FN[name][0](P, e, *par, n, **(kw or {})) for e in (1e-300, -1e-300) if Q == 0}
    if name == 'barnsleytree':
        # a real part that cancels to nothing has sign 0, beside it 1 or -1
        r.add(esc(lambda z: par[0] * (z - (sgn(z.real) if abs(z.real) > 1e-9 else 0)), complex(P, Q), n, o2))
    if name in WIDE and name[:3] != 'xor' and FN[name][0](P, Q, *par, 10 ** 30) > 1e8:
        r |= {0, 1, 2}
    return r


def judge(ctx, name, got, ok, what, n):
    if name == 'multisuperellipse' and n > 1:
        s = max(ok) - min(ok)
        d = min(min(abs(got - w) % n, n - abs(got - w) % n) for w in ok)
        if s < .3 and d > 1e-6 + 2 * s:
            raise Violation('value', f'{what}: {got}, wanted {ok}')
        return
    if len(ok) > 1:
        ctx.count('undecided')
    elif {got} != ok:
        raise Violation('value', f'{what}: {got}, wanted {ok}')


def coord(rng, wide):
    s = rng.choice((9, 40, 200)) if wide else rng.choice((1, 2, 2, 5))
    return rng.choice((0, 1, -1, .5, rng.uniform(-s, s), rng.uniform(-s, s), rng.uniform(-s, s)))


def st_value(ctx, rng):
    name = list(FN)[rng.index % len(FN)]
    kinds = FN[name][1]
    par = [param(rng, k) for k in kinds]
    n = rng.choice((1, 2, 8, 30, 60, 255, 256, rng.randint(1, 300), rng.randint(1, 1200)))
    kw = {}
    if name in LIMITED and rng.random() < .3:
        kw = {'lim': rng.choice((1, 5, 20, 80))}
    if 'biomorph' in name and rng.random() < .3:
        kw = {'a': rng.choice((.5, 1, 3, 8, rng.uniform(.5, 9)))}
    ctx.observe(name, par, n, kw)
    for _ in range(25):
        P, Q = coord(rng, name in WIDE), coord(rng, name in WIDE)
        if name == 'multibrot' and par[0] > 1 and rng.random() < .2:
            # beside the cusp of the set: orbits that pass a near fixed point slowly
            P, Q = (par[0] - 1) * par[0] ** (-par[0] / (par[0] - 1)) + 10 ** -rng.uniform(1, 5.5), rng.choice((0, rng.gauss(0, 1e-3)))
        if name == 'multihyperbola' or name == 'multisuperellipse':
            if not isinstance(par[0], int):
                P, Q = abs(P), abs(Q)
        try:
            ok = values(name, P, Q, par, n, kw)
        except (OverflowError, ZeroDivisionError, ValueError):
            ctx.count('skipped')
            continue
        got = call(ctx, getattr(F, name), P, Q, *par, n, **kw, mutates=())[0]
        ctx.observe(name, par, P, Q, n, got)
        judge(ctx, name, got, ok, f'{name} at {P, Q} of {par} up to {n} {kw or ""}', n)


def grid(rng, wide=False):
    x1, y1 = (rng.randint(-5, 40) if rng.random() < .93 else rng.randint(-300, 900) for _ in 'xy')
    w, h = (rng.choice((1, 2, 3, gen.upto(rng, 2, 12, 50, .02))) for _ in 'wh')
    s = rng.choice((9, 40)) if wide else 2
    dom = [rng.choice((s, -s, 0, rng.uniform(-s, s))) for _ in range(4)]
    if rng.random() < .3:
        dom = list(rng.choice(list(F.fractaldomainparamdict().values())))
    a = (x1, y1, x1 + w, y1 + h)
    b = (a[2], a[1], a[0], a[3])
    c = (a[0], a[3], a[2], a[1])
    d = (a[2], a[3], a[0], a[1])
    return rng.choice((a, a, b, c, d)), a, dom


def places(r, dom):
    for y in range(r[1], r[3]):
        for x in range(r[0], r[2]):
            yield x, y, dom[1] + (x - r[0]) / (r[2] - r[0]) * (dom[0] - dom[1]), dom[3] + (y - r[1]) / (r[3] - r[1]) * (dom[2] - dom[3])


def st_grid(ctx, rng):
    its = [(FN[k][2], k, (), FN[k][1]) for k in FN] + [(k, v[0], v[1], v[2]) for k, v in ALIAS.items()]
    it, name, fixed, kinds = its[rng.index % len(its)]
    par = [param(rng, k) for k in kinds]
    n = rng.choice((1, 8, 30, 60, 255, rng.randint(1, 300)))
    pos, r, dom = grid(rng, name in WIDE)
    if name in ('multihyperbola', 'multisuperellipse') and not isinstance(par[0], int):
        dom = [abs(v) for v in dom]
    opar = list(par)
    if name == 'marekdragon':
        v = rng.choice((.25, .1, rng.random()))
        par, opar = [v], [cmath.exp(2j * math.pi * v)]
    want = []
    try:
        for x, y, P, Q in places(r, dom):
            want.append((x, y, values(name, P, Q, [*opar, *fixed], n)))
    except (OverflowError, ZeroDivisionError, ValueError):
        ctx.count('skipped')
        return
    ctx.observe(it, pos, dom, par, n)
    what = f'{it} on {pos} of {par} over {dom} up to {n}'
    got = [tuple(t) for t in call(ctx, getattr(F, it), *pos, *par, dom, n, mutates=())[0]]
    ctx.eq([t[:2] for t in got], [t[:2] for t in want], 'grid', what)
    for (x, y, v), (_, _, ok) in zip(got, want):
        judge(ctx, name, v, ok, f'{what} at {x, y}', n)
    if rng.random() < .3:
        mp, mq = call(ctx, F.mapfractaldomain, *pos, dom, mutates=())[0]
        ws = list(places(r, dom))
        for got, lo, hi, k, m in ((mp, r[0], r[2], dom[1], dom[0]), (mq, r[1], r[3], dom[3], dom[2])):
            ctx.eq([p[1] for p in got], list(range(lo, hi)), 'domain', what)
            for v, p in got:
                w = k + (p - lo) / (hi - lo) * (m - k)
                ctx.check(abs(v - w) <= 1e-9 * (1 + abs(w)), 'domain', f'{what}: {p} is {v}, wanted {w}')
        f = rng.choice((lambda P, Q, d, n: (P, Q, d, n),))
        got = list(call(ctx, F.itermultifractal, *pos, 'd', f, dom, n, mutates=())[0])
        g2 = list(call(ctx, F.itermultifractalcomplexpar, *pos, 'c', 'd', lambda P, Q, c, d, n: (P, Q, c, d, n), dom, n, mutates=())[0])
        ctx.check(len(got) == len(g2) == len(ws), 'generic', f'{what}: {len(got)} {len(g2)} points')
        for a, b, (x, y, P, Q) in zip(got, g2, ws):
            ctx.check(tuple(a[:2]) == tuple(b[:2]) == (x, y) and a[2][2:] == ('d', n) and b[2][2:] == ('c', 'd', n) and
                      all(abs(t[2][0] - P) < 1e-9 * (1 + abs(P)) and abs(t[2][1] - Q) < 1e-9 * (1 + abs(Q)) for t in (a, b)), 'generic', f'{what}: {a} {b} for {x, y, P, Q}')


def newton(z, f, g, n):
    for i in range(n):
        if g(z) == 0:
            return None, None
        d = f(z) / g(z)
        if abs(d) < 1e-8:
            return z, i
        z -= d
    return None, None


POLY = {3: (3, 0), 4: (4, 0), 4.1: (4, 1), 5: (5, 0), 5.1: (5, 1), 5.3: (5, 3), 6: (6, 0), 6.3: (6, 3)}


def poly(k):
    a, b = POLY[k]
    if k == 6.3:
        return lambda z: z ** 6 - z ** 3 - 1, lambda z: 6 * z ** 5 - 3 * z ** 2
    return (lambda z: z ** a - z ** b), (lambda z: a * z ** (a - 1) - (b * z ** (b - 1) if b else 0))


def st_newton(ctx, rng):
    d = F.funcparamdict()
    k = rng.choice(list(POLY))
    f, g = poly(k)
    for _ in range(6):
        z = complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
        a, b = d[k][0](z), d[k][1](z)
        ctx.check(abs(a - f(z)) < 1e-9 * (1 + abs(a)) and abs(b - g(z)) < 1e-9 * (1 + abs(b)), 'function', f'function {k} at {z}: {a} with slope {b}, wanted {f(z)} {g(z)}')
    pos, r, dom = grid(rng)
    n = rng.choice((1, 10, 40, 255, rng.randint(1, 300)))
    ctx.observe('newton', k, pos, dom, n)
    what = f'newton {k} on {pos} over {dom} up to {n}'
    got = list(call(ctx, F.iternewtonsfractal, *pos, d[k], dom, n, mutates=())[0])
    ws = list(places(r, dom))
    ctx.eq([tuple(t[:2]) for t in got], [t[:2] for t in ws], 'grid', what)
    for (x, y, (rt, i)), (_, _, P, Q) in zip(got, ws):
        if rt is not None:
            ctx.check(abs(f(rt)) < 1e-3 and 0 <= i < n, 'root', f'{what} at {x, y}: {rt} after {i} is no root')
        ok = [newton(complex(P * (1 + e), Q * (1 + h)), f, g, n) for e, h in NUDGE]
        if len({i for _, i in ok}) == 1 and all(w is None or abs(w - ok[0][0]) < 1e-6 for w, _ in ok):
            # the last step is close to the tolerance now and then
            w, j = ok[0]
            if (rt is None) != (w is None) or rt is not None and (abs(rt - w) > 1e-5 or i != j):
                raise Violation('newton', f'{what} at {x, y}: {rt} after {i}, wanted {w} after {j}')
        else:
            ctx.count('undecided')


DOMS = {'maxdefault': (1.75, -1.75, 1.5, -1.5), 'maxeqdim': (1.75, -1.75, 1.75, -1.75), 'middefault': (.75, -1.25, 1.25, -1.25), 'mindefault': (.75, -.75, .5, -.5),
        'mineqdim': (.5, -.5, .5, -.5), 'custom1': (-.5, -.7, -.5, -.7)}
# the maps and their probabilities
IFS = {'fern': (((0, 0, 0, .16, 0, 0), (.2, -.26, .23, .22, 0, 1.6), (-.15, .28, .26, .24, 0, .44), (.85, .04, -.04, .85, 0, 1.6)), (.01, .07, .07, .85)),
       'tree': (((0, .2, 0, .5, 0, 0), (.1, 0, 0, .1, 0, .2), (.42, -.42, .42, .42, 0, .2), (.42, .42, -.42, .42, 0, .2)), (.05, .15, .4, .4)),
       'cantortree': (((1 / 3, 0, 0, 1 / 3, 0, 0), (1 / 3, 0, 0, 1 / 3, 1, 0), (2 / 3, 0, 0, 2 / 3, .5, .5), (0,) * 6), (1 / 3, 1 / 3, 1 / 3, 0)),
       'sierpinskitriangle': (((.5, 0, 0, .5, 0, 0), (.5, 0, 0, .5, 1, 0), (.5, 0, 0, .5, .5, .5), (0,) * 6), (1 / 3, 1 / 3, 1 / 3, 0))}


def st_table(ctx, rng):
    ctx.observe('tables')
    ctx.eq({k: tuple(v) for k, v in F.fractaldomainparamdict().items()}, DOMS, 'domains')
    d = F.getIFSparams()
    for k, (af, p) in d.items():
        ctx.check(len(af) == len(p) == 4 and all(len(a) == 6 for a in af) and list(p) == sorted(p) and p[3] == 1 and p[0] > 0, 'ifs', f'{k}: {af} {p}')
        ctx.check(all(abs(a[0] * a[3] - a[1] * a[2]) < 1 for a in af), 'ifs', f'{k}: grows {af}')
    for k, (wa, wp) in IFS.items():
        af, p = d[k]
        for a, wm, q, wq in zip(af, wa, (p[0], p[1] - p[0], p[2] - p[1], p[3] - p[2]), wp):
            ctx.check(abs(q - wq) <= .0151, 'ifs', f'{k}: {a} has probability {q}')
            ctx.check(not wq or tuple(a) == wm, 'ifs', f'{k}: {a} is not {wm}')
    for fn in (F.fractaldomainparamdict, F.getIFSparams, F.funcparamdict):
        fn().clear()
        ctx.check(len(fn()) > 0, 'shared', f'{fn.__name__}: clearing a table cleared the next one')


def st_hilbert(ctx, rng):
    n = rng.choice((0, 1, 1, 2, 2, 3, 4))
    if rng.random() < .03:
        n = 5
    m = 1 << n
    u = [rng.randint(-50, 50), rng.randint(-50, 50)]
    if rng.random() < .1:
        u = [rng.randint(-500, 900), rng.randint(-500, 900)]
    s, t = rng.choice((1, -1)) * rng.randint(3 * m, 9 * m), rng.choice((1, -1)) * rng.randint(3 * m, 9 * m)
    v = rng.choice(([s, 0, 0, t], [0, s, t, 0]))
    ctx.observe('hilbert', u, v, n)
    what = f'curve of order {n} from {u} over {v}'
    l = [None] if rng.random() < .3 else []
    k = len(l)
    call(ctx, F.hilbertvert, l, u, v, n, mutates=(0,))
    l = l[k:]
    ctx.eq(len(l), 4 ** n, 'hilbert-count', what)
    cells = []
    for p in l:
        # place along both sides in cells
        a = ((p[0] - u[0]) * v[0] + (p[1] - u[1]) * v[1]) / (v[0] ** 2 + v[1] ** 2) * m
        b = ((p[0] - u[0]) * v[2] + (p[1] - u[1]) * v[3]) / (v[2] ** 2 + v[3] ** 2) * m
        i, j = math.floor(a), math.floor(b)
        z = [u[k] + v[k] * (i + .5) / m + v[2 + k] * (j + .5) / m for k in (0, 1)]
        ctx.check(all(isinstance(q, int) and abs(q - w) <= .5 + 1e-9 for q, w in zip(p, z)), 'hilbert', f'{what}: {p} is not the middle {z} of a cell')
        cells.append((i, j))
    ctx.eq(sorted(cells), [(i, j) for i in range(m) for j in range(m)], 'hilbert-cover', what)
    for a, b in zip(cells, cells[1:]):
        ctx.check(abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1, 'hilbert-step', f'{what}: {a} then {b}')
    ctx.check(cells[0] == (0, 0) and cells[-1] == (0, m - 1), 'hilbert-ends', f'{what}: from {cells[0]} to {cells[-1]}')


def flake(a, b, n, h=3 ** .5 / 6):
    if not n:
        return [a]
    d = b - a
    c = (a, a + d / 3, (a + b) / 2 + d * h * 1j, b - d / 3, b)
    return [p for s, e in zip(c, c[1:]) for p in flake(s, e, n - 1)]


def st_koch(ctx, rng):
    n = rng.choice((0, 1, 1, 2, 3, 4))
    u, v = ([rng.uniform(-50, 50), rng.randint(-50, 50)] for _ in 'uv')
    ctx.observe('koch', u, v, n)
    a, b = complex(*u), complex(*v)
    if rng.random() < .5:
        h = rng.choice((0, .5, -.3, rng.random()))
        got, w = call(ctx, F.koch, u, v, h, mutates=())[0], flake(a, b, 1, h)
    else:
        got, w = call(ctx, F.koch, u, v, mutates=())[0], flake(a, b, 1)
    ctx.check(len(got) == 3 and all(abs(complex(*p) - z) < 1e-6 for p, z in zip(got, w[1:])), 'koch', f'{u} {v}: {got} wanted {w[1:]}')
    got = call(ctx, F.kochcurvevert, u, v, n, mutates=())[0]
    w = flake(a, b, n) + [b]
    ctx.check(len(got) == len(w) and all(abs(complex(*p) - z) < 1e-6 for p, z in zip(got, w)), 'koch', lambda: f'curve {u} {v} order {n}: {got[:9]} wanted {w[:9]}')
    x, y, r, ang = rng.randint(-99, 399), rng.randint(-99, 399), gen.upto(rng, 0, 90, 700), rng.choice((0, 30, rng.uniform(-360, 360)))
    got = call(ctx, F.kochsnowflakevert, x, y, r, ang, n, mutates=())[0]
    k = 4 ** n + 1
    ctx.check(len(got) == 3 * k, 'snowflake', f'{len(got)} points of order {n}')
    c = [complex(x, y) - r * complex(math.sin(math.radians(ang + 120 * i)), math.cos(math.radians(ang + 120 * i))) for i in range(3)]
    for i in range(3):
        side = [complex(*p) for p in got[i * k:i * k + k]]
        s, e = side[0], side[-1]
        what = f'snowflake {x, y} radius {r} turned {ang} order {n}'
        ctx.check(abs(s - c[i]) < .75 and abs(e - c[(i + 1) % 3]) < .75, 'snowflake', f'{what}: side {i} from {s} to {e}, corners {c}')
        w = flake(s, e, n) + [e]
        ctx.check(all(abs(p - z) < 1e-6 for p, z in zip(side, w)), 'snowflake', f'{what}: side {i}')


def cloud(af, p, scale):
    """places of the attractor, to 1/8 pixel, breadth first from the fixed point of the first map"""
    use = [a for a, q in zip(af, [p[0], p[1] - p[0], p[2] - p[1], p[3] - p[2]]) if q > 0]
    seen, todo = set(), [(0., 0.)]
    while todo:
        x, y = todo.pop()
        for a, b, c, d, e, f in use:
            z = a * x + b * y + e, c * x + d * y + f
            k = round(z[0] * scale * 8), round(z[1] * scale * 8)
            if k not in seen:
                seen.add(k)
                todo.append(z)
                if len(seen) > 150000:
                    return None
    return {(a // 8, b // 8) for a, b in seen}


def st_ifs(ctx, rng):
    d = F.getIFSparams()
    k = rng.choice((*d, 'own', 'own'))
    if k == 'own':
        s = [[rng.uniform(-.55, .55) for _ in range(4)] for _ in range(4)]
        par = [tuple(a) + ((0, 0) if not i else (rng.uniform(-1, 1), rng.uniform(-1, 1))) for i, a in enumerate(s)]
        q = [rng.uniform(.1, 1) for _ in par]
        q = [v / sum(q) for v in q]
        par = (tuple(par), (q[0], q[0] + q[1], q[0] + q[1] + q[2], 1))
    else:
        par = d[k]
    scale = {'fern': rng.randint(2, 5), 'tree': rng.randint(20, 60)}.get(k, rng.randint(6, 14))
    ref = cloud(*par, scale)
    if not ref or len(ref) > 4000:
        ctx.count('skipped')
        return
    xs, ys = [p[0] for p in ref], [p[1] for p in ref]
    w, h = max(xs) - min(xs) + 8, max(ys) - min(ys) + 8
    x1, y1 = rng.choice((0, rng.randint(0, 60))), rng.choice((0, rng.randint(0, 60)))
    x2, y2 = x1 + w, y1 + h
    xo, yo = 4 - min(xs), min(ys) - 4
    clip = rng.random() < .2
    if clip:
        x2 -= w // 3
    n = 12000
    pos = rng.choice(((x1, y1, x2, y2), (x2, y1, x1, y2), (x2, y2, x1, y1)))
    ctx.observe('ifs', k, par, scale, pos)
    got = list(call(ctx, F.iterIFS, par, *pos, scale, scale, xo, yo, n, mutates=())[0])
    ctx.count('points', len(got))
    what = f'{k} {par if k == "own" else ""} scale {scale} on {pos}'
    ctx.check(all(x1 < x < x2 and y1 < y < y2 and isinstance(x, int) and isinstance(y, int) for x, y in got), 'ifs-outside', what)
    near = {(x1 + xo + a + i, y2 + yo - b + j) for a, b in ref for i in range(-3, 4) for j in range(-3, 4)}
    bad = [p for p in got if p not in near]
    ctx.check(not bad, 'ifs-off', lambda: f'{what}: {len(bad)} points such as {bad[:3]} off the attractor')
    if clip:
        return
    ctx.eq(len(got), n, 'ifs-count', what)
    # mean of the invariant measure
    af, p = par
    q = (p[0], p[1] - p[0], p[2] - p[1], p[3] - p[2])
    A = [sum(v * a[i] for v, a in zip(q, af)) for i in range(6)]
    det = (1 - A[0]) * (1 - A[3]) - A[1] * A[2]
    mx = ((1 - A[3]) * A[4] + A[1] * A[5]) / det
    my = ((1 - A[0]) * A[5] + A[2] * A[4]) / det
    gx, gy = sum(x for x, _ in got) / n - x1 - xo, y2 + yo - sum(y for _, y in got) / n
    # at most a pixel for the whole numbers, and the spread of the mean of points that depend on each other
    sx = math.sqrt(sum((x - x1 - xo - gx) ** 2 for x, _ in got) / n)
    sy = math.sqrt(sum((y2 + yo - y - gy) ** 2 for _, y in got) / n)
    ctx.check(abs(gx - mx * scale) < 1.1 + .3 * sx and abs(gy - my * scale) < 1.1 + .3 * sy, 'ifs-mean',
              f'{what}: mean {gx:.2f}, {gy:.2f}, expected {mx * scale:.2f}, {my * scale:.2f}, spread {sx:.2f}, {sy:.2f}')


def st_attract(ctx, rng):
    n = rng.choice((1, 2, 40, 200, rng.randint(1, 900)))
    kind = rng.choice(('ikeda', 'n', 'gumowskimira', 'peterdejong', 'clifford', 'fractaldream', 'hopalong', 'symmetricicon', 'duffing'))
    a, b, c, d, e = (rng.uniform(-2.5, 2.5) for _ in range(5))
    s, co = math.sin, math.cos
    x, y = rng.uniform(-1, 1), rng.uniform(-1, 1)
    start, t0 = (0, 0), 0
    if kind == 'ikeda':
        b = rng.uniform(.1, .95)
        args = a, b, c, d

        def f(p, i):
            z = complex(*p)
            z = a + b * z * cmath.exp(1j * (c - d / (1 + z.real ** 2 + z.imag ** 2)))
            return z.real, z.imag
    elif kind == 'n':
        args = a, b, c, d

        def f(p, i):
            x = a * s(a * p[1]) + b * co(b * p[0])
            return x, c * s(c * x) + d * co(d * p[1])
    elif kind == 'gumowskimira':
        a, b = rng.uniform(-1, 1), rng.choice((1, rng.uniform(.9, 1)))
        args, start = (x, y, a, b), (x, y)

        def g(x):
            return a * x + 2 * (1 - a) * x * x / (1 + x * x) ** 2

        def f(p, i):
            x = b * p[1] + g(p[0])
            return x, g(x) - p[0]
    elif kind == 'peterdejong':
        args = a, b, c, d

        def f(p, i):
            return s(a * p[1]) - co(b * p[0]), s(c * p[0]) - co(d * p[1])
    elif kind == 'clifford':
        args = a, b, c, d

        def f(p, i):
            return s(a * p[1]) + c * co(a * p[0]), s(b * p[0]) + d * co(b * p[1])
    elif kind == 'fractaldream':
        args, start = (a, b, c, d), (.1, .1)

        def f(p, i):
            return s(b * p[1]) + c * s(b * p[0]), s(a * p[0]) + d * s(a * p[1])
    elif kind == 'hopalong':
        args = a, b, c

        def f(p, i):
            return p[1] - sgn(p[0]) * math.sqrt(abs(b * p[0] - c)), a - p[0]
    elif kind == 'symmetricicon':
        g, o, l, k = rng.uniform(-1, 1), rng.choice((0, rng.uniform(-.5, .5))), rng.uniform(-2.5, -1), rng.randint(2, 7)
        a, b = rng.uniform(.5, 3), rng.uniform(-.5, .5)
        x, y = rng.uniform(-.2, .2), rng.uniform(-.2, .2)
        args, start, n = (x, y, a, b, g, o, l, k), (x, y), min(n, 40)

        def f(p, i):
            z = complex(*p)
            z = (l + a * abs(z) ** 2 + b * (z ** k).real + 1j * o) * z + g * z.conjugate() ** (k - 1)
            return z.real, z.imag
    else:
        dt, t0 = rng.uniform(.001, .05), rng.choice((0, rng.uniform(0, 9)))
        args, start = (x, y, t0, dt, a / 5, b, c), (x, y)
        if rng.random() < .3:
            args, start, t0, dt = (), (0, 0), 0, .01

        def f(p, i):
            A, B, C = (args[4:]) or (.25, .3, 1)
            return p[0] + p[1] * dt, p[1] + (p[0] - p[0] ** 3 - A * p[1] + B * co(C * (t0 + i * dt))) * dt
    fn = getattr(F, f'{kind}attractorlist')
    try:
        got = call(ctx, fn, *args, n=n, mutates=())[0] if kind == 'duffing' else call(ctx, fn, *args, n, mutates=())[0]
    except OverflowError:
        ctx.count('skipped')
        return
    ctx.observe(kind, args, n)
    what = f'{kind} attractor {args}'
    ctx.eq(len(got), n, 'count', what)
    p = start
    for i, q in enumerate(got):
        q = (q.real, q.imag) if isinstance(q, complex) else tuple(q)
        w = f(p, i)
        if max(map(abs, w)) > 1e6:
            break
        if not (abs(q[0] - w[0]) <= 1e-7 * (1 + abs(w[0])) and abs(q[1] - w[1]) <= 1e-7 * (1 + abs(w[1]))):
            raise Violation('attractor', f'{what}: after {p} (point {i}) came {q}, wanted {w}')
        p = q


STAGES = [Stage('value', st_value, 90), Stage('grid', st_grid, 99), Stage('newton', st_newton, 12), Stage('table', st_table, 1, thorough=8),
          Stage('hilbert', st_hilbert, 20), Stage('koch', st_koch, 20), Stage('ifs', st_ifs, 6), Stage('attract', st_attract, 40)]
