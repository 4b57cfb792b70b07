"""P23 vectors, statistics, coordinates, interpolation, transforms and histograms."""
import cmath
import math
from fractions import Fraction
from pythonbmp import mathlib as M
from ..core import Stage, Violation, short
from ..monitor import call

PID = 'P23'
RULE = ('one case = one group of helpers on one generated set of numbers, points or matrices; results are compared with the mathematical definition '
        '(within 1e-9 relative), round trips and histograms with their inputs; distinct = distinct inputs')
ASSUMPTIONS = ['floating point results may differ from the exact value by rounding (relative 1e-9)',
               'a point on the border between two bins (within 1e-9 of a bin) may be counted in either']


def close(a, b, tol=1e-9):
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    return abs(a - b) <= tol * max(1, abs(a), abs(b))


def num(rng, lo=-100, hi=100):
    return rng.choice((0, 1, -1, rng.randint(lo, hi), rng.randint(lo, hi), rng.uniform(lo, hi), rng.uniform(lo, hi)))


def vec(rng, n, **k):
    return [num(rng, **k) for _ in range(n)]


def same(ctx, fn, args, want, tol=1e-9):
    got, _ = call(ctx, fn, *args, mutates=())
    ctx.count('assertions')
    if not close(got, want, tol):
        raise Violation(fn.__name__, f'{fn.__name__}{short(args, 200)}: got {short(got, 150)} want {short(want, 150)}')
    return got


def st_vector(ctx, rng):
    n = rng.choice((1, 2, 3, 3, 4, 7, rng.randint(1, 30)))
    u, v, w = (vec(rng, n) for _ in 'uvw')
    s = num(rng)
    lo, hi = sorted((num(rng), num(rng)))
    ctx.observe('vector', u, v, s)
    same(ctx, M.addvect, (u, v), [a + b for a, b in zip(u, v)])
    same(ctx, M.subvect, (u, v), [a - b for a, b in zip(u, v)])
    same(ctx, M.mulvect, (u, v), [a * b for a, b in zip(u, v)])
    nz = [b or 3 for b in v]
    same(ctx, M.divvect, (u, nz), [a / b for a, b in zip(u, nz)])
    same(ctx, M.scalarmulvect, (u, s), [a * s for a in u])
    same(ctx, M.scalardivvect, (u, s or 2), [a / (s or 2) for a in u])
    same(ctx, M.trans, ([u, v, w], w), [[a + b for a, b in zip(p, w)] for p in (u, v, w)])
    same(ctx, M.addvectinlist, ([u, v, w],), [sum(t) for t in zip(u, v, w)])
    same(ctx, M.addvectpairlist, ([u, v],), [a + b for a, b in zip(u, v)])
    same(ctx, M.addvecttripletlist, ([u, v, w],), [sum(t) for t in zip(u, v, w)])
    same(ctx, M.addvectlist, ([u, v], [v, w]), [[a + b for a, b in zip(u, v)], [a + b for a, b in zip(v, w)]])
    same(ctx, M.dotprod, (u, v), sum(a * b for a, b in zip(u, v)))
    mag = math.sqrt(sum(a * a for a in u))
    same(ctx, M.vmag, (u,), mag)
    same(ctx, M.dist, (u, v), math.dist(u, v))
    if mag:
        same(ctx, M.normvec, (u,), [a / mag for a in u])
        d = same(ctx, M.dircos, (u,), [a / mag for a in u])
        r = same(ctx, M.diracos, (d,), [math.acos(max(-1, min(1, a / mag))) for a in u], 1e-6)
        same(ctx, M.dirdeg, (r,), [a * 180 / math.pi for a in r])
        if any(v):
            same(ctx, M.cosaffin, (u, v), sum(a * b for a, b in zip(u, v)) / mag / math.sqrt(sum(a * a for a in v)))
    same(ctx, M.mirrorvec, (u, v), [[a - b for a, b in zip(u, v)], [a + b for a, b in zip(u, v)]])
    same(ctx, M.delta, (list((u * 2)[:2]),), (u * 2)[1] - u[0])
    same(ctx, M.range2baseanddelta, ([lo, hi],), (lo, hi - lo))
    cl = [min(max(a, lo), hi) for a in u]
    same(ctx, M.setminmaxvec, (u, lo, hi), cl)
    same(ctx, M.setmaxvec, (u, hi), [min(a, hi) for a in u])
    for a, c in zip(u, cl):
        same(ctx, M.setminmax, (a, lo, hi), c)
        same(ctx, M.clamp, (a, lo, hi), c)
        same(ctx, M.setmax, (a, hi), min(a, hi))
        same(ctx, M.setmin, (a, lo), max(a, lo))
        ctx.eq(bool(M.isinrange(a, hi, lo)), lo < a < hi, 'range', f'{a} between {lo} and {hi}')
        ctx.eq(M.sign(a), (a > 0) - (a < 0), 'sign', a)
        got = call(ctx, M.intsetminmax, a, math.floor(lo), math.ceil(hi), mutates=())[0]
        ctx.check(isinstance(got, int) and got in [min(max(k, math.floor(lo)), math.ceil(hi)) for k in (math.floor(a + .5), math.ceil(a - .5))],
                  'int-clamp', f'{a} to {math.floor(lo)}..{math.ceil(hi)}: {got}')
    got = call(ctx, M.intsetminmaxvec, u, math.floor(lo), math.ceil(hi), mutates=())[0]
    ctx.eq(list(got), [M.intsetminmax(a, math.floor(lo), math.ceil(hi)) for a in u], 'int-clamp', u)
    for got, src in ((M.roundvect(u), u), (M.intscalarmulvect(u, s), [a * s for a in u]), (M.roundvectlist([v, u])[1], u)):
        ctx.check(len(got) == n and all(isinstance(g, int) and abs(g - a) <= .5 + 1e-9 for g, a in zip(got, src)), 'round', f'{src}: {got}')
    ctx.eq(bool(M.vectiszero(u)), not any(u), 'zero', u)
    iu, iv = [rng.randint(-3, 3) for _ in u], [rng.randint(-3, 3) for _ in u]
    ctx.eq(bool(M.isorthogonal(iu, iv)), sum(a * b for a, b in zip(iu, iv)) == 0, 'orthogonal', f'{iu} {iv}')


def st_space(ctx, rng):
    u, v, w = (vec(rng, 3) for _ in 'uvw')
    ctx.observe('space', u, v, w)

    def cross(u, v):
        return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]

    def sub(a, b):
        return [x - y for x, y in zip(a, b)]
    same(ctx, M.crossprod3d, (u, v), cross(u, v))
    same(ctx, M.getnormvec, (u, v, w), cross(sub(v, u), sub(w, u)), 1e-7)
    same(ctx, M.det3D, (u, v, w), sum(a * b for a, b in zip(u, cross(v, w))), 1e-6)
    x, y = num(rng), num(rng)
    p = vec(rng, 2)
    same(ctx, M.mirrorx, (p, x), ([p[0] - x, p[1]], [p[0] + x, p[1]]))
    same(ctx, M.mirrory, (p, y), ([p[0], p[1] - y], [p[0], p[1] + y]))
    same(ctx, M.mirror, (x, y), (x - y, x + y))
    got = call(ctx, M.mirror1stquad, x, y, p, mutates=())[0]
    ctx.eq(sorted(map(tuple, got)), sorted([(x + a, y + b) for a in (p[0], -p[0]) for b in (p[1], -p[1])]), 'mirror4', f'{p} about {x, y}')
    same(ctx, M.swapxy, (p,), p[::-1])
    same(ctx, M.adddimz, ([p, [x, y]], x), [p + [x], [x, y, x]])
    a, b, c, d = (rng.randint(-50, 50) for _ in range(4))
    ctx.eq(tuple(M.centerpoint(a, b, c, d)), ((a + c) // 2, (b + d) // 2), 'center', (a, b, c, d))
    if p[0] != u[0]:
        same(ctx, M.slope, (p, u[:2]), (u[1] - p[1]) / (u[0] - p[0]), 1e-7)
    g = call(ctx, M.anglebetween2Dlines, p, u[:2], mutates=())[0]
    dx, dy = u[0] - p[0], u[1] - p[1]
    ctx.check(abs(math.sin(g) * dx - math.cos(g) * dy) <= 1e-9 * (1 + abs(dx) + abs(dy)), 'angle', f'line {p} to {u[:2]}: angle {g}')
    deg = rng.choice((0, 90, 180, -90, 360, rng.uniform(-400, 400)))
    rv = same(ctx, M.computerotvec, (deg,), (math.sin(math.radians(deg)), math.cos(math.radians(deg))))
    z = complex(*p) * cmath.exp(1j * math.radians(deg))
    same(ctx, M.rotvec2D, (p, rv), [z.real, z.imag], 1e-7)
    lo = rng.randint(-5, 5)
    hi = lo + rng.choice((0, 1, 3, 100))
    r = call(ctx, M.randomvect, lo, hi, mutates=())[0]
    ctx.check(len(r) == 3 and all(isinstance(k, int) and lo <= k <= hi for k in r), 'random', f'{lo}..{hi}: {r}')
    r = call(ctx, M.addrndtovert, [u, v], lo, hi, mutates=())[0]
    ctx.check(len(r) == 2 and all(len(q) == 3 and all(lo - 1e-6 <= k - o <= hi + 1e-6 for k, o in zip(q, s)) for q, s in zip(r, (u, v))), 'random',
              f'{[u, v]} plus {lo}..{hi}: {r}')
    pts = [[rng.randint(0, 3) for _ in range(2)] for _ in range(rng.randint(0, 5))]
    n = len(pts)
    t = call(ctx, M.distancetable, pts, mutates=())[0]
    want = sorted((i, j) for i in range(n) for j in range(n) if i != j)
    ctx.eq(sorted((e[0], e[1]) for e in t), want, 'distances', pts)
    ctx.check(all(close(e[2], math.dist(pts[e[0]], pts[e[1]])) for e in t), 'distances', f'{pts}: {t}')
    q = call(ctx, M.countdist, t, mutates=())[0]
    cnt = {}
    for e in t:
        cnt[e[2]] = cnt.get(e[2], 0) + 1
    ctx.eq(dict(q), cnt, 'distance-count', t)


def st_coords(ctx, rng):
    x, y, z = (rng.choice((0, num(rng), num(rng))) for _ in 'xyz')
    ctx.observe('coords', x, y, z)
    r2, r3 = math.hypot(x, y), math.sqrt(x * x + y * y + z * z)
    r, t = call(ctx, M.rect2polarcoord2D, [x, y], mutates=())[0]
    ctx.check(close(r, r2) and close([r * math.cos(t), r * math.sin(t)], [x, y], 1e-9), 'polar', f'{x, y}: {r, t}')
    same(ctx, M.polar2rectcoord2D, ([r, t],), [x, y], 1e-9)
    if r3:
        p, th, ph = call(ctx, M.rect2sphericalcoord3D, [x, y, z], mutates=())[0]
        ctx.check(close(p, r3) and close([p * math.sin(ph) * math.cos(th), p * math.sin(ph) * math.sin(th), p * math.cos(ph)], [x, y, z], 1e-6),
                  'spherical', f'{x, y, z}: {p, th, ph}')
        same(ctx, M.spherical2rectcoord3D, ([p, th, ph],), [x, y, z], 1e-6)
    c = call(ctx, M.rect2cylindricalcoord3D, [x, y, z], mutates=())[0]
    ctx.check(len(c) == 3 and close(c[0], r2) and close([c[0] * math.cos(c[1]), c[0] * math.sin(c[1]), c[2]], [x, y, z], 1e-9), 'cylindrical', f'{x, y, z}: {c}')
    same(ctx, M.cylindrical2rectcoord3D, (c,), [x, y, z], 1e-9)
    if r2:
        a = call(ctx, M.polarcoordangle2D, [x, y], mutates=())[0]
        ctx.check(-1e-9 <= a <= 2 * math.pi + 1e-9 and close([r2 * math.sin(a), -r2 * math.cos(a)], [x, y], 1e-6), 'screen-angle', f'{x, y}: {a}')
        ctx.check(x or abs(a - (0 if y < 0 else math.pi)) < 1e-6, 'screen-angle', f'{x, y}: {a}')
        cx, cy = num(rng), num(rng)
        r, a = call(ctx, M.rect2polarcoord2Dwithcenter, [cx, cy], [cx + x, cy + y], mutates=())[0]
        ctx.check(close(r, r2) and close([r * math.sin(a), -r * math.cos(a)], [x, y], 1e-5), 'screen-angle', f'{cx + x, cy + y} about {cx, cy}: {r, a}')


def st_exact(ctx, rng):
    """whole numbers far from zero: sums and products are exact, so no digits may be lost"""
    n = rng.randint(3, 12)
    far = 10 ** rng.randint(3, 12)
    pts = [[far + rng.randint(-50, 50), far // rng.choice((1, 7, -3)) + rng.randint(-50, 50)] for _ in range(n)]
    pts[0][0] = pts[1][0] + rng.randint(1, 9)
    pts[1][1] = pts[2][1] + rng.randint(1, 9)
    xs, ys = zip(*pts)
    ctx.observe('exact', pts)
    mx, my = Fraction(sum(xs), n), Fraction(sum(ys), n)
    sxy = sum((x - mx) * (y - my) for x, y in pts)
    sxx, syy = sum((x - mx) ** 2 for x in xs), sum((y - my) ** 2 for y in ys)
    if not sxx or not syy:
        return
    same(ctx, M.LSMslope, (pts,), float(sxy / sxx), 1e-6)
    r = float(sxy) / math.sqrt(sxx * syy)
    same(ctx, M.PearsonsR, (pts,), r, 1e-6)
    same(ctx, M.Rsquare, (pts,), r * r, 1e-6)


def st_stats(ctx, rng):
    n = rng.randint(3, 20)
    xs = [num(rng) for _ in range(n)]
    xs[1] = xs[0] + 1 + rng.random()
    a, b = num(rng), num(rng)
    ys = [a * x + b + rng.choice((0, rng.gauss(0, 9))) for x in xs]
    ys[2] += 1 + rng.random()
    pts = [[x, y] for x, y in zip(xs, ys)]
    ctx.observe('stats', pts)
    mx, my = sum(xs) / n, sum(ys) / n
    same(ctx, M.mean, (xs,), mx)
    same(ctx, M.meanlist, ([xs, ys],), [mx, my])
    same(ctx, M.variance, (xs,), [x - mx for x in xs])
    sx = math.sqrt(sum((x - mx) ** 2 for x in xs) / n)
    same(ctx, M.StdDev, (xs,), sx)
    if abs(mx) > 1e-6:
        same(ctx, M.coefvar, (xs,), sx / mx, 1e-6)
    sxy = sum((x - mx) * (y - my) for x, y in pts)
    sxx, syy = sum((x - mx) ** 2 for x in xs), sum((y - my) ** 2 for y in ys)
    same(ctx, M.LSMslope, (pts,), sxy / sxx, 1e-6)
    same(ctx, M.LSMYint, (pts,), my - sxy / sxx * mx, 1e-5)
    if syy > 1e-3:
        r = sxy / math.sqrt(sxx * syy)
        same(ctx, M.PearsonsR, (pts,), r, 1e-6)
        same(ctx, M.Rsquare, (pts,), r * r, 1e-6)
        if r * r < .999:
            same(ctx, M.TTest, (pts,), r * math.sqrt((n - 2) / (1 - r * r)), 1e-3)


def st_lerp(ctx, rng):
    a, b = num(rng), num(rng)
    f = rng.choice((0, 1, .5, rng.random(), rng.random()))
    v = a + (b - a) * f
    ctx.observe('lerp', a, b, f)
    same(ctx, M.lerp, (a, b, f), v)
    d = b - a
    if a == b:
        for g in (M.invlerp, M.smoothstep, M.smootherstep, M.smootheststep):
            same(ctx, g, (a, b, v), 1)
        for g in (M.smoothsteplerp, M.smoothersteplerp, M.smootheststeplerp):
            same(ctx, g, (a, b, f), a)
    elif abs(d) > 1e-3:
        same(ctx, M.invlerp, (a, b, v), f, 1e-6)
        for g, gl, s in ((M.smoothstep, M.smoothsteplerp, 3 * f ** 2 - 2 * f ** 3),
                         (M.smootherstep, M.smoothersteplerp, 6 * f ** 5 - 15 * f ** 4 + 10 * f ** 3),
                         (M.smootheststep, M.smootheststeplerp, -20 * f ** 7 + 70 * f ** 6 - 84 * f ** 5 + 35 * f ** 4)):
            same(ctx, g, (a, b, v), s, 1e-5)
            same(ctx, gl, (a, b, f), a + d * s, 1e-6)
    same(ctx, M.invsmoothstep, (3 * f ** 2 - 2 * f ** 3,), f, 1e-6)


def st_fft(ctx, rng):
    n = 1 << rng.randint(0, 6)
    v = [rng.choice((0, 1, complex(num(rng), num(rng)), num(rng))) for _ in range(n)]
    ctx.observe('fft', v)
    w = list(v)
    r = call(ctx, M.fft, w, mutates=(0,))[0]
    want = [sum(v[k] * cmath.exp(-2j * math.pi * k * j / n) for k in range(n)) for j in range(n)]
    tol = 1e-9 * n * (1 + max(map(abs, v)))
    ctx.check(r is None and len(w) == n and all(abs(p - q) <= tol for p, q in zip(w, want)), 'fft', f'{v}: {w}')
    call(ctx, M.ifft, w, mutates=(0,))
    ctx.check(len(w) == n and all(abs(p - q * n) <= tol * n for p, q in zip(w, v)), 'ifft', f'back from the transform of {v}: {w}')


def st_root(ctx, rng):
    roots = [complex(num(rng, -3, 3), rng.choice((0, num(rng, -3, 3)))) for _ in range(rng.randint(1, 4))]
    if rng.random() < .4:
        roots = [r.real for r in roots]

    def f(x):
        return math.prod((x - r for r in roots), start=1)

    def fp(x):
        return sum(math.prod((x - r for j, r in enumerate(roots) if j != i), start=1) for i in range(len(roots)))
    x0 = rng.choice((roots[0], num(rng, -5, 5), complex(num(rng, -4, 4), num(rng, -4, 4))))
    mi, tol = rng.choice(((40, 1e-8), (40, 1e-8), (8, 1e-3), (1, 1e-2), (0, 1)))
    ctx.observe('root', roots, x0, mi)
    if (mi, tol) == (40, 1e-8):
        got = call(ctx, M.newtonmethod, x0, f, fp, mutates=())[0]
    else:
        got = call(ctx, M.newtonmethod, x0, f, fp, mi, tol, mutates=())[0]
    x, want = x0, (None, None)
    for i in range(mi):
        if fp(x) == 0:
            break
        d = f(x) / fp(x)
        if abs(d) < tol:
            want = (x, i)
            break
        x -= d
    ok = len(got) == 2 and got[1] == want[1] and (got[0] is None if want[0] is None else abs(got[0] - want[0]) < 1e-6 * (1 + abs(want[0])))
    ctx.check(ok, 'newton', f'roots {roots} from {x0}, {mi} steps: {got} want {want}')
    b, k = rng.choice((0.5, 1, 1.2, 2, complex(.3, .4), rng.uniform(.2, 1.4))), rng.randint(0, 4)
    w = 1
    for _ in range(k):
        w = b ** w
    if abs(w) < 1e12:
        same(ctx, M.tetration, (b, k), w)


def st_hist(ctx, rng):
    n = rng.choice((2, 3, 10, 200, rng.randint(2, 300)))
    if rng.random() < .4:
        pts = [(rng.randint(-4, 4), rng.randint(-4, 4)) for _ in range(n)]
    else:
        pts = [(rng.uniform(-2, 3), rng.gauss(0, 9)) for _ in range(n)]
    pts += [(pts[0][0] + 1, pts[0][1] - 2)]
    xb, yb = rng.choice((2, 3, 5, 17, 64)), rng.choice((2, 3, 5, 17, 64))
    z = rng.random() < .5
    ctx.observe('hist', pts, xb, yb)
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    box = (min(xs), max(xs), min(ys), max(ys))
    if z:
        v = [complex(*p) for p in pts]
        got = call(ctx, M.histogram2Dcomplex, v, xb, yb, mutates=())[0]
        ctx.check(close(call(ctx, M.getcomplexdomainbounds, v, mutates=())[0], box), 'bounds', f'{pts}')
    else:
        v = [list(p) for p in pts]
        got = call(ctx, M.histogram2D, v, xb, yb, mutates=())[0]
        ctx.check(close(call(ctx, M.getdomainbounds, v, mutates=())[0], box), 'bounds', f'{pts}')
    ctx.check(len(got) == yb and all(len(r) == xb for r in got), 'hist-size', f'{len(got)} rows of {[len(r) for r in got][:3]}')
    ctx.eq(sum(map(sum, got)), len(pts), 'hist-total', f'{xb}x{yb} bins')
    lo = [[0] * xb for _ in range(yb)]
    hi = [[0] * xb for _ in range(yb)]
    for x, y in pts:
        a, b = (x - box[0]) / (box[1] - box[0]) * (xb - 1), (y - box[2]) / (box[3] - box[2]) * (yb - 1)
        cells = {(math.floor(p), math.floor(q)) for p in (a - 1e-9, a + 1e-9) for q in (b - 1e-9, b + 1e-9)}
        cells = {c for c in cells if 0 <= c[0] < xb and 0 <= c[1] < yb}
        for c in cells:
            hi[c[1]][c[0]] += 1
            if len(cells) == 1:
                lo[c[1]][c[0]] += 1
    for j in range(yb):
        for i in range(xb):
            if not lo[j][i] <= got[j][i] <= hi[j][i]:
                raise Violation('hist', f'{xb}x{yb} bins, {len(pts)} points: bin {i, j} has {got[j][i]}, wanted {lo[j][i]} to {hi[j][i]}')


STAGES = [Stage('vector', st_vector, 60), Stage('space', st_space, 60), Stage('coords', st_coords, 80), Stage('stats', st_stats, 60), Stage('exact', st_exact, 20),
          Stage('lerp', st_lerp, 80), Stage('fft', st_fft, 30), Stage('root', st_root, 80), Stage('hist', st_hist, 40)]
