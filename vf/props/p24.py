"""P24 curves, polygons and spirals: the points lie on the mathematical curve."""
import cmath
import math
from pythonbmp import BITMAPlib as L
from pythonbmp import primitives2D as P
from .. import model, gen, draw
from ..core import Stage, Violation
from ..monitor import call, InPlace

PID = 'P24'
RULE = ('one case = one curve, polygon or spiral with generated parameters; each point is compared with the exact point of the curve for its parameter, '
        'or, for splines, with a dense sampling; flowers and squircles drawn into an image are compared pixel by pixel; distinct = distinct (curve, parameters)')
ASSUMPTIONS = ['points are rounded or truncated to whole pixels: within one pixel in each direction (half where the curve is documented by rounding)',
               'a step count that falls on the limit within rounding may be one more or less',
               'a B-spline that is not closed may start anywhere on the curve',
               'on 4 bit images rows of an outline can miss their last pixel (finding of P04)']
TAU = 2 * math.pi


def near(p, z, tol):
    return abs(p[0] - z.real) <= tol and abs(p[1] - z.imag) <= tol


def st_roulette(ctx, rng):
    x, y = (rng.randint(-200, 300) if rng.random() < .95 else rng.randint(-9999, 9999) for _ in 'xy')
    q = complex(x, y)
    d = rng.choice((.01, .1, .3, rng.uniform(.02, 1)))
    lim = d * rng.choice((0, 1, 2.5, rng.randint(1, 200), rng.uniform(3, 150)))
    r, s, u = (rng.choice((gen.upto(rng, 1, 90, 1500), rng.uniform(1, 90))) for _ in 'rsu')
    k, l = rng.uniform(.05, .95), rng.uniform(0, 1.2)
    m, n, e = rng.choice((1, 2, 3, 5, rng.uniform(.2, 6))), rng.choice((1, 2, 4, rng.uniform(.2, 6))), rng.choice((0, math.pi / 2, rng.uniform(-4, 4)))
    E = cmath.exp
    kind, args, f = rng.choice((
        ('spirograph', (r, l, k), lambda t: r * ((1 - k) * E(1j * t) + l * k * E(-1j * t * (1 - k) / k))),
        ('lissajouscurve', (r, s, m, n, e), lambda t: complex(r * math.cos(m * t + e), s * math.sin(n * t))),
        ('circleinvolute', (r,), lambda t: complex(r * (math.cos(t) + t * math.sin(t)), r * (math.sin(t) - t * math.cos(t)))),
        ('epicycloid', (r, s), lambda t: (r + s) * E(1j * t) - s * E(1j * t * (r + s) / s)),
        ('hypotrochoid', (r, s, u), lambda t: (r - s) * E(1j * t) + u * E(-1j * t * (r - s) / s)),
    ))
    ctx.observe(kind, x, y, args, d, lim)
    what = f'{kind} at {x, y}, {args} step {d} to {lim}'
    it = [tuple(p) for p in call(ctx, getattr(P, 'iter' + kind), x, y, *args, d, lim, mutates=())[0]]
    ve = [tuple(p) for p in call(ctx, getattr(P, kind + 'vert'), x, y, *args, d, lim, mutates=())[0]]
    ctx.eq(ve, it, 'list', what)
    want = lim / d
    ctx.check(math.ceil(want - 1e-6) <= len(it) <= math.ceil(want + 1e-6) or abs(len(it) - want) <= 1e-6, 'count', f'{what}: {len(it)} points, wanted {want}')
    for i, p in enumerate(it):
        z = q + f(i * d)
        if not (near(p, z, .5 + 1e-5) and isinstance(p[0], int) and isinstance(p[1], int)):
            raise Violation('curve', f'{what}: point {i} is {p}, exact {z}')
    ctx.count('points', len(it))


def st_round(ctx, rng):
    x, y = (rng.randint(-200, 300) if rng.random() < .95 else rng.randint(-9999, 9999) for _ in 'xy')
    q = complex(x, y)
    r = gen.upto(rng, 1, 90, 1500)
    kind = rng.choice(('flower', 'superellipse', 'squircle', 'gearcurve', 'heartcurve', 'cornuspiral', 'eggcurve'))
    rot = rng.choice((0, 90, 45, rng.uniform(-360, 360)))
    n = gen.upto(rng, 1, 9, 40)
    a, b = gen.upto(rng, 1, 90, 900), gen.upto(rng, 1, 90, 900)
    m, o = rng.choice((.5, 1, 2, 4, rng.uniform(.3, 9))), rng.choice((.5, 1, 2, 4, rng.uniform(.3, 9)))
    rad = math.radians

    def sup(a, b, m, o):
        def f(i):
            c, s = math.cos(rad(i)), math.sin(rad(i))
            c, s = (0 if abs(c) < 1e-12 else c), (0 if abs(s) < 1e-12 else s)
            return complex(math.copysign(abs(c) ** (2 / m) * a, c), math.copysign(abs(s) ** (2 / o) * b, s))
        return f
    if kind == 'flower':
        args, num = (r, n, rot), 360 * n

        def f(i):
            t = rad(i / n)
            return math.cos(n / 2 * t) ** 2 * r * -complex(math.sin(t + rad(rot)), math.cos(t + rad(rot)))
    elif kind == 'superellipse':
        args, num, f = (a, b, m, o), 360, sup(a, b, m, o)
    elif kind == 'squircle':
        args, num, f = (r,), 360, sup(r, r, 4, 4)
    elif kind == 'gearcurve':
        b = rng.randint(1, 20)
        args, num = (a, b, n), 360

        def f(i):
            return (a + b * math.tanh(b * math.sin(n * rad(i)))) * cmath.exp(1j * rad(i))
    elif kind == 'heartcurve':
        r = rng.randint(1, 12)
        args, num = (r,), 360

        def f(i):
            t = rad(i)
            return complex(16 * math.sin(t) ** 3, -(13 * math.cos(t) - 5 * math.cos(2 * t) - 2 * math.cos(3 * t) - math.cos(4 * t))) * r
    elif kind == 'cornuspiral':
        args, num = (r,), 360
        z, pts = 0, []
        for i in range(360):
            z += r * rad(1) * cmath.exp(1j * rad(i) ** 2)
            pts.append(z)
        f = pts.__getitem__
    else:
        return st_egg(ctx, rng, x, y)
    ctx.observe(kind, x, y, args)
    what = f'{kind} at {x, y}, {args}'
    it = [tuple(p) for p in call(ctx, getattr(P, 'iter' + kind), x, y, *args, mutates=())[0]]
    ve = [tuple(p) for p in call(ctx, getattr(P, kind + 'vert'), x, y, *args, mutates=())[0]]
    ctx.eq(ve, it, 'list', what)
    ctx.eq(len(it), num, 'count', what)
    for i, p in enumerate(it):
        if not (near(p, q + f(i), 1 + 1e-6) and isinstance(p[0], int) and isinstance(p[1], int)):
            raise Violation('curve', f'{what}: point {i} is {p}, exact {q + f(i)}')
    ctx.count('points', len(it))


def st_egg(ctx, rng, x, y):
    a = rng.randint(2, 120)
    b = rng.choice((0, a // 2, rng.uniform(0, a * 1.2)))
    ctx.observe('egg', x, y, a, b)
    what = f'eggcurve at {x, y}, {a, b}'
    it = [tuple(p) for p in call(ctx, P.itereggcurve, x, y, a, b, mutates=())[0]]
    ctx.eq([tuple(p) for p in call(ctx, P.eggcurvevert, x, y, a, b, mutates=())[0]], it, 'list', what)
    k = a - b
    if k <= 0:
        ctx.eq(it, [], 'curve', what)
        return
    got = {}
    for px, py in it:
        got.setdefault(px, []).append(py)
    for t in range(a):
        h = math.sqrt(max(0, k - 2 * t + math.sqrt(4 * b * t + k * k))) * math.sqrt(t / 2)
        g = sorted(got.pop(x + t - (a >> 1), ()))
        if not g:
            ctx.check(h < 1 + 1e-6, 'curve', f'{what}: no points {t} from the end, height {h}')
            continue
        ctx.check(len(g) == 2 and g[0] + g[1] == 2 * y and abs((g[1] - g[0]) / 2 - h) <= 1 + 1e-6, 'curve', f'{what}: {t} from the end at {g}, exact {y} +- {h}')
    ctx.check(not got, 'curve', f'{what}: points beyond the ends {got}')


def seg(p, a, b):
    """distance of p from the segment a b"""
    d = b - a
    if not d:
        return abs(p - a)
    t = ((p - a) / d).real
    return abs(p - a - d * min(1, max(0, t)))


def connected(s):
    s = set(s)
    todo = [s.pop()]
    while todo:
        x, y = todo.pop()
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                if (x + dx, y + dy) in s:
                    s.remove((x + dx, y + dy))
                    todo.append((x + dx, y + dy))
    return not s


def against(ctx, got, path, what, need=None, tol=2):
    """got: pixels near the path (list of complex), and near every point of the needed part"""
    s = {tuple(p) for p in got}
    ctx.check(all(isinstance(v, int) for p in s for v in p), 'points', f'{what}: not whole pixels')
    ctx.check(connected(s), 'gap', f'{what}: not connected')
    for p in s:
        z = complex(*p)
        if min(abs(z - c) for c in path) > tol:
            raise Violation('curve', f'{what}: {p} is {min(abs(z - c) for c in path):.2f} from the curve')
    for c in (path if need is None else need):
        z = (round(c.real), round(c.imag))
        if not any((z[0] + i, z[1] + j) in s for i in range(-2, 3) for j in range(-2, 3)):
            raise Violation('curve', f'{what}: nothing near {c} on the curve')


def st_bezier(ctx, rng):
    n = gen.upto(rng, 2, 6, 14) if rng.random() < .93 else rng.randint(15, 60)
    k = 1 if n < 15 else rng.choice((1, 20))
    pts = [[k * rng.randint(-40, 60), k * rng.randint(-40, 60)] for _ in range(n)]
    if k > 1 and rng.random() < .7:
        # long waves, which so many points do not flatten
        m = rng.randint(4, 12)
        pts = [[1000 * (i // m & 1) + rng.randint(0, 20), 800 * ((i + m // 2) // m & 1)] for i in range(n)]
    ctx.observe('bezier', pts)
    what = f'bezier curve of {pts}'
    got = [tuple(p) for p in call(ctx, P.iterbeziercurve, pts, mutates=())[0]]
    ctx.eq([tuple(p) for p in call(ctx, P.beziercurvevert, pts, rng.random() < .5, rng.random() < .5, mutates=())[0]], got, 'list', what)
    z = [complex(*p) for p in pts]
    path = []
    m = 4 * n
    k = 2 * -(-200 // m)
    for i in range(k * m + 1):
        t, w = i / (k * m), z
        while len(w) > 1:
            w = [a + (b - a) * t for a, b in zip(w, w[1:])]
        path.append(w[0])
    # chords of 4n pieces: the curve may be off by the sagitta
    sag = max(abs(path[k * i + k // 2] - (path[k * i] + path[k * i + k]) / 2) for i in range(m))
    against(ctx, got, path, what, path[::k], tol=1.5 + sag + max(abs(a - b) for a, b in zip(path, path[1:])))
    ctx.check({tuple(pts[0]), tuple(pts[-1])} <= set(got), 'ends', f'{what}: ends not on it')


def bs(p, t):
    a, b, c, d = p
    return (a * (1 - t) ** 3 + b * (3 * t ** 3 - 6 * t ** 2 + 4) + c * (-3 * t ** 3 + 3 * t ** 2 + 3 * t + 1) + d * t ** 3) / 6


def st_spline(ctx, rng):
    n = gen.upto(rng, 4, 7, 16)
    pts = [[rng.randint(-40, 60), rng.randint(-40, 60)] for _ in range(n)]
    closed, back = rng.random() < .5, rng.random() < .6
    ctx.observe('spline', pts, closed, back)
    what = f'B-spline of {pts} closed {closed} back {back}'
    got = [tuple(p) for p in call(ctx, P.iterbspline, pts, closed, back, mutates=())[0]]
    ctx.eq([tuple(p) for p in call(ctx, P.bsplinevert, pts, closed, back, mutates=())[0]], got, 'list', what)
    z = [complex(*p) for p in pts]
    segs = []
    for i in range(n + 2):
        c = [z[j % n if back else min(j, n - 1)] for j in range(i, i + 4)]
        segs.append([bs(c, k / 60) for k in range(61)])
    path = [p for s in segs for p in s]
    tol = 2 + max(abs(a - b) for s in segs for a, b in zip(s, s[1:]))
    if back:
        need = path if closed else [p for s in segs[2:n] for p in s[:56]]
    else:
        need = [p for s in segs[2:n] for p in s]
    against(ctx, got, path, what, need, tol)
    if not back:
        ctx.check(tuple(pts[-1]) in got or closed is False and any(abs(complex(*p) - z[-1]) <= 1.5 for p in got), 'ends', f'{what}: does not reach the last point')


def st_polygon(ctx, rng):
    x, y, r = rng.randint(-99, 99), rng.randint(-99, 99), rng.choice((0, 1, rng.randint(2, 200)))
    n = rng.choice((1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, rng.randint(1, 400)))
    rot = rng.choice((0, 90, 30, -45, rng.uniform(-720, 720)))
    ctx.observe('polygon', x, y, r, n, rot)
    what = f'{n} sides, radius {r} at {x, y} turned {rot}'
    f = call(ctx, P.floatregpolygonvert, x, y, r, n, rot, mutates=())[0]
    g = call(ctx, P.regpolygonvert, x, y, r, n, rot, mutates=())[0]
    ctx.eq((len(f), len(g)), (n, n), 'sides', what)
    for i in range(n):
        t = math.radians(rot) + TAU * i / n
        z = complex(x, y) - r * complex(math.sin(t), math.cos(t))
        if not (near(f[i], z, 1e-6) and near(g[i], z, .5 + 1e-6) and all(isinstance(v, int) for v in g[i])):
            raise Violation('polygon', f'{what}: corner {i} is {f[i]} {g[i]}, exact {z}')
    a, b, c, d = (rng.randint(-50, 50) for _ in range(4))
    st = rng.randint(1, 9)
    ctx.eq([tuple(p) for p in P.recvert(a, b, c, d)], [(a, b), (c, b), (c, d), (a, d)], 'rectangle', (a, b, c, d))
    ctx.eq([tuple(p) for p in P.horizontalvert(a, b, c, st)], [(v, a) for v in range(b, c, st)], 'row', (a, b, c, st))
    ctx.eq([tuple(p) for p in P.verticalvert(a, b, c, st)], [(a, v) for v in range(b, c, st)], 'column', (a, b, c, st))
    ctx.eq(tuple(P.sortrecpoints(a, b, c, d)), (min(a, c), min(b, d), max(a, c), max(b, d)), 'corners', (a, b, c, d))
    lo, hi = (min(a, c), min(b, d)), (max(a, c), max(b, d))
    pts = [[rng.randint(-60, 60), rng.randint(-60, 60)] for _ in range(rng.randint(1, 3))]
    if rng.random() < .5:
        pts = [[rng.randint(lo[k], hi[k]) for k in (0, 1)] for _ in pts]

    def where(p):
        s = [lo[k] < p[k] < hi[k] for k in (0, 1)]
        e = [lo[k] <= p[k] <= hi[k] for k in (0, 1)]
        return True if all(s) else False if not all(e) else None
    for p in pts:
        if where(p) is not None:
            ctx.eq(bool(P.isinrectbnd(*p, *lo, *hi)), where(p), 'inside', f'{p} in {lo, hi}')
    wh = [where(p) for p in pts]
    if None not in wh:
        ctx.eq(bool(P.listinrecbnd(pts, *lo, *hi)), all(wh), 'inside', f'{pts} in {lo, hi}')
    r, s = rng.randint(0, 20), rng.randint(0, 20)
    for q, w in ((P.entirecircleisinboundary(a, b, *(-20, 30, -25, 35), r), (r, r)), (P.entireellipseisinboundary(a, b, *(-20, 30, -25, 35), s, r), (r, s))):
        ctx.eq(bool(q), -20 < a - w[0] and a + w[0] < 30 and -25 < b - w[1] and b + w[1] < 35, 'fits', f'{a, b} radius {w}')


def st_spiral(ctx, rng):
    x, y = rng.randint(-50, 50), rng.randint(-50, 50)
    step, g, n = rng.randint(1, 20), rng.choice((1, 1, 2, 1.1, rng.uniform(1, 2))), rng.randint(0, 8)
    ctx.observe('spiral', x, y, step, g, n)
    got = call(ctx, P.spiralcontrolpointsvert, x, y, step, g, n, mutates=())[0]
    want, z, s, inc = [complex(x, y)], complex(x, y), step, step
    for _ in range(n):
        for k, d in enumerate((1, 1j, -1, -1j)):
            z += d * s
            want.append(z)
            s += inc
        inc *= g
    ctx.check(len(got) == len(want) and all(near(p, w, 1e-6 * (1 + abs(w))) for p, w in zip(got, want)), 'spiral', f'{x, y} step {step} growth {g} turns {n}: {got}')


def lum_colors(bits, v, f):
    """colours a flower point of real brightness v may have"""
    r = set()
    for lum in {min(abs(int(v + e)), 255) for e in (-1e-6, 1e-6)}:
        s = [()]
        for q in f:
            s = [t + (k,) for t in s for k in {int(max(0, q * lum + e)) for e in (-1e-6, 1e-6)}]
        r |= {a << 16 | b << 8 | c for a, b, c in s}
    if bits < 24:
        m = 1 << bits
        r = {m - 1 - c % m for c in r}
    return r


def st_draw(ctx, rng):
    w, h = rng.randint(5, 60), rng.randint(5, 60)
    img = gen.image(rng, w=w, h=h, bits=rng.choice(model.BITS))
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    kind = rng.choice(('plotflower', 'plotflower', 'plotfilledflower', 'squircle'))
    x, y, r = rng.randint(-5, w + 5), rng.randint(-5, h + 5), gen.upto(rng, 1, 14, 50)
    if kind == 'squircle':
        r = rng.randint(1, (min(w, h) - 1) // 2)
        x, y = rng.randint(r, w - 1 - r), rng.randint(r, h - 1 - r)
        got, c = draw.draw_set(ctx, rng, L.squircle, (x, y, r), w, h, img.bits, 3)
        ctx.observe(kind, w, h, img.bits, x, y, r)
        v = [complex(*p) for p in P.squirclevert(x, y, r)]
        ctx.check(img.bits == 4 or draw.inside({(int(p.real), int(p.imag)) for p in v}, w, h) <= got, 'squircle', f'{x, y, r} on {w}x{h}: corners not painted')
        for p in got:
            if min(seg(complex(*p), a, b) for a, b in zip(v, v[1:] + v[:1])) > .75:
                raise Violation('squircle', f'{x, y, r} on {w}x{h}: painted {p}')
        return
    petals, rot = rng.randint(1, 7), rng.choice((0, 45, rng.uniform(-90, 90)))
    lr = [rng.randrange(256), rng.randrange(256)]
    f = [rng.choice((0, 1, .5, rng.random())) for _ in 'rgb']
    call(ctx, getattr(L, kind), buf, x, y, r, petals, rot, lr, f)
    ctx.observe(kind, img.key(), x, y, r, petals, rot, lr, f)
    what = f'{kind} {x, y, r, petals, rot, lr, f} on {w}x{h}x{img.bits}'
    now = mon.after(what)
    want = [[{v} for v in row] for row in img.px]
    for nr in range(r, 2, -1) if kind == 'plotfilledflower' else (r,):
        for a, b in P.iterflower(x, y, nr, petals, rot):
            if 0 <= a < w and 0 <= b < h:
                want[b][a] = lum_colors(img.bits, lr[0] + (lr[1] - lr[0]) * math.dist((a, b), (x, y)) / nr, f)
    for b in range(h):
        for a in range(w):
            if now.px[b][a] not in want[b][a]:
                raise Violation('flower', f'{what}: {a, b} is {now.px[b][a]:#x}, wanted {sorted(map(hex, want[b][a]))}')


STAGES = [Stage('roulette', st_roulette, 60), Stage('round', st_round, 60), Stage('bezier', st_bezier, 12), Stage('spline', st_spline, 12),
          Stage('polygon', st_polygon, 60), Stage('spiral', st_spiral, 30), Stage('draw', st_draw, 30)]
