"""P27 attractor images are histograms of their orbits."""
import math
import os
from pythonbmp import BITMAPlib as L
from pythonbmp import fractals as F
from .. import model
from ..core import Stage, Violation
from ..monitor import call
from .p18 import Dir, listing, rd

PID = 'P27'
RULE = ('one case = one orbit drawn as an image (or written to a file); every pixel is compared with an independent count of the points that fall on it, scaled to the range '
        'of colors; distinct = distinct orbits, sizes and depths')
ASSUMPTIONS = ['orbits are judged by P25', 'a point on the border between two pixels (within 1e-9 of a pixel) may be counted in either',
               'orbits that spread in both directions over images in which not every pixel holds the same number of points']


def bins(pts, w, h):
    """least and most points per pixel"""
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    x0, x1, y0, y1 = min(xs), max(xs), min(ys), max(ys)
    if x0 == x1 or y0 == y1:
        return None
    lo = [[0] * w for _ in range(h)]
    hi = [[0] * w for _ in range(h)]
    # sizes of a bin that are powers of two divide whole numbers without rounding
    e = 0 if all(type(c) is int for p in pts for c in p) and {(x1 - x0) / (w - 1), (y1 - y0) / (h - 1)} <= {1, 2, 4} else 1e-9
    for x, y in pts:
        a, b = (x - x0) / (x1 - x0) * (w - 1), (y - y0) / (y1 - y0) * (h - 1)
        s = {(i, j) for i in (math.floor(a - e), math.floor(a + e)) for j in (math.floor(b - e), math.floor(b + e)) if 0 <= i < w and 0 <= j < h}
        for i, j in s:
            hi[j][i] += 1
            lo[j][i] += len(s) == 1
    return lo, hi


def judge(ctx, img, pts, w, h, bits, what):
    ctx.eq((img.w, img.h, img.bits), (w, h, bits), 'image', what)
    ctx.eq(img.pal, model.decode(L.newBMP(1, 1, bits)).pal, 'palette', what)
    lo, hi = bins(pts, w, h)
    mn = (min(map(min, lo)), min(map(min, hi)))
    mx = (max(map(max, lo)), max(map(max, hi)))
    top = (1 << bits) - 1
    ctx.count('points', len(pts))
    for y in range(h):
        for x in range(w):
            a, b = lo[y][x], hi[y][x]
            # more points, less least and less most: brighter
            v0 = max(0, a - mn[1]) / max(1, mx[1] - mn[0]) * top
            v1 = min(1, max(0, b - mn[0]) / max(1, mx[0] - mn[1])) * top
            e = 1e-9 * top + 1e-9
            got = img.px[y][x]
            if not math.floor(v0 - e) <= got <= math.floor(v1 + e):
                raise Violation('image', f'{what}: {x, y} is {got:#x}, wanted {math.floor(v0 - e):#x} to {math.floor(v1 + e):#x} for {a} to {b} of {mn} to {mx} points')
            if a == b and mn[0] == mn[1] and mx[0] == mx[1]:
                ctx.count('exact')


def flat(pts, w, h):
    r = bins(pts, w, h)
    if r is None:
        return True
    lo, hi = r
    return max(map(max, lo)) <= min(map(min, hi))


def size(rng):
    return rng.choice((2, 3, rng.randint(2, 30))), rng.choice((2, 3, rng.randint(2, 30))), rng.choice(model.BITS)


def st_image(ctx, rng):
    w, h, bits = size(rng)
    n = rng.choice((2, 3, 10, 100, 1000))
    k = rng.choice((.01, 1, 50, 10 ** rng.uniform(-3, 5)))
    if rng.random() < .3:       # every pixel holds points
        w, h, n = rng.randint(2, 4), rng.randint(2, 4), rng.randint(20, 300)
    if w < 5 and h < 5 and n not in (2, 3, 10, 100, 1000):
        k = rng.choice((1, 2, 4))
        pts = [(rng.randrange(w) * k, rng.randrange(h) * k) for _ in range(n)]
    elif rng.random() < .5:
        pts = [(rng.gauss(0, k), rng.gauss(3, k)) for _ in range(n)]
    else:
        pts = [(rng.randint(-9, 9) * k, rng.choice((0, rng.uniform(-1, 2)))) for _ in range(n)]
    if flat(pts, w, h):
        ctx.count('skipped')
        return
    ctx.observe('image', w, h, bits, pts)
    what = f'{n} points such as {pts[:3]} on {w}x{h}x{bits}'
    if rng.random() < .5:
        buf = call(ctx, L.plotattractor, [list(p) for p in pts], w, h, bits, mutates=())[0]
    else:
        buf = call(ctx, L.plotattractorcomplex, [complex(*p) for p in pts], w, h, bits, mutates=())[0]
    judge(ctx, model.decode(buf), pts, w, h, bits, what)


def par(rng, kind):
    u = rng.uniform
    a = [u(-2.5, 2.5) for _ in range(4)]
    if kind == 'ikeda':
        return [u(.5, 1), u(.3, .9), u(.1, .8), u(3, 7)]
    if kind == 'gumowskimira':
        return [u(-1, 1), u(-1, 1), u(-.8, .8), 1]
    if kind == 'hopalong':
        return a[:3]
    if kind == 'symmetricicon':
        return [u(-.1, .1), u(-.1, .1), u(.9, 1.1), u(-.1, 0), u(.1, .2), rng.choice((0, u(-.1, .1))), u(-2.1, -2), rng.randint(3, 7)]
    if kind == 'duffing':
        return [u(.1, .3), u(.2, .4), u(.8, 1.2), u(.01, .05)]
    return a


KINDS = 'ikeda', 'n', 'peterdejong', 'duffing', 'hopalong', 'symmetricicon', 'clifford', 'fractaldream', 'gumowskimira'


def st_orbit(ctx, rng):
    kind = KINDS[rng.index % len(KINDS)]
    w, h, bits = size(rng)
    n = rng.choice((20, 500, 3000, rng.randint(2, 6000)))
    p = par(rng, kind)
    full = [0, 0, 0, p[3], *p[:3]] if kind == 'duffing' else p
    try:
        orbit = getattr(F, f'{kind}attractorlist')(*full, n)
    except OverflowError:
        ctx.count('skipped')
        return
    pts = [(z.real, z.imag) if isinstance(z, complex) else tuple(z) for z in orbit]
    if not all(abs(v) < 1e6 for q in pts for v in q) or flat(pts, w, h):
        ctx.count('skipped')
        return
    ctx.observe(kind, w, h, bits, p, n)
    what = f'{kind} attractor {p} {n} points on {w}x{h}x{bits}'
    if rng.random() < .5:
        img = model.decode(call(ctx, getattr(L, f'{kind}attractor'), w, h, bits, *p, n, mutates=())[0])
    else:
        with Dir() as d:
            f = os.path.join(d, 'a.bmp')
            if rng.random() < .4:
                with open(f, 'wb') as s:
                    s.write(b'x' * rng.choice((3, 9000)))
            with open(os.path.join(d, 'other'), 'wb') as s:
                s.write(b'keep')
            keep = listing(d)['other']
            call(ctx, getattr(L, f'save{kind}attractor2file'), f, w, h, bits, *p, n)
            ctx.check(sorted(os.listdir(d)) == ['a.bmp', 'other'] and listing(d)['other'] == keep, 'file', f'{what}: other files changed')
            img = model.decode(rd(f))
    judge(ctx, img, pts, w, h, bits, what)


STAGES = [Stage('image', st_image, 30), Stage('orbit', st_orbit, 36)]
