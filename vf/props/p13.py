"""P13 reading whole images: iteration, histogram, neighbours, edges, regions by colour."""
import math
from pythonbmp import BITMAPlib as L
from pythonbmp import primitives2D as P
from .. import model, gen, draw
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P13'
RULE = ('one case = one enumeration (pixels, colours, histogram, neighbours, edges, region of a colour, palette from '
        'a histogram) over a random image, compared with the same enumeration of a plain pixel grid; distinct = '
        'distinct (operation, image, parameters)')
ASSUMPTIONS = ['an edge list names, for each pixel with a differing neighbour, one of the differing neighbours']


def pt(p):
    return tuple(p)


def setup(ctx, rng, bits=None, big=20, small=False):
    k = rng.random()
    img = gen.image(rng, bits=bits, big=big, style=rng.choice(('few', 'few', 'rand', 'flat', 'ramp')) if small else None)
    buf = gen.buf(rng, img)
    return img, buf, bytes(buf)


def untouched(ctx, buf, raw, what):
    ctx.check(bytes(buf) == raw, 'image-changed', f'{what} changed the image')


def st_iter(ctx, rng):
    img, buf, raw = setup(ctx, rng)
    col = rng.random() < .5
    fn = L.iterimagecolor if col else L.iterimageRGB
    msgs = rng.choice((('', '', ''), ('wait', '.', 'end')))
    got, _ = call(ctx, lambda b: [(pt(p), c if col else tuple(c)) for p, c in fn(b, *msgs)], buf, mutates=())
    want = [((x, y), img.px[y][x] if col else img.rgb(x, y)) for y in range(img.h - 1, -1, -1) for x in range(img.w)]
    what = f'{fn.__name__} over {img.w}x{img.h}x{img.bits}'
    ctx.observe('iter', col, img.key())
    if len(got) != len(want):
        raise Violation('iteration', f'{what}: {len(got)} pixels')
    bad = [(g, w) for g, w in zip(got, want) if g != w]
    ctx.check(not bad, 'iteration', f'{what}: {len(bad)} differ, first (got, want) {bad[:4]}')
    untouched(ctx, buf, raw, what)


def st_hist(ctx, rng):
    img, buf, raw = setup(ctx, rng, small=True)
    res, _ = call(ctx, L.colorhistogram, buf, mutates=())
    cnt = {}
    for r in img.px:
        for v in r:
            cnt[v] = cnt.get(v, 0) + 1
    got = [tuple(e) for e in res]
    what = f'histogram of {img.w}x{img.h}x{img.bits}'
    ctx.observe('hist', img.key())
    ctx.eq(sorted(got), sorted((n, c) for c, n in cnt.items()), 'histogram', what)
    ctx.check(all(a[0] >= b[0] for a, b in zip(got, got[1:])), 'histogram-order', f'{what} not from the most frequent down: {got[:6]}')
    untouched(ctx, buf, raw, what)


def st_newpal(ctx, rng):
    """a palette made of the most frequent colours of a 24 bit image"""
    img = gen.image(rng, bits=24, big=14, style=rng.choice(('few', 'rand', 'ramp')))
    if rng.random() < .5:
        base = [rng.randrange(1 << 24) for _ in range(4)]
        img.px = [[max(0, min(0xffffff, rng.choice(base) ^ rng.choice((0, 0, 1, 0x100, 0x010101, 0x30)))) for _ in r] for r in img.px]
    buf = gen.buf(rng, img)
    raw = bytes(buf)
    bits = rng.choice((1, 4, 8))
    thr = rng.choice((1, 5, 20, 60, rng.uniform(.5, 150)))
    dst = gen.image(rng, bits=bits, big=12)
    dbuf = gen.buf(rng, dst)
    mon = InPlace(ctx, dbuf)
    pal, _ = call(ctx, L.setnewpalfromsourcebmp, buf, dbuf, thr, mutates=(1,))
    pal = [tuple(e) for e in pal]
    ctx.observe('newpal', img.key(), bits, thr)
    what = f'palette of {bits} bits, threshold {thr:.3g}, of {img.w}x{img.h}'
    now = mon.after(what, pal=False)
    ctx.eq(now.px, dst.px, 'newpal-pixels', what)
    untouched(ctx, buf, raw, what)
    n = 1 << bits
    ctx.check(1 <= len(pal) <= n, 'newpal', f'{what}: {len(pal)} entries')
    ctx.eq(now.pal, pal + dst.pal[len(pal):], 'newpal', f'{what}: palette in the image')
    hist = {}
    for r in img.px:
        for v in r:
            hist[v] = hist.get(v, 0) + 1
    rgb = {(v >> 16, (v >> 8) & 255, v & 255): c for v, c in hist.items()}
    ctx.eq(pal[0], (0, 0, 0), 'newpal', f'{what}: first entry')
    for i, e in enumerate(pal[1:], 1):
        ctx.check(e in rgb, 'newpal', f'{what}: {e} is no colour of the image')
        for o in pal[:i]:
            ctx.check(math.dist(e, o) >= thr - 1e-9, 'newpal-similar', f'{what}: {e} and {o} are closer than the threshold')
    freq = [rgb[e] for e in pal[1:]]
    ctx.check(freq == sorted(freq, reverse=True), 'newpal-order', f'{what}: frequencies {freq}')
    for c, f in rgb.items():
        near = any(math.dist(c, e) < thr + 1e-9 for e in pal)
        ctx.check(near or len(pal) == n and f <= min(freq), 'newpal-missing', f'{what}: {c} ({f} pixels) has no entry near it')


def neighbours(x, y, w, h, center):
    return [(u, v) for v in (y - 1, y, y + 1) for u in (x - 1, x, x + 1)
            if 0 <= u < w and 0 <= v < h and (center or (u, v) != (x, y))]


def st_neigh(ctx, rng):
    img, buf, raw = setup(ctx, rng, big=12)
    x, y = rng.randrange(img.w), rng.randrange(img.h)
    if rng.random() < .5:
        x, y = rng.choice((0, img.w - 1)), rng.choice((0, 1 % img.h, img.h - 1))
    mk = rng.choice((list, tuple))
    cen = rng.random() < .5
    got, _ = call(ctx, lambda v: [pt(p) for p in P.itergetneighbors(v, img.w, img.h, cen)], mk((x, y)), mutates=())
    what = f'neighbours of {x, y} in {img.w}x{img.h}'
    want = neighbours(x, y, img.w, img.h, cen)
    ctx.observe('neigh', img.key(), x, y, cen)
    ctx.eq(sorted(got), sorted(want), 'neighbours', what)
    got2, _ = call(ctx, P.getneighborlist, mk((x, y)), img.w, img.h, cen, mutates=())
    ctx.eq(sorted(map(pt, got2)), sorted(want), 'neighbours', what + ' (list)')
    got, _ = call(ctx, L.getneighborcolorlist, buf, mk((x, y)), mutates=())
    ctx.eq(sorted(map(pt, got)), sorted(img.rgb(u, v) for u, v in neighbours(x, y, img.w, img.h, True)), 'neighbour-colours', what)
    untouched(ctx, buf, raw, what)


def st_edge(ctx, rng):
    img, buf, raw = setup(ctx, rng, big=14, small=True)
    if rng.random() < .3:          # one odd pixel in a flat image
        img.px = [[img.px[0][0]] * img.w for _ in range(img.h)]
        img.px[rng.choice((0, img.h - 1, rng.randrange(img.h)))][rng.choice((0, img.w - 1, rng.randrange(img.w)))] ^= 1
        buf = gen.buf(rng, img)
        raw = bytes(buf)
    thr = rng.choice((0, 1, 30, 128, 300, 450, rng.uniform(0, 400)))
    got, _ = call(ctx, L.getimagedgevert, buf, thr, mutates=())
    what = f'edges of {img.w}x{img.h}x{img.bits} above {thr:.4g}'
    untouched(ctx, buf, raw, what)
    has, may = set(), set()
    for y in range(img.h):
        for x in range(img.w):
            for q in neighbours(x, y, img.w, img.h, False):
                d = math.dist(img.rgb(x, y), img.rgb(*q))
                if abs(d - thr) < 1e-6 and d != thr and thr % 1:
                    return
                if d > thr:
                    has.add((x, y))
                    break
    pts = [pt(p) for p in got]
    ctx.observe('edge', img.key(), thr)
    extra = set(pts) - has
    ctx.check(not extra, 'edge-extra', f'{what}: {sorted(extra)[:5]} have no differing neighbour')
    ctx.eq(len(pts), len(has), 'edge-count', f'{what}: number of edge points')
    s = set(pts)
    for x, y in has:
        ctx.check(any(q in s and math.dist(img.rgb(*q), img.rgb(x, y)) > thr for q in neighbours(x, y, img.w, img.h, False)),
                  'edge-missing', f'{what}: none at or beside {x, y}')
    if rng.random() < .5:
        r = gen.upto(rng, 0, 3, 14)
        c = gen.color(rng, img.bits)
        mon = InPlace(ctx, buf)
        call(ctx, L.plotimgedges, buf, thr, r, c)
        want = img.copy()
        disc = [(0, 0)] if r <= 1 else [(dx, dy) for dy, (a, b) in draw.disc(ctx, rng, r).items() for dx in range(a, b + 1)]
        now = mon.after('plotimgedges')
        if img.bits == 4 and r > 1:
            return
        for x, y in s:
            for dx, dy in disc:
                if 0 <= x + dx < img.w and 0 <= y + dy < img.h:
                    want.px[y + dy][x + dx] = c
        compare_px(f'{what} plotted with pen {r}', now, want, 'edge-plot')


def st_region(ctx, rng):
    img, buf, raw = setup(ctx, rng, big=16, small=True)
    rgb = img.rgb(rng.randrange(img.w), rng.randrange(img.h))
    if rng.random() < .4:
        rgb = tuple(max(0, min(255, c + rng.randint(-20, 20))) for c in rgb)
    thr = rng.choice((1, 2, 10, 40.5, 200, rng.randint(1, 450)))
    rgb = rng.choice((list, tuple))(rgb)
    got, _ = call(ctx, L.getimageregionbyRGB, buf, rgb, thr, mutates=())
    what = f'pixels within {thr} of {rgb} of {img.w}x{img.h}x{img.bits}'
    want = [(x, y) for y in range(img.h) for x in range(img.w) if math.dist(img.rgb(x, y), rgb) < thr]
    ctx.observe('region', img.key(), tuple(rgb), thr)
    ctx.eq(sorted(map(pt, got)), sorted(want), 'region', what)
    untouched(ctx, buf, raw, what)
    if want:
        b, _ = call(ctx, P.rectboundarycoords, got, mutates=())
        xs, ys = zip(*want)
        ctx.eq(tuple(map(pt, b)), ((min(xs), min(ys)), (max(xs), max(ys))), 'bounding-box', what)


STAGES = [Stage('iterate', st_iter, 150), Stage('histogram', st_hist, 80), Stage('newpal', st_newpal, 60),
          Stage('neighbours', st_neigh, 150), Stage('edges', st_edge, 80), Stage('region', st_region, 80)]
