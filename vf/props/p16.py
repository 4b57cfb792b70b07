"""P16 gradients: brightness gradients, gradient rectangles and gradient shapes."""
import math
from pythonbmp import BITMAPlib as L
from pythonbmp import mathlib as M
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P16'
RULE = ('one case = one gradient (brightness gradient of an image or rectangle, gradient filled rectangle or '
        'background, gradient pen, circle, ellipse, polygon, sphere, orb) on a random image; every pixel compared '
        'with the colour its position or distance defines; distinct = distinct (operation, content, geometry, '
        'colours, interpolation)')
ASSUMPTIONS = ['a channel may be rounded either way', 'the plain shapes a gradient shape is made of are judged by P06',
               'colour factors 0..1, brightness 0..255 for colours, percentages for brightness gradients']
FT, FO = 'P16-top-row', 'P16-grad-origin'
STEPS = {'lerp': lambda v: v, 'smoothsteplerp': lambda v: v * v * (3 - 2 * v),
         'smoothersteplerp': lambda v: v ** 3 * (v * (6 * v - 15) + 10),
         'smootheststeplerp': lambda v: v ** 4 * (35 + v * (-84 + v * (70 - 20 * v)))}


def interp(rng):
    n = rng.choice(('lerp', 'lerp', *STEPS))
    return n, getattr(M, n), STEPS[n]


def mix(a, b, t):
    return [x + (y - x) * t for x, y in zip(a, b)]


def split(v):
    return v >> 16, v >> 8 & 255, v & 255


def close(c, want, tol):
    return all(abs(a - b) <= tol for a, b in zip(c, want))


def st_bright(ctx, rng):
    img = gen.image(rng, bits=24, big=20)
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    lum = [rng.choice((0, -100, 100, rng.randint(-120, 250))) for _ in 'ab']
    vert, whole = rng.random() < .5, rng.random() < .4
    c = (0, 0, img.w - 1, img.h - 1) if whole else gen.rect(rng, img.w, img.h)
    x1, y1, x2, y2 = c
    if whole:
        fn = L.verticalbrightnessgradto24bitimage if vert else L.horizontalbrightnessgradto24bitimage
        call(ctx, fn, buf, lum)
    else:
        fn = L.verticalbrightnessgradto24bitregion if vert else L.horizontalbrightnessgradto24bitregion
        a = [x1, y1, x2, y2]
        if rng.random() < .5:
            a[0], a[2] = a[2], a[0]
        if rng.random() < .5:
            a[1], a[3] = a[3], a[1]
        call(ctx, fn, buf, *a, lum)
    ctx.observe('bright', fn.__name__, img.key(), c, lum)
    what = f'{fn.__name__} {c} {lum} on {img.w}x{img.h}'
    got = mon.after(what)
    for y in range(img.h):
        for x in range(img.w):
            o, n = img.px[y][x], got.px[y][x]
            if not (x1 <= x <= x2 and y1 <= y <= y2):
                if o != n:
                    raise Violation('outside', f'{what}: {x, y} outside the rectangle changed')
                continue
            d, k = (y2 - y1, y - y1) if vert else (x2 - x1, x - x1)
            ps = [lum[0] + (lum[1] - lum[0]) * k / d] if d else lum
            if any(close(split(n), [min(255, max(0, v * (1 + p / 100))) for v in split(o)], .5 + 1e-6) for p in ps):
                continue
            if not vert and y == y1 and o == n and ctx.finding(FT):
                ctx.saw_known(FT, what)
                continue
            raise Violation('brightness-gradient', f'{what}: {x, y} {split(o)} -> {split(n)} at {ps}%')


def nearest_ok(v, pal, c, slack):
    """palette entry v is (about) the nearest non-black entry for colour c, or black for black"""
    if max(c) < 1.5 and (v == 0 or pal[v] == (0, 0, 0)):
        return True
    d = [math.dist(p, c) for p in pal if p != (0, 0, 0)]
    if not d:
        return True
    return math.dist(pal[v], c) <= min(d) + slack


def st_rect(ctx, rng):
    di = rng.random() < .5
    img = gen.image(rng, bits=24 if di else rng.choice((8, 24)), big=rng.choice((20,) * 14 + (150,)))
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    d = rng.randrange(2)
    whole = rng.random() < .3
    name, fn, step = interp(rng)
    c = (0, 0, img.w - 1, img.h - 1) if whole else gen.rect(rng, img.w, img.h)
    x1, y1, x2, y2 = c
    a = [x1, y1, x2, y2]
    if rng.random() < .5:
        a[0], a[2] = a[2], a[0]
    if rng.random() < .5:
        a[1], a[3] = a[3], a[1]
    fnarg = () if name == 'lerp' and rng.random() < .5 else (fn,)
    if whole:
        fnarg, step = (), STEPS['lerp']
    if di:
        cs = gen.color(rng, 24), gen.color(rng, 24)
        ends = [split(v) for v in cs]
        if whole:
            call(ctx, L.fillbackgroundwithdichromaticgrad, buf, [0, 255], *cs, d)
        else:
            call(ctx, L.filleddichromaticgradrect, buf, *a, *cs, d, *fnarg)
    else:
        lum = [rng.choice((0, 255, rng.randrange(256))) for _ in 'ab']
        f = [rng.choice((0, 1, .5, rng.random())) for _ in 'rgb']
        cs = lum, f
        ends = [[k * l for k in f] for l in lum]
        if whole:
            call(ctx, L.fillbackgroundwithgrad, buf, lum, f, d)
        else:
            call(ctx, L.filledgradrect, buf, *a, lum, f, d, *fnarg)
    ctx.observe('rect', di, img.key(), c, cs, d, name)
    what = f'gradient rectangle {c} of {cs} direction {d} {name} on {img.w}x{img.h}x{img.bits}'
    got = mon.after(what)
    n = y2 - y1 + 1 if d else x2 - x1 + 1
    for y in range(img.h):
        for x in range(img.w):
            v = got.px[y][x]
            if not (x1 <= x <= x2 and y1 <= y <= y2):
                if v != img.px[y][x]:
                    raise Violation('outside', f'{what}: {x, y} outside the rectangle changed')
                continue
            k = y if d else x

            def fits(t):
                w = mix(*ends, step(t))
                return close(split(v), w, .5 + 1e-6) if img.bits == 24 else nearest_ok(v, img.pal, w, 1.8)
            if fits((k - (y1 if d else x1)) / n):
                continue
            if ctx.finding(FO) and fits(min(1, k / n)):
                ctx.saw_known(FO, what)
                continue
            raise Violation('gradient', f'{what}: {x, y} is {v:#x}')


def rot(rng):
    return rng.choice((0, 30, 90, 135, rng.randint(0, 359)))


def shape(rng, w, h):
    """(name, call, strokes): strokes are (plain call, colour) from first to last"""
    x, y = rng.randint(-3, w + 3), rng.randint(-3, h + 3)
    r = rng.choice((1, 2, 3, gen.upto(rng, 2, 12, 40)))
    pen = gen.upto(rng, 1, 6, 24)
    lum = [rng.choice((0, 255, rng.randrange(256))) for _ in 'ab']
    f = [rng.choice((0, 1, .5, rng.random())) for _ in 'rgb']
    name, fn, step = interp(rng)
    fa = () if name == 'lerp' and rng.random() < .5 else (fn,)
    pts = [(rng.randint(0, w - 1), rng.randint(0, h - 1)) for _ in range(gen.upto(rng, 2, 5, 12))]

    def level(t):
        l = lum[0] + (lum[1] - lum[0]) * t
        return [k * l for k in f]
    kind = rng.choice(('line', 'tcircle', 'circle', 'dicircle', 'orb', 'ellrot', 'ell', 'poly', 'lines', 'vert', 'sphere', 'sphere2', 'thicken'))
    pens = [(i, i / pen) for i in range(pen, 0, -1)]
    if kind == 'line':
        return kind, (L.gradthickroundline, (pts[0], pts[1], pen, lum, f)), [((L.thickroundline, (pts[0], pts[1], i)), level(t)) for i, t in pens]
    if kind == 'tcircle':
        return kind, (L.gradthickcircle, (x, y, r, pen, lum, f)), [((L.thickcircle, (x, y, r, i)), level(t)) for i, t in pens]
    if kind in ('circle', 'sphere'):
        if kind == 'circle':
            c = L.gradcircle, (x, y, r, lum, f, *fa)
        else:
            lum[:] = 255, 0
            c = L.sphere, (x, y, r, f, *fa)
        return kind, c, [((L.thickcircle, (x, y, i, 2)), level(step(i / r))) for i in range(r - 1, 0, -1)]
    if kind in ('dicircle', 'sphere2'):
        c1, c2 = gen.color(rng, 24), gen.color(rng, 24)
        c = (L.graddichromiccircle, (x, y, r, c1, c2, *fa)) if kind == 'dicircle' else (L.sphere, (x, y, r, [c1, c2], *fa))
        return kind, c, [((L.thickcircle, (x, y, i, 2)), mix(split(c1), split(c2), step(i / r))) for i in range(r - 1, 0, -1)]
    if kind == 'orb':
        j = r >> 1
        return kind, (L.orb, (x, y, r, f)), [((L.filledcircle, (x, y, j)), [255 * k for k in f])] + \
            [((L.thickcircle, (x, y, i, 2)), [k * 255 * (r - i) / j for k in f]) for i in range(r - 1, j, -1)]
    b, a, g = gen.upto(rng, 1, 9, 30), gen.upto(rng, 1, 9, 30), rot(rng)
    if kind == 'ellrot':
        return kind, (L.gradthickellipserot, (x, y, b, a, g, pen, lum, f, *fa)), \
            [((L.thickellipserot, (x, y, b, a, g, i)), level(step(t))) for i, t in pens]
    if kind == 'ell':
        m = max(a, b)
        return kind, (L.gradellipse, (x, y, b, a, lum, f, *fa)), \
            [((L.filledellipse, (x, y, b - m + i, a - m + i)), level(step(i / m))) for i in range(m, 0, -1)]
    if kind == 'poly':
        return kind, (L.gradthickplotpoly, (pts, pen, lum, f, *fa)), [((L.thickplotpoly, (pts, i)), level(step(t))) for i, t in pens]
    if kind == 'lines':
        return kind, (L.gradplotlines, (pts, pen, lum, f, *fa)), [((plainlines, (pts, i)), level(step(t))) for i, t in pens]
    if kind == 'vert':
        return kind, (L.gradvert, (pts, pen, lum, f, *fa)), [((L.plotxypointlist, (pts, i)), level(step(t))) for i, t in pens]
    lum[:] = 255, 0
    pens = [(i, i / 8) for i in range(8, 0, -1)]
    return kind, (L.thickencirclearea, (x, y, r, f)), [((L.thickcircle, (x, y, r, i)), level(t)) for i, t in pens]


def plainlines(b, pts, pen, color):
    L.plotlines(b, pts, color, pen)


def st_shape(ctx, rng):
    bits = rng.choice((24, 24, 24, 8, 1, 4))
    img = gen.image(rng, bits=bits, big=26, lo=4)
    kind, (fn, par), strokes = shape(rng, img.w, img.h)
    if kind == 'dicircle' and bits < 24 or kind == 'sphere2' and bits < 24:
        bits = 24
        img = gen.image(rng, bits=24, w=img.w, h=img.h)
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    call(ctx, fn, buf, *par)
    ctx.observe('shape', kind, img.key(), par[:6])
    what = f'{fn.__name__} {[p if not callable(p) else p.__name__ for p in par]} on {img.w}x{img.h}x{bits}'
    got = mon.after(what)
    # which stroke is the last to paint each pixel
    last = L.newBMP(img.w, img.h, 8)
    for i, ((plain, a), c) in enumerate(strokes):
        plain(last, *a, i + 1)
    last = model.decode(last)
    for y in range(img.h):
        for x in range(img.w):
            k, v, o = last.px[y][x], got.px[y][x], img.px[y][x]
            if k == 0:
                if v != o:
                    raise Violation('outside', f'{what}: {x, y} outside the shape changed')
                continue
            c = strokes[k - 1][1]
            if bits == 24:
                ok = close(split(v), c, 2.01)
            elif bits == 4:
                ok = v == o or any(nearest_ok(v, img.pal, s[1], 4) for s in strokes)
            else:
                ok = nearest_ok(v, img.pal, c, 4)
            if not ok:
                raise Violation('gradient-shape', f'{what}: {x, y} is {split(v) if bits == 24 else img.pal[v]}, '
                                f'want {[round(t, 1) for t in c]} (ring {k} of {len(strokes)})')
    ctx.count('gradient_rings', len(strokes))


def st_refuse(ctx, rng):
    img = gen.image(rng, big=14, lo=3)
    buf = gen.buf(rng, img)
    raw = bytes(buf)
    c = list(gen.rect(rng, img.w, img.h))
    f8, f24 = (L.filledgradrect,), (L.filleddichromaticgradrect, L.verticalbrightnessgradto24bitregion, L.horizontalbrightnessgradto24bitregion)
    fn = rng.choice(f8 + f24)
    ok = img.bits in ((8, 24) if fn in f8 else (24,))
    if ok:
        k = rng.randrange(4)
        c[k] = rng.choice((-1, (img.w, img.h)[k & 1], (img.w, img.h)[k & 1] + 70000, float(c[k])))
    par = {L.filledgradrect: ([0, 255], [1, 1, 1], 0), L.filleddichromaticgradrect: (1, 2, 0)}.get(fn, ([0, 50],))
    _, out = call(ctx, fn, buf, *c, *par)
    ctx.observe('refuse', fn.__name__, img.w, img.h, img.bits, c)
    ctx.check(bytes(buf) == raw and out.strip(), 'refusal', f'{fn.__name__} {c} on {img.w}x{img.h}x{img.bits}: printed {out!r}')


STAGES = [Stage('brightness', st_bright, 120), Stage('rect', st_rect, 150), Stage('shape', st_shape, 150), Stage('refuse', st_refuse, 60)]
