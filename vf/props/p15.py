"""P15 colour adjustments of images and rectangles (24 bits) and of colours."""
from pythonbmp import BITMAPlib as L
from pythonbmp import colors as C
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P15'
RULE = ('one case = one colour adjustment of a random 24 bit image, of a rectangle in it, of a row buffer or of a '
        'single colour; every channel of every pixel is compared with the exact real-valued definition (rounding '
        'margin stated), pixels outside must stay; distinct = distinct (operation, content, rectangle, parameters)')
ASSUMPTIONS = ['a channel may be rounded up or down where the definition gives a fraction (gamma: at most 2 below)',
               'gamma >= 0, factors >= 0, threshold limits 0..255']
FL = 'P15-last-pixel'
EPS = 1e-6


def sat(v):
    return min(255, max(0, v))


def mono_ok(o, n, _):
    m = sum(o) / 3
    return len(set(n)) == 1 and abs(n[0] - m) < 1


def filter_ok(o, n, f):
    return all(abs(b - sat(a * k)) <= .5 + EPS for a, b, k in zip(o, n, f))


def bright_ok(o, n, p):
    return all(abs(b - sat(a * (1 + p / 100))) <= .5 + EPS for a, b in zip(o, n))


def gamma_ok(o, n, g):
    m = max(o)
    if m == 0:
        return tuple(n) == (0, 0, 0)
    top = 255 * (m / 255) ** g
    return all(-2 < b - a / m * top < .5 + EPS and 0 <= b <= 255 for a, b in zip(o, n))


def thr_ok(o, n, lim):
    lo, hi = sorted(lim)
    m = max(o)
    if m == 0:
        return tuple(n) in ((0, 0, 0),)
    k = lo / m if m < lo else hi / m if m > hi else 1
    return all(-1 < b - a * k < .5 + EPS for a, b in zip(o, n))


def params(rng):
    f = [rng.choice((0, .5, 1, 1, 1.7, rng.random(), rng.uniform(0, 3))) for _ in 'rgb']
    lim = [rng.choice((0, 255, rng.randrange(256))) for _ in 'ab']
    g = rng.choice((0, .5, 1, 2, rng.uniform(.1, 4)))
    p = rng.choice((-100, -50, 0, 30, 100, 250, rng.uniform(-140, 300)))
    return rng.choice((('mono', (), mono_ok), ('filter', (f,), filter_ok), ('bright', (p,), bright_ok),
                       ('gamma', (g,), gamma_ok), ('thr', (lim,), thr_ok)))


REG = {'mono': L.monofilterto24bitregion, 'filter': L.colorfilterto24bitregion, 'bright': L.brightnesseadjto24bitregion,
       'gamma': L.gammaadjto24bitregion, 'thr': L.thresholdadjto24bitregion}
IMG = {'mono': L.monofilterto24bitimage, 'filter': L.colorfilterto24bitimage, 'bright': L.brightnesseadjto24bitimage,
       'gamma': L.gammaadjto24bitimage, 'thr': L.thresholdadjto24bitimage}
CLR = {'mono': C.monochrome, 'filter': C.colorfilter, 'bright': C.brightnessadjust, 'gamma': C.gammacorrect, 'thr': C.thresholdadjust}


def split(v):
    return v >> 16, v >> 8 & 255, v & 255


def picture(rng):
    img = gen.image(rng, bits=24, big=22)
    if rng.random() < .3:      # extremes and greys
        pick = [0, 0xffffff, 0x010101, 0xfefefe, 0xff0000, 0x00ff00, 0x0000ff, 0x000001, gen.color(rng, 24)]
        img.px = [[rng.choice(pick) for _ in r] for r in img.px]
    return img


def judge(ctx, got, img, x1, y1, x2, y2, name, par, ok, what):
    p = par[0] if par else None
    for y in range(img.h):
        for x in range(img.w):
            o, n = img.px[y][x], got.px[y][x]
            if not (x1 <= x <= x2 and y1 <= y <= y2):
                if o != n:
                    raise Violation('outside', f'{what}: {x, y} outside the rectangle {o:#x} -> {n:#x}')
            elif not ok(split(o), split(n), p):
                if name == 'filter' and x == x2 and o == n and ctx.finding(FL):
                    ctx.saw_known(FL, what)
                    continue
                raise Violation(name, f'{what} on {img.w}x{img.h}: {x, y} {split(o)} -> {split(n)}')
    ctx.count('pixels_judged', (x2 - x1 + 1) * (y2 - y1 + 1))


def st_region(ctx, rng):
    img = picture(rng)
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    name, par, ok = params(rng)
    whole = rng.random() < .35
    c = (0, 0, img.w - 1, img.h - 1) if whole else gen.rect(rng, img.w, img.h)
    x1, y1, x2, y2 = c
    if whole:
        fn = IMG[name]
        call(ctx, fn, buf, *par)
    else:
        fn = REG[name]
        if rng.random() < .5:
            x1, x2 = x2, x1
        if rng.random() < .5:
            y1, y2 = y2, y1
        call(ctx, fn, buf, x1, y1, x2, y2, *par)
    what = f'{fn.__name__} {"" if whole else (x1, y1, x2, y2)} {par}'
    ctx.observe(name, img.key(), c, par)
    judge(ctx, mon.after(what), img, *c, name, par, ok, what)


def st_color(ctx, rng):
    name, par, ok = params(rng)
    o = tuple(rng.choice((0, 1, 127, 128, 254, 255, rng.randrange(256))) for _ in 'rgb')
    res, _ = call(ctx, CLR[name], list(o), *par, mutates=())
    n = tuple(res)
    ctx.observe('colour', name, o, par)
    what = f'{CLR[name].__name__} {o} {par}'
    ctx.check(len(n) == 3 and all(isinstance(v, int) and 0 <= v <= 255 for v in n), 'colour-range', f'{what} -> {n}')
    if name == 'thr' and max(o) == 0:
        return       # black has no hue: it may stay or become the lower limit times nothing
    p = par[0] if par else None
    good = ok(o, n, p)
    if not good and name == 'filter':    # truncated to whole numbers
        good = all(-1 < b - sat(a * k) <= .5 + EPS for a, b, k in zip(o, n, p))
    ctx.check(good, 'colour', f'{what} -> {n}')


def st_buf(ctx, rng):
    """row buffers: the same adjustments on blue, green, red bytes"""
    n = rng.randint(1, 14)
    name, par, ok = params(rng)
    row = [tuple(rng.choice((0, 255, rng.randrange(256))) for _ in 'bgr') for _ in range(n)]
    buf = model.array('B', [v for c in row for v in c])
    p = par[0] if par else None
    if name == 'bright':
        res, _ = call(ctx, C.applybrightnessadjtoBGRbuf, buf, p, mutates=())
    elif name == 'thr':
        res, _ = call(ctx, C.applythresholdadjtoBGRbuf, buf, p)
    else:
        ap, fn = {'mono': (C.applymonochromefiltertoBGRbuf, C.monochromefiltertoBGRbuf),
                  'filter': (C.applycolorfiltertoBGRbuf, C.colorfiltertoBGRbuf),
                  'gamma': (C.applygammaBGRbuf, C.gammaBGRbuf)}[name]
        if rng.random() < .5:
            call(ctx, ap, buf, *par)
            res = buf
        else:
            res, _ = call(ctx, fn, buf, *par)
    ctx.observe('buf', name, tuple(row), par)
    got = [tuple(res[3 * i:3 * i + 3]) for i in range(n)]
    ctx.eq(len(res), 3 * n, 'buffer', f'{name} of a row of {n}')
    for i, (o, g) in enumerate(zip(row, got)):
        if not ok(o[::-1], g[::-1], p):
            if name == 'filter' and i == n - 1 and o == g and ctx.finding(FL):
                ctx.saw_known(FL, f'row of {n}')
                continue
            raise Violation('buffer', f'{name} {par} on bgr {o} -> {g} (pixel {i} of {n})')


def st_refuse(ctx, rng):
    name, par, ok = params(rng)
    bits = rng.choice((1, 4, 8, 24))
    img = gen.image(rng, bits=bits, big=14)
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    whole = bits < 24 and rng.random() < .4
    c = list(gen.rect(rng, img.w, img.h))
    if bits == 24:
        k = rng.randrange(4)
        c[k] = rng.choice((-1, (img.w, img.h)[k & 1], (img.w, img.h)[k & 1] + 70000, float(c[k])))
    if whole:
        _, out = call(ctx, IMG[name], buf, *par)
    else:
        _, out = call(ctx, REG[name], buf, *c, *par)
    ctx.observe('refuse', name, img.key(), c)
    what = f'{name} {par} of {"the image" if whole else c} of {img.w}x{img.h}x{bits}'
    mon.after(what)
    ctx.check(bytes(buf) == mon.raw, 'refusal', f'{what}: image changed')
    ctx.check(out.strip(), 'no-message', what)


STAGES = [Stage('region', st_region, 200), Stage('colour', st_color, 250), Stage('buffer', st_buf, 150), Stage('refuse', st_refuse, 80)]
