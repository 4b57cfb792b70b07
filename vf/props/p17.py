"""P17 inverting, outlining and line erasing of images and rectangles."""
from pythonbmp import BITMAPlib as L
from pythonbmp import colors as C
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P17'
RULE = ('one case = one inversion, outline or line erasure of a random image of any depth or of a rectangle in it, '
        'corners in any order; whole image compared with the operation on a grid of pixels; distinct = distinct '
        '(operation, content, rectangle, parameters)')
ASSUMPTIONS = ['row padding may take any value in whole-image inversions and erasures']


def setup(ctx, rng):
    img = gen.image(rng, big=26) if rng.random() < .97 else gen.image(rng, w=rng.randint(1, 6), h=rng.randint(200, 700))
    buf = gen.buf(rng, img)
    c = gen.rect(rng, img.w, img.h)
    x1, y1, x2, y2 = c
    if rng.random() < .5:
        x1, x2 = x2, x1
    if rng.random() < .5:
        y1, y2 = y2, y1
    return img, buf, InPlace(ctx, buf), c, (x1, y1, x2, y2)


def st_invert(ctx, rng):
    img, buf, mon, c, a = setup(ctx, rng)
    whole = rng.random() < .4
    if whole:
        c = 0, 0, img.w - 1, img.h - 1
    m = (1 << img.bits) - 1
    want = img.copy()
    for y in range(c[1], c[3] + 1):
        for x in range(c[0], c[2] + 1):
            want.px[y][x] ^= m
    ctx.observe('invert', img.key(), c)
    what = 'invertimagebits' if whole else f'invertregion {a}'
    if whole:
        call(ctx, L.invertimagebits, buf)
    else:
        call(ctx, L.invertregion, buf, *a)
    compare_px(what, mon.after(what, pads=not whole), want, 'invert')
    if whole:
        L.invertimagebits(buf)
    else:
        L.invertregion(buf, *a)
    ctx.check(bytes(buf) == mon.raw, 'invert-twice', f'{what} twice is not the original')


def st_outline(ctx, rng):
    img, buf, mon, c, a = setup(ctx, rng)
    whole = rng.random() < .4
    if whole:
        c = 0, 0, img.w - 1, img.h - 1
    want = img.copy()
    for y in range(c[1], c[3] + 1):
        for x in range(c[0], c[2] + 1):
            want.px[y][x] = img.px[y][x] ^ img.px[max(y - 1, c[1])][x]
    ctx.observe('outline', img.key(), c)
    what = 'outline' if whole else f'outlineregion {a}'
    if whole:
        call(ctx, L.outline, buf)
    else:
        call(ctx, L.outlineregion, buf, *a)
    compare_px(what, mon.after(what, pads=not whole), want, 'outline')


def st_erase(ctx, rng):
    img, buf, mon, c, a = setup(ctx, rng)
    whole = rng.random() < .4
    if whole:
        c = 0, 0, img.w - 1, img.h - 1
    n = rng.choice((1, 2, 2, 3, rng.randint(1, 9), rng.randint(2, 40)))
    if rng.random() < .4:
        k = pat = 0
        if whole:
            call(ctx, L.eraseeverynthhorizontalline, buf, n)
        else:
            call(ctx, L.eraseeverynthhorilineinregion, buf, *a, n)
    else:
        k, pat = rng.randint(0, n - 1), rng.choice((0, 255, 0xaa, 0x1b, rng.randrange(256), rng.randrange(1000)))
        if whole:
            call(ctx, L.erasealternatehorizontallines, buf, n, k, pat)
        else:
            call(ctx, L.erasealternatehorizontallinesinregion, buf, *a, n, k, pat)
    want = img.copy()
    b, p = img.bits, pat & 255
    for y in range(c[1], c[3] + 1):
        if (y - c[1] + 1) % n == k:
            for x in range(c[0], c[2] + 1):
                want.px[y][x] = p * 0x10101 if b == 24 else p >> (8 - b - x * b % 8) & ((1 << b) - 1)
    ctx.observe('erase', img.key(), c, n, k, pat)
    what = f'erasing every {n}, number {k}, with {pat:#x} in {"the image" if whole else a}'
    compare_px(what, mon.after(what, pads=not whole), want, 'erase')


def st_refuse(ctx, rng):
    img, buf, mon, c, a = setup(ctx, rng)
    c = list(c)
    k = rng.randrange(4)
    c[k] = rng.choice((-1, (img.w, img.h)[k & 1], (img.w, img.h)[k & 1] + 70000, float(c[k])))
    fn, par = rng.choice(((L.invertregion, ()), (L.outlineregion, ()), (L.eraseeverynthhorilineinregion, (2,)),
                          (L.erasealternatehorizontallinesinregion, (2, 1, 255))))
    _, out = call(ctx, fn, buf, *c, *par)
    ctx.observe('refuse', fn.__name__, img.key(), c)
    what = f'{fn.__name__} {c} on {img.w}x{img.h}x{img.bits}'
    ctx.check(bytes(buf) == mon.raw and out.strip(), 'refusal', f'{what}: printed {out!r}')


def st_buf(ctx, rng):
    row = model.array('B', [rng.randrange(256) for _ in range(rng.randint(0, 20))])
    got, _ = call(ctx, C.invertbitsinbuffer, row, mutates=())
    ctx.observe('buf', bytes(row))
    ctx.eq(bytes(got), bytes(255 - v for v in row), 'invert-buffer', 'invertbitsinbuffer')


STAGES = [Stage('invert', st_invert, 100), Stage('outline', st_outline, 100), Stage('erase', st_erase, 150),
          Stage('refuse', st_refuse, 80), Stage('buffer', st_buf, 20)]
