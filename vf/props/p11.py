"""P11 resizing and pixelizing whole images."""
from pythonbmp import BITMAPlib as L
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P11'
RULE = ('one case = one enlargement, reduction or pixelization of a random image by a random factor, every pixel of '
        'the result compared with the source pixel or block mean it stands for; distinct = distinct (operation, '
        'size, depth, content, factor)')
ASSUMPTIONS = ['blocks of a reduction are counted from the left and from the bottom; columns and rows that fill no '
               'whole block are left out', 'the mean of a block may be rounded either way']


def grow(px, n):
    return [[v for v in row for _ in range(n)] for row in px for _ in range(n)]


def st_bigger(ctx, rng):
    n = rng.choice((1, 2, 2, 3, 3, 4, 5, 7, 8, 9, 16, 33, rng.randint(1, 40)))
    img = gen.image(rng, big=20 if n < 6 else 6)
    while img.w * img.h * n * n > 200000:
        n = (n + 1) // 2
    buf = gen.buf(rng, img)
    raw = bytes(buf)
    res, _ = call(ctx, L.resizeNtimesbigger, buf, n, mutates=())
    ctx.check(res is not buf, 'new-image', 'resizeNtimesbigger by %d gives the source itself' % n)
    ctx.observe('bigger', img.key(), n)
    what = f'{img.w}x{img.h}x{img.bits} resized {n} times bigger'
    compare_px(what, model.decode(res), model.Img(img.w * n, img.h * n, img.bits, list(img.pal), grow(img.px, n)), 'bigger')
    ctx.check(bytes(buf) == raw, 'source-changed', what)


def means(img, n):
    """exact block sums, rows from the top"""
    W, H = img.w // n, img.h // n
    top = img.h - H * n
    out = []
    for by in range(H):
        row = []
        for bx in range(W):
            s = [0, 0, 0]
            for y in range(top + by * n, top + by * n + n):
                for v in img.px[y][bx * n:bx * n + n]:
                    s[0] += v >> 16
                    s[1] += v >> 8 & 255
                    s[2] += v & 255
            row.append(s)
        out.append(row)
    return out


def check_means(ctx, got, sums, n, what, mech):
    ctx.eq((got.w, got.h), (len(sums[0]), len(sums)), mech + '-size', what)
    for y, row in enumerate(sums):
        for x, s in enumerate(row):
            v = got.px[y][x]
            c = v >> 16, v >> 8 & 255, v & 255
            if any(abs(a * n * n - b) > n * n / 2 + 1e-6 for a, b in zip(c, s)):
                raise Violation(mech, f'{what}: pixel {x, y} is {c}, mean of its block {[b / n / n for b in s]}')


def source24(rng):
    n = rng.choice((1, 2, 2, 3, 3, 4, 5, 6, 7, 9))
    k = rng.random()
    if k < .03:      # large blocks, some of one extreme color
        n = rng.randint(10, 40)
        return n, gen.image(rng, bits=24, w=n * rng.randint(1, 2) + rng.choice((0, 0, 1, n - 1)), h=n * rng.randint(1, 2) + rng.choice((0, 0, 1)),
                            style=rng.choice((None, 'white', 'flat')))
    if k < .4:
        w, h = n * rng.randint(1, 8), n * rng.randint(1, 8)
    else:
        w, h = n + rng.randint(0, 25), n + rng.randint(0, 25)
    return n, gen.image(rng, bits=24, w=w, h=h)


def st_smaller(ctx, rng):
    n, img = source24(rng)
    buf = gen.buf(rng, img)
    raw = bytes(buf)
    res, _ = call(ctx, L.resizeNtimessmaller, buf, n, mutates=())
    ctx.check(res is not buf, 'new-image', 'resizeNtimessmaller by %d gives the source itself' % n)
    ctx.observe('smaller', img.key(), n)
    what = f'{img.w}x{img.h} resized {n} times smaller'
    check_means(ctx, model.decode(res), means(img, n), n, what, 'smaller')
    ctx.check(bytes(buf) == raw, 'source-changed', what)


def st_pixelize(ctx, rng):
    n, img = source24(rng)
    buf = gen.buf(rng, img)
    raw = bytes(buf)
    res, _ = call(ctx, L.pixelizenxn, buf, n, mutates=())
    ctx.check(res is not buf, 'new-image', 'pixelizenxn by %d gives the source itself' % n)
    ctx.observe('pixelize', img.key(), n)
    what = f'{img.w}x{img.h} pixelized {n}'
    got = model.decode(res)
    sums = means(img, n)
    ctx.eq((got.w, got.h), (len(sums[0]) * n, len(sums) * n), 'pixelize-size', what)
    small = model.Img(got.w // n, got.h // n, 24, [], [row[::n] for row in got.px[::n]])
    compare_px(what + ': blocks of one colour', got, model.Img(got.w, got.h, 24, [], grow(small.px, n)), 'pixelize')
    check_means(ctx, small, sums, n, what, 'pixelize')
    ctx.check(bytes(buf) == raw, 'source-changed', what)


def st_inverse(ctx, rng):
    """bigger then smaller is the identity"""
    n = gen.upto(rng, 1, 6, 14)
    img = gen.image(rng, bits=24, big=12)
    buf = gen.buf(rng, img)
    res = L.resizeNtimessmaller(L.resizeNtimesbigger(buf, n), n)
    ctx.observe('inverse', img.key(), n)
    compare_px(f'{img.w}x{img.h} bigger and smaller by {n}', model.decode(res), img, 'inverse')


def st_refuse(ctx, rng):
    img = gen.image(rng, bits=rng.choice((1, 4, 8)), big=12)
    buf = gen.buf(rng, img)
    raw = bytes(buf)
    n = gen.upto(rng, 1, 4, 14)
    res, out = call(ctx, L.resizeNtimessmaller, buf, n, mutates=())
    ctx.observe('refuse', img.key(), n)
    ctx.check(res is None and out.strip() and bytes(buf) == raw, 'refuse', f'{img.bits} bit image reduced: {type(res)} {out!r}')


STAGES = [Stage('bigger', st_bigger, 100), Stage('smaller', st_smaller, 120), Stage('pixelize', st_pixelize, 80),
          Stage('inverse', st_inverse, 40), Stage('refuse', st_refuse, 20)]
