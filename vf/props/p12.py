"""P12 upgrading to 24 bits keeps every visible colour."""
from pythonbmp import BITMAPlib as L
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, compare_px

PID = 'P12'
RULE = ('one case = one upgrade of a random image to 24 bits, compared pixel by pixel with the palette colours of '
        'the source; distinct = distinct (size, depth, palette, content)')


def rgbint(c):
    return c[0] << 16 | c[1] << 8 | c[2]


def upgrade(ctx, img, buf, what):
    raw = bytes(buf)
    res, out = call(ctx, L.upgradeto24bitimage, buf, mutates=())
    ctx.check(res is not buf or img.bits == 24, 'new-image', 'the upgraded image is the source itself')
    ctx.check(bytes(buf) == raw, 'source-changed', what)
    if img.bits == 24:
        ctx.check(bytes(res) == raw and out.strip(), 'already-24', f'{what}: printed {out!r}')
        return res
    pal = [rgbint(c) for c in img.pal]
    want = model.Img(img.w, img.h, 24, [], [[pal[v] for v in r] for r in img.px])
    compare_px(what, model.decode(res), want, 'upgrade')
    return res


def st_upgrade(ctx, rng):
    img = gen.image(rng, bits=rng.choice((1, 4, 8, 1, 4, 8, 24)), big=36)
    buf = gen.buf(rng, img)
    ctx.observe('upgrade', img.key(), tuple(img.pal))
    what = f'upgrade of {img.w}x{img.h}x{img.bits}'
    res = upgrade(ctx, img, buf, what)
    if rng.random() < .2:
        r2, out = call(ctx, L.upgradeto24bitimage, res, mutates=())
        ctx.check(bytes(r2) == bytes(res) and out.strip(), 'twice', f'{what}, twice')
    if img.bits < 24 and rng.random() < .3:   # then the same reads as before
        x, y = rng.randrange(img.w), rng.randrange(img.h)
        ctx.eq(tuple(L.getRGBxybit(res, x, y)), tuple(L.getRGBxybit(buf, x, y)), 'read', f'{what}: colour at {x, y}')


def st_buf(ctx, rng):
    """raw row bytes to BGR bytes"""
    bits = rng.choice((1, 4, 8))
    img = gen.image(rng, bits=bits, big=6)
    buf = gen.buf(rng, img)
    pal = L.getBGRpalbuf(buf)
    ctx.eq(bytes(pal), bytes(buf[54:model.HDR[bits]]), 'palette-bytes', 'getBGRpalbuf')
    n = rng.randint(0, 12)
    row = model.array('B', [rng.randrange(256) for _ in range(n)])
    got, _ = call(ctx, L.convertbufto24bit, row, pal, bits, mutates=())
    px = [v >> s & ((1 << bits) - 1) for v in row for s in range(8 - bits, -1, -bits)]
    want = [c for p in px for c in img.pal[p][::-1]]
    ctx.observe('buf', bits, bytes(row), tuple(img.pal))
    ctx.eq(list(got), want, 'convert-row', f'row {bytes(row).hex()} of {bits} bits')


def st_big(ctx, rng):
    bits = rng.choice((1, 4, 8))
    w, h = gen.giant(rng)
    img = model.Img(w, h, bits, gen.palette(rng, bits))
    for _ in range(40):
        img.px[rng.randrange(h)][rng.randrange(w)] = gen.color(rng, bits)
    img.px[0][0] = img.px[h - 1][w - 1] = 1
    ctx.observe('big', w, h, bits)
    upgrade(ctx, img, gen.buf(rng, img), f'upgrade of {w}x{h}x{bits}')


STAGES = [Stage('upgrade', st_upgrade, 150), Stage('rows', st_buf, 100), Stage('big', st_big, 1, 40)]
