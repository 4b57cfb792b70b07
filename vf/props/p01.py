"""P01 new images: layout and geometry accessors."""
import json
import os
from array import array
from pythonbmp import BITMAPlib as L
from .. import model, gen
from ..core import Stage, Violation, VERIF
from ..monitor import call

PID = 'P01'
RULE = ('one case = create one image (width, height, depth) and query it; widths and heights '
        'drawn from small, word-boundary, >8/16/24-bit-count sizes; every case parses the whole '
        'byte buffer independently; distinct = distinct (w,h,depth,query set)')
ASSUMPTIONS = ['the reference decoder in vf/model.py is the Windows BMP layout',
               'vf/stdpal.json is the documented default palette of each depth']
with open(os.path.join(VERIF, 'vf', 'stdpal.json')) as f:
    STD = {int(k): [tuple(c) for c in v] for k, v in json.load(f).items()}
STD[24] = []


def check_new(ctx, buf, w, h, bits, what):
    if not isinstance(buf, array) or buf.typecode != 'B':
        raise Violation('type', f'{what} returned {type(buf)}')
    b = bytes(buf)
    want = model.HDR[bits] + model.rowbytes(w, bits) * h
    ctx.eq(len(b), want, 'length', f'{what} buffer length')
    hdr = model.struct.unpack_from('<2sIIIIiiHHIIIIII', b, 0)
    ctx.eq(hdr[0], b'BM', 'magic', what)
    ctx.eq(hdr[1], want, 'filesize-field', what)
    ctx.eq(hdr[2], 0, 'reserved', what)
    ctx.eq(hdr[3], model.HDR[bits], 'data-offset', what)
    ctx.eq(hdr[4], 40, 'infoheader-size', what)
    ctx.eq(hdr[5:7], (w, h), 'dimensions', what)
    ctx.check(hdr[7] in (0, 1), 'planes', f'{what}: planes {hdr[7]}')
    if hdr[7] == 0 and ctx.finding('P01-planes'):
        ctx.saw_known('P01-planes', what)
    else:
        ctx.eq(hdr[7], 1, 'planes', what)
    ctx.eq(hdr[8], bits, 'depth', what)
    ctx.eq(hdr[9], 0, 'compression', what)
    ctx.check(hdr[10] in (0, model.rowbytes(w, bits) * h), 'image-size-field', f'{what}: {hdr[10]}')
    ctx.check(hdr[13] in (0, 1 << bits), 'colors-used-field', f'{what}: {hdr[13]}')
    pal = [(b[54 + 4 * i + 2], b[54 + 4 * i + 1], b[54 + 4 * i]) for i in range(model.PALN[bits])]
    ctx.eq(pal, STD[bits], 'default-palette', what)
    ctx.check(not any(b[model.HDR[bits]:]), 'not-black', f'{what}: image area not all zero')


def dims(rng):
    k = rng.random()
    if k < .5:
        return gen.size(rng, 40)
    if k < .8:
        return rng.choice(((255, 1), (256, 2), (257, 3), (1, 255), (2, 256), (3, 257),
                           (511, 1), (512, 1), (1023, 2), (4097, 1), (1, 4099), (341, 2), (342, 1)))
    if k < .97:
        e = rng.randint(9, 17)
        w = (1 << e) + rng.randint(-2, 2)
        return (w, 1) if rng.random() < .5 else (1, w)
    return (65535 + rng.randint(0, 3), rng.randint(1, 2))


def st_new(ctx, rng):
    w, h = dims(rng)
    bits = rng.choice(model.BITS)
    buf, _ = call(ctx, L.newBMP, w, h, bits, mutates=())
    ctx.observe('new', w, h, bits)
    check_new(ctx, buf, w, h, bits, f'newBMP({w},{h},{bits})')
    accessors(ctx, rng, buf, w, h, bits)
    # a second image shares nothing with the first
    if w * h < 2000:
        other = L.newBMP(w, h, bits)
        buf[-1] ^= 255
        check_new(ctx, other, w, h, bits, f'second newBMP({w},{h},{bits})')
        if bits < 24:
            buf[54] ^= 255
            buf[57 + 4] ^= 0x55
            check_new(ctx, L.newBMP(w, h, bits), w, h, bits, f'third newBMP({w},{h},{bits})')


def accessors(ctx, rng, buf, w, h, bits):
    before = bytes(buf)
    ctx.eq(L.getmaxx(buf), w, 'getmaxx')
    ctx.eq(L.getmaxy(buf), h, 'getmaxy')
    ctx.eq(tuple(L.getmaxxy(buf)), (w, h), 'getmaxxy')
    ctx.eq(tuple(L.bottomrightcoord(buf)), (w - 1, h - 1), 'bottomrightcoord')
    ctx.eq(tuple(L.centercoord(buf)), ((w - 1) // 2, (h - 1) // 2), 'centercoord')
    ctx.eq(L.getmaxcolors(buf), 1 << bits, 'getmaxcolors')
    (xy, b) = L.getmaxxyandbits(buf)
    ctx.eq((tuple(xy), b), ((w, h), bits), 'getmaxxyandbits')
    pts = [(x, y) for x in (-1, 0, w - 1, w, rng.randint(-3, w + 3))
           for y in (-1, 0, h - 1, h, rng.randint(-3, h + 3))]
    for x, y in pts:
        ctx.eq(bool(L.isinBMPrectbnd(buf, x, y)), 0 <= x < w and 0 <= y < h,
               'isinBMPrectbnd', f'({x},{y}) in {w}x{h}')
    for _ in range(4):
        lst = [(rng.randrange(w), rng.randrange(h)) for _ in range(rng.randint(1, 5))]
        if rng.random() < .5:
            lst[rng.randrange(len(lst))] = rng.choice(((-1, 0), (w, 0), (0, -1), (0, h), (w, h)))
        want = all(0 <= x < w and 0 <= y < h for x, y in lst)
        ctx.eq(bool(L.listinBMPrecbnd(buf, lst)), want, 'listinBMPrecbnd', f'{lst} in {w}x{h}')
    ctx.eq(bytes(buf), before, 'accessor-changed-image')


def st_query(ctx, rng):
    """accessors on images made elsewhere (any palette, any content)."""
    img = gen.image(rng)
    buf = gen.buf(rng, img)
    ctx.observe('query', img.w, img.h, img.bits, rng.index)
    accessors(ctx, rng, buf, img.w, img.h, img.bits)
    if img.bits < 24:
        ctx.eq(bool(L.isdefaultpal(buf)), img.pal == STD[img.bits], 'isdefaultpal')
        d = gen.buf(rng, model.Img(img.w, img.h, img.bits, list(STD[img.bits]), img.px))
        ctx.eq(bool(L.isdefaultpal(d)), True, 'isdefaultpal')
        i, ch = rng.sample(range(model.PALN[img.bits]), 2)
        a, b = 54 + 4 * i, 54 + 4 * ch
        if d[a: a + 3] != d[b: b + 3]:
            how = rng.choice(('exchanged', 'copied'))
            e = gen.buf(rng, model.decode(d))
            e[a: a + 3] = d[b: b + 3]
            if how == 'exchanged':
                e[b: b + 3] = d[a: a + 3]
            ctx.eq(bool(L.isdefaultpal(e)), False, 'isdefaultpal', f'entries {i} and {ch} {how}')
        i, ch = rng.randrange(model.PALN[img.bits]), rng.randrange(3)
        d[54 + 4 * i + ch] ^= 1 << rng.randrange(8)
        ctx.eq(bool(L.isdefaultpal(d)), False, 'isdefaultpal', f'entry {i} channel {ch} differs')
    nb = rng.choice(model.BITS)
    before = bytes(buf)
    new, _ = call(ctx, L.CopyBMPxydim2newBMP, buf, nb, mutates=())
    ctx.eq(bytes(buf), before, 'source-changed')
    check_new(ctx, new, img.w, img.h, nb, f'CopyBMPxydim2newBMP to {nb} bits')


def st_wide(ctx, rng):
    """a count above 2**24 needs the fourth byte of the width field."""
    w, h, bits = rng.choice((((1 << 24) + rng.randint(0, 9), 1, 1), (1, (1 << 24) // 4 + 3, 1),
                             ((1 << 22) + 5, 5, 8), (5600000 + rng.randint(0, 5), 1, 24),
                             ((1 << 23) + 3, 5, 4)))
    buf = L.newBMP(w, h, bits)
    ctx.observe('wide', w, h, bits)
    check_new(ctx, buf, w, h, bits, f'newBMP({w},{h},{bits})')
    accessors(ctx, rng, buf, w, h, bits)
    for x, y in ((0, 0), (w - 1, h - 1), (w // 2, h // 2)):
        c = rng.randrange(1, 1 << bits)
        L.plotxybit(buf, x, y, c)
        ctx.eq(L.getxybit(buf, x, y), c, 'wide-pixel', f'({x},{y}) of {w}x{h}x{bits}')


STAGES = [Stage('new', st_new, 900), Stage('query', st_query, 500), Stage('wide', st_wide, 4, 20)]
