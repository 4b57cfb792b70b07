"""P10 copying, cropping and pasting rectangles."""
from pythonbmp import BITMAPlib as L
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P10'
RULE = ('one case = one copy / crop / paste / conversion / read of a rectangle (corners in any order, inside or '
        'outside) on random images with canary padding, or a history of copies and pastes; the whole image is '
        'compared with the same operation on a grid of pixels; distinct = distinct (operation, sizes, depth, '
        'rectangle, place, content)')
ASSUMPTIONS = ['the format of a copied rectangle in memory is not judged, only what pasting or converting it gives']


def corners(rng, x1, y1, x2, y2):
    if rng.random() < .5:
        x1, x2 = x2, x1
    if rng.random() < .5:
        y1, y2 = y2, y1
    return x1, y1, x2, y2


def sub(img, x1, y1, x2, y2):
    return [r[x1:x2 + 1] for r in img.px[y1:y2 + 1]]


def norm(x1, y1, x2, y2):
    return min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2)


def source(rng, bits=None):
    img = gen.image(rng, bits=bits, big=34)
    return img, gen.buf(rng, img), corners(rng, *gen.rect(rng, img.w, img.h))


def st_crop(ctx, rng):
    img, buf, c = source(rng)
    mon = InPlace(ctx, buf)
    res, out = call(ctx, L.crop, buf, *c, mutates=())
    ctx.check(res is not buf, 'crop-new', 'the result of crop is the source itself')
    ctx.observe('crop', img.key(), c)
    what = f'crop {c} of {img.w}x{img.h}x{img.bits}'
    x1, y1, x2, y2 = norm(*c)
    want = model.Img(x2 - x1 + 1, y2 - y1 + 1, img.bits, list(img.pal), sub(img, x1, y1, x2, y2))
    ctx.check(res is not None, 'nothing', f'{what} gave nothing, printed {out!r}')
    compare_px(what, model.decode(res), want, 'crop')
    ctx.check(res is not buf, 'aliased', what)
    ctx.eq(bytes(buf), mon.raw, 'source-changed', what)


def put(want, px, x, y):
    for v, row in enumerate(px):
        want.px[y + v][x:x + len(row)] = row


def st_paste(ctx, rng):
    img, buf, c = source(rng)
    x1, y1, x2, y2 = norm(*c)
    w, h = x2 - x1 + 1, y2 - y1 + 1
    mon = InPlace(ctx, buf)
    sel, _ = call(ctx, L.copyrect, buf, *c, mutates=())
    ctx.eq(bytes(buf), mon.raw, 'source-changed', f'copyrect {c}')
    same = rng.random() < .35
    dst, dbuf = (img, buf) if same else (None, None)
    if not same:
        bits = img.bits if rng.random() < .85 else rng.choice(model.BITS)
        dw, dh = gen.size(rng, 34)
        if rng.random() < .8:
            dw, dh = max(dw, w + rng.randint(0, 9)), max(dh, h + rng.randint(0, 9))
        dst = gen.image(rng, bits=bits, w=dw, h=dh)
        dbuf = gen.buf(rng, dst)
    dmon = InPlace(ctx, dbuf)
    if rng.random() < .8 and dst.w >= w and dst.h >= h:
        x, y = rng.randint(0, dst.w - w), rng.randint(0, dst.h - h)
        if rng.random() < .3:
            x, y = rng.choice((0, dst.w - w)), rng.choice((0, dst.h - h))
    else:
        x, y = rng.randint(-3, dst.w + 1), rng.randint(-3, dst.h + 1)
        if rng.random() < .5:
            x = rng.choice((-1, dst.w - w + 1, dst.w - w))
        if rng.random() < .5:
            y = rng.choice((-1, dst.h - h + 1, dst.h - h))
    _, out = call(ctx, L.pasterect, dbuf, sel, x, y)
    ok = dst.bits == img.bits and x >= 0 and y >= 0 and x + w <= dst.w and y + h <= dst.h
    want = dst.copy()
    if ok:
        put(want, sub(img, x1, y1, x2, y2), x, y)
    ctx.observe('paste', img.key(), c, x, y, same or dst.key())
    what = f'paste of {c} of {img.w}x{img.h}x{img.bits} at {x, y} of {dst.w}x{dst.h}x{dst.bits}'
    compare_px(what, dmon.after(what), want, 'paste')
    ctx.check(bool(out.strip()) == (not ok), 'message', f'{what}: printed {out!r}')


def st_convert(ctx, rng):
    img, buf, c = source(rng)
    sel, _ = call(ctx, L.copyrect, buf, *c, mutates=())
    res, _ = call(ctx, L.convertselection2BMP, sel, mutates=())
    x1, y1, x2, y2 = norm(*c)
    got = model.decode(res)
    fresh = model.decode(L.newBMP(1, 1, img.bits))
    want = model.Img(x2 - x1 + 1, y2 - y1 + 1, img.bits, fresh.pal, sub(img, x1, y1, x2, y2))
    ctx.observe('convert', img.key(), c)
    compare_px(f'convertselection2BMP of {c} of {img.w}x{img.h}x{img.bits}', got, want, 'convert')
    if rng.random() < .2:
        bad = sel[:]
        bad[0] = rng.choice((0, 2, 3, 16, 32, 255))
        res, out = call(ctx, L.convertselection2BMP, bad, mutates=())
        ctx.check(out.strip() and not hasattr(res, 'tobytes'), 'convert', f'a selection of depth {bad[0]} gave {type(res)}')


def st_read(ctx, rng):
    img, buf, c = source(rng)
    x1, y1, x2, y2 = norm(*c)
    got, _ = call(ctx, lambda b: [(tuple(p), v) for p, v in L.itergetcolorfromrectregion(b, *c)], buf, mutates=())
    want = [((x, y), img.px[y][x]) for y in range(y1, y2 + 1) for x in range(x1, x2 + 1)]
    ctx.observe('read', img.key(), c)
    ctx.eq(sorted(got), sorted(want), 'read', f'colours of {c} of {img.w}x{img.h}x{img.bits}')
    ctx.eq(got, want, 'read-order', f'colours of {c} of {img.w}x{img.h}x{img.bits} row by row')
    rows, _ = call(ctx, lambda b: [bytes(r) for r in L.itercopyrect(b, *c)], buf, mutates=())
    ctx.eq(len(rows), y2 - y1 + 1, 'rows', 'itercopyrect')
    b = img.bits
    for r, y in zip(rows, range(y2, y1 - 1, -1)):
        if b == 24:
            px = [r[3 * i] | r[3 * i + 1] << 8 | r[3 * i + 2] << 16 for i in range(x2 - x1 + 1)]
        else:
            px = [r[i * b >> 3] >> (8 - b - i * b % 8) & ((1 << b) - 1) for i in range(x2 - x1 + 1)]
        ctx.eq(px, img.px[y][x1:x2 + 1], 'rows', f'itercopyrect {c} row {y} of {img.w}x{img.h}x{b}')


def st_refuse(ctx, rng):
    img = gen.image(rng, big=20)
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    c = [rng.randrange(img.w), rng.randrange(img.h), rng.randrange(img.w), rng.randrange(img.h)]
    k = rng.randrange(4)
    c[k] = rng.choice((-1, -rng.randint(1, 99), (img.w, img.h)[k & 1], (img.w, img.h)[k & 1] + rng.randint(0, 70000),
                       float(c[k]), c[k] + .5, str(c[k])))
    fn = rng.choice((L.crop, L.copyrect, L.itercopyrect, L.itergetcolorfromrectregion))
    res, out = call(ctx, fn, buf, *c, mutates=())
    ctx.observe('refuse', fn.__name__, img.w, img.h, img.bits, c)
    what = f'{fn.__name__} {c} on {img.w}x{img.h}x{img.bits}'
    ctx.check(res is None and out.strip(), 'refusal', f'{what} gave {type(res).__name__}, printed {out!r}')
    ctx.eq(bytes(buf), mon.raw, 'source-changed', what)


def st_history(ctx, rng):
    """a clipboard session on one image and a mirror grid."""
    img, buf, _ = source(rng)
    mon = InPlace(ctx, buf)
    want = img.copy()
    clips = []
    log = []
    for _ in range(rng.randint(3, 10)):
        op = rng.choice(('copy', 'paste', 'paste', 'crop', 'plot'))
        if op == 'copy':
            c = gen.rect(rng, img.w, img.h)
            clips.append((L.copyrect(buf, *c), sub(want, *c)))
        elif op == 'crop':
            c = gen.rect(rng, img.w, img.h)
            n = L.crop(buf, *c)
            s = sub(want, *c)
            clips.append((L.copyrect(n, 0, 0, len(s[0]) - 1, len(s) - 1), s))
        elif op == 'paste' and clips:
            sel, px = rng.choice(clips)
            c = rng.randint(0, img.w - len(px[0])), rng.randint(0, img.h - len(px))
            call(ctx, L.pasterect, buf, sel, *c)
            put(want, px, *c)
        else:
            x, y, v = rng.randrange(img.w), rng.randrange(img.h), gen.color(rng, img.bits)
            c = x, y, v
            L.plotxybit(buf, x, y, v)
            want.px[y][x] = v
        log.append((op, c))
        compare_px(f'history {log[-6:]}', mon.after('history'), want, 'history')
    ctx.observe('history', img.key(), log)


def st_wide(ctx, rng):
    """rectangles wider, taller or with longer rows than two bytes count."""
    bits = rng.choice(model.BITS)
    w, h = gen.giant(rng)
    if bits == 24 and rng.random() < .5:
        w, h = rng.randint(21840, 21860), rng.randint(1, 2)
    buf = L.newBMP(w, h, bits)
    mon = InPlace(ctx, buf)
    want = mon.img.copy()
    pts = [(rng.choice((0, w - 1, w // 2, rng.randrange(w))), rng.choice((0, h - 1, rng.randrange(h)))) for _ in range(12)]
    for x, y in pts:
        want.px[y][x] = gen.color(rng, bits)
        L.plotxybit(buf, x, y, want.px[y][x])
    c = (rng.choice((0, 1, 5)) % w, rng.choice((0, 1)) % h, w - 1 - rng.choice((0, 0, 1)) % w, h - 1)
    if c[2] < c[0]:
        c = 0, 0, w - 1, h - 1
    ctx.observe('wide', bits, w, h, c, pts)
    what = f'rectangle {c} of {w}x{h}x{bits}'
    sel = L.copyrect(buf, *c)
    res = model.decode(L.convertselection2BMP(sel))
    px = sub(want, *c)
    ctx.check(res.px == px, 'wide', f'{what}: copied and converted pixels differ ({res.w}x{res.h})')
    ctx.check(model.decode(L.crop(buf, *c)).px == px, 'wide', f'{what}: cropped pixels differ')
    dst = L.newBMP(w, h, bits)
    L.pasterect(dst, sel, 0, 0)
    d = model.decode(dst)
    ctx.check(sub(d, 0, 0, c[2] - c[0], c[3] - c[1]) == px, 'wide', f'{what}: pasted pixels differ')


STAGES = [Stage('crop', st_crop, 150), Stage('paste', st_paste, 250), Stage('convert', st_convert, 120),
          Stage('read', st_read, 80), Stage('refuse', st_refuse, 100), Stage('history', st_history, 60),
          Stage('wide', st_wide, 2, 96)]
