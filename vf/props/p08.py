"""P08 flips and mirrors of whole images and rectangles."""
from pythonbmp import BITMAPlib as L
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P08'
RULE = ('one case = one flip / mirror of a random image (all depths, canary padding) or of a rectangle in it, '
        'corners given in any order; the whole result is compared with the same operation on a plain grid of '
        'pixels; distinct = distinct (operation, size, depth, rectangle, content)')
ASSUMPTIONS = ['row padding bytes may travel with whole rows in whole-image vertical operations']


def ref(px, op, x1, y1, x2, y2):
    n = [r[:] for r in px]
    for y in range(y1, y2 + 1):
        for x in range(x1, x2 + 1):
            sx, sy = x, y
            mx, my = x1 + x2 - x, y1 + y2 - y
            if op in ('FH',):
                sx = mx
            if op == 'FV':
                sy = my
            if 'left' in op and 2 * x > x1 + x2 or 'right' in op and 2 * x < x1 + x2:
                sx = mx
            if 'top' in op and 2 * y > y1 + y2 or 'bottom' in op and 2 * y < y1 + y2:
                sy = my
            n[y][x] = px[sy][sx]
    return n


WHOLE = {'FV': L.flipvertical, 'FH': L.fliphorizontal, 'top': L.mirrortop, 'bottom': L.mirrorbottom,
         'left': L.mirrorleft, 'right': L.mirrorright, 'topleft': L.mirrortopleft,
         'topright': L.mirrortopright, 'bottomleft': L.mirrorbottomleft, 'bottomright': L.mirrorbottomright}
REGION = {'FV': L.flipverticalregion, 'FH': L.fliphorizontalregion, 'top': L.mirrortopinregion,
          'bottom': L.mirrorbottominregion, 'left': L.mirrorleftinregion, 'right': L.mirrorrightinregion,
          'topleft': L.mirrortopleftinregion, 'topright': L.mirrortoprightinregion,
          'bottomleft': L.mirrorbottomleftinregion, 'bottomright': L.mirrorbottomrightinregion}
PIXEL = {'FV': L.fliphverticalalpixelbased, 'FH': L.fliphorzontalpixelbased}


def st_whole(ctx, rng):
    op = rng.choice(list(WHOLE))
    img = gen.image(rng, big=26)
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    call(ctx, WHOLE[op], buf)
    want = img.copy()
    want.px = ref(img.px, op, 0, 0, img.w - 1, img.h - 1)
    ctx.observe('whole', op, img.key())
    now = mon.after(op, pads=False)
    compare_px(f'{WHOLE[op].__name__}', now, want, op)
    if op in ('FV', 'FH'):
        call(ctx, WHOLE[op], buf)
        compare_px(f'{WHOLE[op].__name__} twice', model.decode(buf), img, op)
        ctx.eq(bytes(buf), mon.raw, 'twice', f'{WHOLE[op].__name__} twice gives other bytes')


def st_region(ctx, rng):
    pix = rng.random() < .12
    op = rng.choice(list(PIXEL if pix else REGION))
    fn = (PIXEL if pix else REGION)[op]
    img = gen.image(rng, big=26)
    x1, y1, x2, y2 = gen.rect(rng, img.w, img.h)
    want = img.copy()
    want.px = ref(img.px, op, x1, y1, x2, y2)
    if rng.random() < .4:
        x1, x2 = x2, x1
    if rng.random() < .4:
        y1, y2 = y2, y1
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    call(ctx, fn, buf, x1, y1, x2, y2)
    ctx.observe('region', op, pix, img.key(), x1, y1, x2, y2)
    what = f'{fn.__name__} {x1, y1, x2, y2}'
    compare_px(what, mon.after(what), want, op)


def st_flipxy(ctx, rng):
    """a new image, width and height exchanged, reflected about a diagonal
    (the main one at 1 and 4 bits, the other one at 8 and 24 bits)."""
    img = gen.image(rng, big=26)
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    new, _ = call(ctx, L.flipXY, buf)
    ctx.observe('flipXY', img.key())
    ctx.eq(bytes(buf), mon.raw, 'source-changed', 'flipXY changed its source')
    got = model.decode(new)
    w, h = img.h, img.w
    if img.bits < 8:
        px = [[img.px[x][y] for x in range(w)] for y in range(h)]
    else:
        px = [[img.px[img.h - 1 - x][img.w - 1 - y] for x in range(w)] for y in range(h)]
    compare_px('flipXY', got, model.Img(w, h, img.bits, img.pal, px), 'flipXY')
    back, _ = call(ctx, L.flipXY, new)
    compare_px('flipXY twice', model.decode(back), img, 'flipXY')


def st_history(ctx, rng):
    """a chain of operations on one image."""
    img = gen.image(rng, big=20)
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    m = img.copy()
    log = []
    for _ in range(rng.randint(2, 6)):
        if rng.random() < .4:
            op = rng.choice(list(WHOLE))
            call(ctx, WHOLE[op], buf)
            m.px = ref(m.px, op, 0, 0, m.w - 1, m.h - 1)
            log.append(op)
        else:
            op = rng.choice(list(REGION))
            r = gen.rect(rng, m.w, m.h)
            call(ctx, REGION[op], buf, *r)
            m.px = ref(m.px, op, *r)
            log.append((op, r))
        compare_px(f'history {log}', mon.after(f'{log}', pads=False), m, 'history')
    ctx.observe('history', img.key(), repr(log))


def st_giant(ctx, rng):
    w, h = gen.giant(rng)
    bits = rng.choice(model.BITS)
    img = model.Img(w, h, bits, gen.palette(rng, bits), [[(x * 7 + y * 3 + x * y) & 255 & ((1 << bits) - 1) for x in range(w)]
                                                          for y in range(h)])
    buf = gen.buf(rng, img, canary=False)
    mon = InPlace(ctx, buf)
    op = rng.choice(list(WHOLE))
    whole = rng.random() < .5 or (bits < 8 and w * h > 80000)
    r = (0, 0, w - 1, h - 1)
    if not whole:
        r = gen.rect(rng, w, h)
    call(ctx, (WHOLE if whole else REGION)[op], buf, *(() if whole else r))
    ctx.observe('giant', op, w, h, bits, r)
    img.px = ref(img.px, op, *r)
    compare_px(f'giant {op} {r}', mon.after(op, pads=False), img, op)


STAGES = [Stage('giant', st_giant, 2, 60), Stage('whole', st_whole, 500), Stage('region', st_region, 1000), Stage('flipXY', st_flipxy, 250),
          Stage('history', st_history, 150)]
