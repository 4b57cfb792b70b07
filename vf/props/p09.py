"""P09 operations on circular regions."""
from pythonbmp import BITMAPlib as L
from .. import model, gen, draw
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P09'
RULE = ('one case = one operation on a circular region of a random image (canary padding); the whole image after '
        'the call is compared with the same operation on a plain grid of pixels; distinct = distinct (operation, '
        'size, depth, circle, parameters, content)')
ASSUMPTIONS = ['the rows of the circle are those of the filled circle the library draws (judged by P06)',
               'whole-image filters are judged by P15, pixelate and resize by P11']
FC = 'P09-outer-columns'
FL = 'P09-last-pixel'


def rows(ctx, rng, r):
    """{dy: half}: row dy of the circle reaches from -half to half."""
    return {dy: b for dy, (a, b) in draw.disc(ctx, rng, r).items()}


def region(ctx, rng, x, y, r):
    """the circular region: every row from its left outline pixel up to (not
    including) its right outline pixel."""
    return {(x + dx, y + dy) for dy, k in rows(ctx, rng, r).items() for dx in range(-k, k)}


def place(rng, w, h, inside=True):
    r = rng.choice((0, 1, 2, 3, rng.randint(0, 12)))
    if inside:
        r = min(r, (w - 1) // 2, (h - 1) // 2)
        if rng.random() < .25:
            r = min((w - 1) // 2, (h - 1) // 2, rng.choice((14, 14, 999)))
        return rng.randint(r, w - 1 - r), rng.randint(r, h - 1 - r), r
    x, y = rng.randint(-4, w + 4), rng.randint(-4, h + 4)
    if rng.random() < .5:
        x = rng.choice((-r - 1, -r, r - 1, w - r, w - 1 + r, w + r, w - 1 - r))
    if rng.random() < .5:
        y = rng.choice((-r - 1, -r, r - 1, h - r, h - 1 + r, h + r, h - 1 - r))
    return x, y, r


def whole(x, y, r, w, h):
    return x - r >= 0 and y - r >= 0 and x + r < w and y + r < h


def setup(ctx, rng, bits=None, inside=True):
    img = gen.image(rng, bits=bits, big=rng.choice((30,) * 14 + (130,)))
    x, y, r = place(rng, img.w, img.h, inside)
    buf = gen.buf(rng, img)
    return img, buf, InPlace(ctx, buf), x, y, r


def st_vert(ctx, rng):
    img, buf, mon, x, y, r = setup(ctx, rng)
    op = rng.choice('FTB')
    fn = {'F': L.flipvertcircregion, 'T': L.mirrortopincircregion, 'B': L.mirrorbottomincircregion}[op]
    call(ctx, fn, buf, x, y, r)
    want = img.copy()
    for u, v in region(ctx, rng, x, y, r):
        if op == 'F' or (op == 'T') == (v > y):
            want.px[v][u] = img.px[2 * y - v][u]
    ctx.observe('vert', op, img.key(), x, y, r)
    what = f'{fn.__name__} {x, y, r}'
    compare_px(what, mon.after(what), want, 'vert' + op)


def columns(ctx, rng, x, y, r):
    """per column offset: least and greatest half height the outline has there."""
    ring = set()
    rr = rows(ctx, rng, r)
    for dy, k in rr.items():
        ring |= {(k, dy), (-k, dy), (dy, k), (dy, -k)}
    cols = {}
    for dx, dy in ring:
        cols.setdefault(dx, set()).add(abs(dy))
    full = {}
    for dy, k in rr.items():
        for dx in range(-k, k + 1):
            full[dx] = max(full.get(dx, 0), abs(dy))
    return {dx: (min(s), full[dx]) for dx, s in cols.items() if dx in full}


def judge_columns(ctx, rng, got, img, x, y, r, newval, what, ok=lambda a, b: a == b):
    """every column inside the disc takes its new values over a vertical span
    centred on the circle; outside the disc nothing changes."""
    cols = columns(ctx, rng, x, y, r)
    for v in range(img.h):
        for u in range(img.w):
            g, o = got.px[v][u], img.px[v][u]
            k = cols.get(u - x)
            if k is None or abs(v - y) > k[1]:
                ctx.check(g == o, 'outside', f'{what}: {u, v} outside the circle changed')
                continue
            n = newval(u, v)
            if ok(g, n):
                continue
            if abs(v - y) > k[0] and g == o and ctx.finding(FC):
                ctx.saw_known(FC, what)
                continue
            raise Violation('columns', f'{what} on {img.w}x{img.h}x{img.bits}: {u, v} is {g:#x} (was {o:#x}), want {n!r}')
    for dx, (lo, hi) in cols.items():    # contiguous and symmetric
        done = {v - y for v in range(y - hi, y + hi + 1) if got.px[v][x + dx] != img.px[v][x + dx]}
        undone = {v - y for v in range(y - hi, y + hi + 1)
                  if got.px[v][x + dx] == img.px[v][x + dx] and not ok(got.px[v][x + dx], newval(x + dx, v))}
        if undone and done:
            ctx.check(max(map(abs, done)) < min(map(abs, undone)), 'columns',
                      f'{what}: column {x + dx} changed at {sorted(done)} but not at {sorted(undone)}')


def st_hori(ctx, rng):
    img, buf, mon, x, y, r = setup(ctx, rng, rng.choice((8, 24)))
    op = rng.choice('FLR')
    fn = {'F': L.fliphoricircregion, 'L': L.mirrorleftincircregion, 'R': L.mirrorrightincircregion}[op]
    call(ctx, fn, buf, x, y, r)
    ctx.observe('hori', op, img.key(), x, y, r)
    what = f'{fn.__name__} {x, y, r}'

    def new(u, v):
        return img.px[v][2 * x - u] if op == 'F' or (op == 'L') == (u > x) else img.px[v][u]
    judge_columns(ctx, rng, mon.after(what), img, x, y, r, new, what)


def st_corner(ctx, rng):
    """a corner mirror is the two half mirrors one after the other."""
    bits = rng.choice((8, 24))
    img, buf, mon, x, y, r = setup(ctx, rng, bits)
    op = rng.choice(('topleft', 'topright', 'bottomleft', 'bottomright'))
    fn = getattr(L, f'mirror{op}incircregion')
    a = L.mirrorleftincircregion if 'left' in op else L.mirrorrightincircregion
    b = L.mirrortopincircregion if 'top' in op else L.mirrorbottomincircregion
    ref = gen.buf(rng, img)
    call(ctx, fn, buf, x, y, r)
    a(ref, x, y, r)
    b(ref, x, y, r)
    ctx.observe('corner', op, img.key(), x, y, r)
    what = f'{fn.__name__} {x, y, r}'
    now = mon.after(what)
    compare_px(what, now, model.decode(ref), 'corner')
    k = r * 7 // 10 - 1          # well inside: symmetric both ways
    for dy in range(-k, k + 1):
        for dx in range(-k, k + 1):
            su = -abs(dx) if 'left' in op else abs(dx)
            sv = -abs(dy) if 'top' in op else abs(dy)
            if dx * dx + dy * dy < k * k and (abs(dx) < k):
                ctx.eq(now.px[y + dy][x + dx], img.px[y + sv][x + su], 'corner', f'{what} at {dx, dy}')


def st_flipxy(ctx, rng):
    img, buf, mon, x, y, r = setup(ctx, rng)
    call(ctx, L.flipXYcircregion, buf, x, y, r)
    want = img.copy()
    for dy, k in rows(ctx, rng, r).items():
        for dx in range(-k, k + (img.bits >= 8)):
            want.px[y + dy][x + dx] = img.px[y - dx][x + dy] if img.bits >= 8 else img.px[y + dx][x + dy]
    ctx.observe('flipXY', img.key(), x, y, r)
    what = f'flipXYcircregion {x, y, r}'
    compare_px(what, mon.after(what), want, 'flipXY')


def st_copy(ctx, rng):
    img, buf, mon, x, y, r = setup(ctx, rng)
    k = rng.random()
    other = k < .4
    dst, dbuf, dmon = img, buf, mon
    if other:
        dst = gen.image(rng, bits=img.bits if rng.random() < .75 else None, big=30)
        dbuf = gen.buf(rng, dst)
        dmon = InPlace(ctx, dbuf)
    if rng.random() < .75 and dst.w > 2 * r and dst.h > 2 * r:
        nx, ny = rng.randint(r, dst.w - 1 - r), rng.randint(r, dst.h - 1 - r)
    else:
        nx, ny, _ = place(rng, dst.w, dst.h, False)
    if k < .7:
        cb, out = call(ctx, L.copycircregion2buf, buf, x, y, r, mutates=())
        _, out = call(ctx, L.pastecirularbuf, dbuf, nx, ny, cb)
    else:
        _, out = call(ctx, L.copycircregion, buf, x, y, r, rng.choice((list, tuple))((nx, ny)))
    what = f'copy circle {x, y, r} to {nx, ny}{" of another image" if other else ""}'
    ctx.observe('copy', img.key(), x, y, r, nx, ny, other)
    want = dst.copy()
    ok = whole(nx, ny, r, dst.w, dst.h) and img.bits == dst.bits
    if ok:
        for u, v in region(ctx, rng, x, y, r):
            want.px[v - y + ny][u - x + nx] = img.px[v][u]
    compare_px(what, dmon.after(what), want, 'copy')
    ctx.check(bool(out.strip()) == (not ok), 'message', f'{what}: printed {out!r}')
    if rng.random() < .05:
        _, out = call(ctx, L.pastecirularbuf, dbuf, nx, ny, None)
        compare_px('paste of nothing', dmon.after('paste of nothing'), want, 'copy')
        ctx.check(out.strip(), 'message', 'paste of nothing: no message')


def st_invert(ctx, rng):
    img, buf, mon, x, y, r = setup(ctx, rng, inside=rng.random() < .5)
    call(ctx, L.invertbitsincircregion, buf, x, y, r)
    want = img.copy()
    m = (1 << img.bits) - 1
    for u, v in draw.inside(region(ctx, rng, x, y, r), img.w, img.h):
        want.px[v][u] ^= m
    ctx.observe('invert', img.key(), x, y, r)
    what = f'invertbitsincircregion {x, y, r}'
    compare_px(what, mon.after(what), want, 'invert')


def st_outline(ctx, rng):
    img, buf, mon, x, y, r = setup(ctx, rng, inside=rng.random() < .5)
    call(ctx, L.outlinecircregion, buf, x, y, r)
    want = img.copy()
    for u, v in draw.inside(region(ctx, rng, x, y, r), img.w - 1, img.h):
        want.px[v][u] = img.px[v][u] ^ img.px[v][u + 1]
    ctx.observe('outline', img.key(), x, y, r)
    what = f'outlinecircregion {x, y, r}'
    compare_px(what, mon.after(what), want, 'outline')


def st_erase(ctx, rng):
    img, buf, mon, x, y, r = setup(ctx, rng)
    n = rng.randint(1, 6)
    if rng.random() < .5:
        k, pat = 0, 0
        call(ctx, L.eraseeverynthhorizontallineinccircregion, buf, x, y, r, n)
    else:
        k, pat = rng.randint(0, n - 1), rng.choice((0, 255, 0xaa, rng.randrange(256)))
        call(ctx, L.erasealternatehorizontallinesincircregion, buf, x, y, r, n, k, pat)
    want = img.copy()
    for u, v in region(ctx, rng, x, y, r):
        if v % n == k:
            b = img.bits
            want.px[v][u] = pat * 0x10101 if b == 24 else pat >> (8 - b - u * b % 8) & ((1 << b) - 1)
    ctx.observe('erase', img.key(), x, y, r, n, k, pat)
    what = f'erase every {n} from {k} with {pat} in {x, y, r}'
    compare_px(what, mon.after(what), want, 'erase')


def filters(rng):
    f = [rng.choice((0, .5, 1, 1.7, rng.random())) for _ in 'rgb']
    lum = [rng.randrange(256), rng.randrange(256)]
    g = rng.choice((.5, 1, 2, rng.uniform(.2, 4)))
    p = rng.choice((-100, -50, 0, 30, 100, 250, rng.uniform(-120, 300)))
    return rng.choice((
        ('mono', L.monocircle, (), L.monofilterto24bitimage),
        ('gamma', L.gammacorrectcircregion, (g,), L.gammaadjto24bitimage),
        ('brightness', L.brightnessadjcircregion, (p,), L.brightnesseadjto24bitimage),
        ('threshold', L.thresholdadjcircregion, (lum,), L.thresholdadjto24bitimage),
        ('color', L.colorfiltercircregion, (f,), lambda b, f: L.colorfilterto24bitregion(b, 0, 0, L.getmaxx(b) - 1, L.getmaxy(b) - 1, f)),
    ))


def st_filter(ctx, rng):
    """a filter changes the region exactly as it changes a whole image."""
    img, buf, mon, x, y, r = setup(ctx, rng, 24, inside=rng.random() < .5)
    name, fn, par, ref = filters(rng)
    pad = model.Img(img.w + 2, img.h, 24, [], [row + [0, 0] for row in img.px])
    rb = gen.buf(rng, pad)
    ref(rb, *par)
    full = model.decode(rb)
    call(ctx, fn, buf, x, y, r, *par)
    ctx.observe('filter', name, img.key(), x, y, r, par)
    what = f'{fn.__name__} {x, y, r, *par}'
    got = mon.after(what)
    reg = draw.inside(region(ctx, rng, x, y, r), img.w, img.h)
    for v in range(img.h):
        for u in range(img.w):
            g = got.px[v][u]
            w = full.px[v][u] if (u, v) in reg else img.px[v][u]
            if g == w:
                continue
            if name == 'color' and (u, v) in reg and (u + 1, v) not in reg and g == img.px[v][u] and ctx.finding(FL):
                ctx.saw_known(FL, what)
                continue
            raise Violation('filter-' + name, f'{what} on {img.w}x{img.h}: {u, v} {img.px[v][u]:#x} -> {g:#x}, want {w:#x}')


def bright_ok(old, p):
    """the values brightness adjustment by p percent may give."""
    def ok(g, _):
        for s in (16, 8, 0):
            o, n = old >> s & 255, g >> s & 255
            e = min(255, max(0, o * (1 + p / 100)))
            if abs(n - e) > .5 + 1e-6 and abs(n - e) >= 1:
                return False
        return True
    return ok


def st_grad(ctx, rng):
    img, buf, mon, x, y, r = setup(ctx, rng, 24)
    lum = [rng.randint(-120, 200), rng.randint(-120, 200)]
    vert = rng.random() < .5
    fn = L.vertbrightnessgrad2circregion if vert else L.horibrightnessgrad2circregion
    call(ctx, fn, buf, x, y, r, lum)
    ctx.observe('grad', vert, img.key(), x, y, r, lum)
    what = f'{fn.__name__} {x, y, r} {lum}'
    got = mon.after(what)
    per = lambda d: lum[0] + (d + r) * (lum[1] - lum[0]) / max(1, 2 * r)
    if vert:
        reg = region(ctx, rng, x, y, r)
        for v in range(img.h):
            for u in range(img.w):
                g, o = got.px[v][u], img.px[v][u]
                if (u, v) in reg:
                    ctx.check(bright_ok(o, per(v - y))(g, 0), 'grad', f'{what}: {u, v} {o:#x} -> {g:#x} at {per(v - y):.2f}%')
                else:
                    ctx.check(g == o, 'grad-outside', f'{what}: {u, v} changed')
        return
    cols = columns(ctx, rng, x, y, r)
    for v in range(img.h):
        for u in range(img.w):
            g, o = got.px[v][u], img.px[v][u]
            k = cols.get(u - x)
            if k is None or abs(v - y) > k[1]:
                ctx.check(g == o, 'grad-outside', f'{what}: {u, v} changed')
            elif not bright_ok(o, per(u - x))(g, 0):
                ctx.check(abs(v - y) > k[0] and g == o and ctx.finding(FC), 'grad',
                          f'{what}: {u, v} {o:#x} -> {g:#x} at {per(u - x):.2f}%')
                ctx.saw_known(FC, what)


def st_magnify(ctx, rng):
    img, buf, mon, x, y, r = setup(ctx, rng, 24)
    n = gen.upto(rng, 1, 4, 30)
    want = img.copy()
    reg = region(ctx, rng, x, y, r)
    if rng.random() < .5:
        call(ctx, L.magnifyNtimescircregion, buf, x, y, r, n)
        for u, v in reg:
            want.px[v][u] = img.px[(n * y + v - y) // n][(n * x + u - x) // n]
        what = f'magnifyNtimescircregion {x, y, r, n}'
    else:
        n = rng.choice((n, gen.upto(rng, 1, 12, 40)))
        ref = img if n > min(img.w, img.h) else model.decode(L.pixelizenxn(gen.buf(rng, img), n))
        call(ctx, L.pixelizenxncircregion, buf, x, y, r, n)
        for u, v in reg:
            if u < ref.w and v < ref.h:
                want.px[v][u] = ref.px[v][u]
        what = f'pixelizenxncircregion {x, y, r, n}'
    ctx.observe('magnify', img.key(), x, y, r, n, what[0])
    compare_px(what, mon.after(what), want, 'magnify')


def st_refuse(ctx, rng):
    """circle not wholly inside, or a depth the operation does not take: a
    message, and the image stays as it was."""
    img = gen.image(rng, big=20)
    x, y, r = place(rng, img.w, img.h, rng.random() < .4)
    inside = whole(x, y, r, img.w, img.h)
    any_depth = [(f, ()) for f in (L.flipvertcircregion, L.mirrortopincircregion, L.mirrorbottomincircregion, L.flipXYcircregion,
                                   L.copycircregion2buf)] + [(L.eraseeverynthhorizontallineinccircregion, (2,))]
    d824 = [(f, ()) for f in (L.fliphoricircregion, L.mirrorleftincircregion, L.mirrorrightincircregion)]
    d24 = [(L.vertbrightnessgrad2circregion, ([9, 90],)), (L.horibrightnessgrad2circregion, ([9, 90],)),
           (L.magnifyNtimescircregion, (2,)), (L.pixelizenxncircregion, (2,))]
    free24 = [(L.monocircle, ()), (L.gammacorrectcircregion, (2.,)), (L.brightnessadjcircregion, (50,)),
              (L.thresholdadjcircregion, ([3, 9],)), (L.colorfiltercircregion, ([.5, .5, .5],))]
    kind, fns, okd = rng.choice((('any', any_depth, model.BITS), ('8/24', d824, (8, 24)), ('24', d24, (24,)), ('free', free24, (24,))))
    fn, par = rng.choice(fns)
    if img.bits in okd and (inside or kind == 'free'):
        if rng.random() < .9:
            return
        x, y, r = rng.choice(((x + .5, y, r), (x, float(y), r), (x, y, 'r')))
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    _, out = call(ctx, fn, buf, x, y, r, *par)
    ctx.observe('refuse', fn.__name__, img.w, img.h, img.bits, x, y, r)
    what = f'{fn.__name__} {x, y, r} on {img.w}x{img.h}x{img.bits}'
    compare_px(what, mon.after(what), img, 'refusal')
    ctx.eq(bytes(buf), mon.raw, 'refusal', what)
    ctx.check(out.strip(), 'no-message', f'{what}: no message')


STAGES = [Stage('vert', st_vert, 120), Stage('hori', st_hori, 150), Stage('corner', st_corner, 60),
          Stage('flipXY', st_flipxy, 80), Stage('copy', st_copy, 150), Stage('invert', st_invert, 100),
          Stage('outline', st_outline, 100), Stage('erase', st_erase, 80), Stage('filter', st_filter, 120),
          Stage('grad', st_grad, 80), Stage('magnify', st_magnify, 80), Stage('refuse', st_refuse, 150)]
