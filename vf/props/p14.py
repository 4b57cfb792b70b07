"""P14 palette operations."""
import math
from pythonbmp import BITMAPlib as L
from pythonbmp import colors as C
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P14'
RULE = ('one case = one palette operation on a random palette image (or a history of them on a mirror palette); '
        'palette, pixels, header and padding after the call compared with the definition; distinct = distinct '
        '(operation, depth, palette, parameters)')
PB = (1, 4, 8)


def setup(ctx, rng, bits=None):
    img = gen.image(rng, bits=bits or rng.choice(PB), big=10)
    buf = gen.buf(rng, img)
    return img, buf, InPlace(ctx, buf)


def pal_of(rng, n):
    return [tuple(rng.randrange(256) for _ in range(3)) for _ in range(n)]


def expect(ctx, mon, img, pal, what, mech='palette'):
    now = mon.after(what, pal=False)
    want = img.copy()
    want.pal = list(pal)
    compare_px(what, now, want, mech)


def apply(rng, buf, n, pal, op):
    """one write of a palette by the library; returns the palette expected"""
    mk = rng.choice((list, tuple))
    if op == 'one':
        i, c = rng.choice((0, n - 1, rng.randrange(n))), pal_of(rng, 1)[0]
        L.setRGBpal(buf, i, *c)
        return pal[:i] + [c] + pal[i + 1:]
    k = n if rng.random() < .85 else rng.choice((0, 1, n - 1, n + 1, 2 * n))
    new = pal_of(rng, k)
    if op == 'rgb':
        L.setbmppal(buf, [mk(c) for c in new])
    elif op == 'bgr':
        L.setbmppalwithBGRlist(buf, [mk(c[::-1]) for c in new])
    else:
        L.setbmppalwithBGRAlist(buf, [mk(c[::-1] + (rng.choice((0, 0, 255)),)) for c in new])
    return new if k == n else pal


def st_set(ctx, rng):
    img, buf, mon = setup(ctx, rng)
    n = 1 << img.bits
    op = rng.choice(('one', 'rgb', 'bgr', 'bgra'))
    want = apply(rng, buf, n, img.pal, op)
    ctx.observe('set', op, tuple(img.pal), tuple(want))
    expect(ctx, mon, img, want, f'palette set ({op}) on {img.bits} bits')
    got, _ = call(ctx, L.getallRGBpal, buf, mutates=())
    ctx.eq([tuple(c) for c in got], want, 'read', 'getallRGBpal')
    i = rng.randrange(n)
    ctx.eq(tuple(L.getRGBpal(buf, i)), want[i], 'read', f'getRGBpal {i}')


def st_shift(ctx, rng):
    img, buf, mon = setup(ctx, rng)
    n = 1 << img.bits
    s = rng.choice((0, 1, 2, n - 1, n, n + 1, rng.randrange(n), rng.randint(-2 * n, 5 * n)))
    if rng.random() < .15:
        _, out = call(ctx, L.palshift, buf)
        s = 1
    else:
        _, out = call(ctx, L.palshift, buf, s)
    ctx.observe('shift', img.bits, tuple(img.pal), s)
    what = f'palshift {s} on {img.bits} bits'
    k = abs(s) % n
    if img.bits == 1:
        expect(ctx, mon, img, img.pal, what)
        ctx.check(out.strip(), 'message', f'{what}: no message')
    else:
        expect(ctx, mon, img, img.pal[k:] + img.pal[:k], what)


def st_cycle(ctx, rng):
    img, buf, mon = setup(ctx, rng, rng.choice((4, 4, 4, 8)))
    n = 1 << img.bits
    pals = []
    got, _ = call(ctx, lambda b: [pals.append([tuple(c) for c in L.getallRGBpal(x)]) for x in L.itercolorcycle(b)], buf)
    ctx.observe('cycle', img.bits, tuple(img.pal))
    what = f'colour cycle of {img.bits} bits'
    ctx.eq(len(pals), n, 'cycle', what)
    for i, p in enumerate(pals):
        ctx.check(p == img.pal[i:] + img.pal[:i], 'cycle', f'{what}: step {i} is not the palette rotated by {i}')
    expect(ctx, mon, img, pals[-1], what)


def near(a, b, tol=.5 + 1e-6):
    return len(a) == len(b) and all(abs(x - y) <= tol for x, y in zip(a, b))


def levels(bits):
    n = 1 << bits
    return [i * 255 // (n - 1) if bits < 8 else i for i in range(n)]


def st_mono(ctx, rng):
    img, buf, mon = setup(ctx, rng)
    f = [rng.choice((0, 1, .5, rng.random())) for _ in 'rgb']
    kind = rng.choice(('mono', 'inv', 'inv'))
    lv = levels(img.bits)
    if kind == 'mono':
        res, _ = call(ctx, L.setBMP2monochrome, buf, f)
        want = [[c * k for k in f] for c in lv]
        par = ()
        got = [tuple(c) for c in res]
    else:
        par = rng.choice(((), (1, 0), (rng.randint(1, 300), rng.randint(-300, 300))))
        res, _ = call(ctx, L.setBMP2invshiftedmonochrome, buf, f, *par)
        m, s = par or (20, 0)
        want = [[((255 - c) * m + s) % 256 * k for k in f] for c in lv]
        got = [(c[2], c[1], c[0]) for c in res]
    ctx.observe('mono', kind, img.bits, f, par)
    what = f'{kind} palette {f} {par} on {img.bits} bits'
    expect(ctx, mon, img, got, what)
    bad = [(i, g, w) for i, (g, w) in enumerate(zip(got, want)) if not near(g, w)]
    ctx.check(len(got) == len(want) and not bad, 'mono', f'{what}: {bad[:3]}')


def st_di(ctx, rng):
    img, buf, mon = setup(ctx, rng)
    c1, c2 = gen.color(rng, 24), gen.color(rng, 24)
    n = 1 << img.bits
    a, b = [(c >> 16, c >> 8 & 255, c & 255) for c in (c1, c2)]
    res, _ = call(ctx, L.setBMP2dichromaticpal, buf, c1, c2)
    got = [(c[2], c[1], c[0]) for c in res]
    ctx.observe('dichromatic', img.bits, c1, c2)
    what = f'dichromatic palette {c1:#x} {c2:#x} on {img.bits} bits'
    expect(ctx, mon, img, got, what)
    want = [None] * n
    for i in range(n):
        want[(n - i) * 3 % n] = [p + (q - p) * i / n for p, q in zip(a, b)]
    ctx.check(all(near(g, w) for g, w in zip(got, want)), 'dichromatic', f'{what}: {got[:4]} want {want[:4]}')
    m, s = rng.choice((1, 3, 5, 7)), rng.randint(-20, 20)
    n = 1 << rng.randint(0, 9)
    p, _ = call(ctx, C.dichromaticpal, c1, c2, n, m, s, mutates=())
    want = [None] * n
    for i in range(n):
        want[((n - i) * m + s) % n] = [x + (y - x) * i / n for x, y in zip(a, b)]
    ctx.check(len(p) == n and all(near(g, w) for g, w in zip(p, want)), 'dichromatic', f'dichromaticpal {c1:#x} {c2:#x} {n} {m} {s}')


def st_pals(ctx, rng):
    """the palette makers by themselves"""
    bits = rng.choice(PB)
    f = [rng.choice((0, 1, .5, rng.random())) for _ in 'rgb']
    m, s = rng.randint(1, 40), rng.randint(-300, 300)
    lv = levels(bits)
    name = rng.choice(('monoshiftablepal', 'monoinverseshiftablepal', 'monoinverseshiftableBGRpal', 'monoinverseshiftableBGRApal'))
    par = (m, s) if rng.random() < .8 else ()
    res, _ = call(ctx, getattr(C, name), bits, f, *par, mutates=())
    m, s = par or (1, 0)
    want = [[((255 - c if 'inverse' in name else c) * m + s) % 256 * k for k in f] for c in lv]
    if 'BGR' in name:
        want = [w[::-1] for w in want]
    if 'BGRA' in name:
        want = [w + [0] for w in want]
    ctx.observe('pals', name, bits, f, m, s)
    ctx.check(len(res) == len(want) and all(near(g, w) for g, w in zip(res, want)), 'palette-maker',
              lambda: f'{name} {bits, f, m, s}: {res[:3]} want {want[:3]}')
    rgb = pal_of(rng, rng.randint(0, 5))
    ctx.eq([tuple(c) for c in C.RGB2BGRAlist(rgb)], [(b, g, r, 0) for r, g, b in rgb], 'palette-maker', 'RGB2BGRAlist')


def st_bright(ctx, rng):
    img, buf, mon = setup(ctx, rng)
    p = rng.choice((0, -100, 100, 50, -30, 900, rng.uniform(-150, 300)))
    res, _ = call(ctx, L.RGBpalbrightnessadjust, buf, p)
    ctx.observe('bright', tuple(img.pal), p)
    mon.after('RGBpalbrightnessadjust')
    ctx.check(bytes(buf) == mon.raw, 'image-changed', 'RGBpalbrightnessadjust')
    want = [[min(255, max(0, c * (1 + p / 100))) for c in e] for e in img.pal]
    ctx.check(len(res) == len(want) and all(near(g, w) for g, w in zip(res, want)), 'brightness',
              lambda: f'palette brightness {p}: {[x for x in zip(img.pal, res, want) if not near(x[1], x[2])][:3]}')


def st_copy(ctx, rng):
    img, buf, mon = setup(ctx, rng)
    k = rng.random()
    if k < .4:
        dst = gen.image(rng, bits=img.bits, big=10)
        dbuf = gen.buf(rng, dst)
        dm = InPlace(ctx, dbuf)
        call(ctx, L.copyRGBpal, buf, dbuf, mutates=(1,))
        expect(ctx, dm, dst, img.pal, f'copyRGBpal {img.bits} bits')
    elif k < .7:
        res, _ = call(ctx, L.copyBMPhdr, buf, mutates=())
        n = model.decode(res)
        want = model.Img(img.w, img.h, img.bits, list(img.pal))
        compare_px('copyBMPhdr', n, want, 'copy-header')
        ctx.eq(bytes(res[:54]), bytes(buf[:54]), 'copy-header', 'copyBMPhdr header')
    else:
        bits = rng.choice(model.BITS)
        res, _ = call(ctx, L.CopyBMPxydim2newBMP, buf, bits, mutates=())
        n = model.decode(res)
        ref = model.decode(L.newBMP(img.w, img.h, bits))
        compare_px('CopyBMPxydim2newBMP', n, ref, 'copy-size')
        ctx.eq((n.w, n.h, n.bits), (img.w, img.h, bits), 'copy-size', 'CopyBMPxydim2newBMP')
    ctx.check(bytes(buf) == mon.raw, 'source-changed', 'palette copy')
    ctx.observe('copy', k, img.key(), tuple(img.pal))


def st_withpal(ctx, rng):
    bits = rng.choice(model.BITS)
    w, h = gen.size(rng, 9)
    if rng.random() < .5:
        f = [rng.random() for _ in 'rgb']
    else:
        f = [gen.color(rng, 24), gen.color(rng, 24)]
    res, _ = call(ctx, L.newBMPwithPAL, w, h, bits, f, mutates=())
    got = model.decode(res)
    ref = L.newBMP(w, h, bits)
    if bits < 24:
        if len(f) == 3:
            L.setBMP2invshiftedmonochrome(ref, f)
        else:
            L.setBMP2dichromaticpal(ref, *f)
    ctx.observe('withpal', bits, w, h, f)
    compare_px(f'newBMPwithPAL {w, h, bits, f}', got, model.decode(ref), 'newBMPwithPAL')


def st_dict(ctx, rng):
    bits = rng.choice(model.BITS)
    img = gen.image(rng, bits=bits, big=6)
    buf = gen.buf(rng, img)
    d = {f'c{i}': rng.choice([0, 0xffffff] + [gen.color(rng, 24)] + [r << 16 | g << 8 | b for r, g, b in (img.pal[:4] or [(1, 2, 3)])])
         for i in range(rng.randint(1, 6))}
    old = dict(d)
    call(ctx, L.adjustcolordicttopal, buf, d, mutates=(1,))
    ctx.observe('dict', bits, tuple(img.pal), tuple(old.items()))
    what = f'adjustcolordicttopal on {bits} bits'
    ctx.eq(list(d), list(old), 'dict', what)
    if bits == 24:
        ctx.eq(d, old, 'dict', what)
        return
    for k, v in d.items():
        c = (old[k] >> 16, old[k] >> 8 & 255, old[k] & 255)
        ctx.check(isinstance(v, int) and 0 <= v < 1 << bits, 'dict', f'{what}: {k} -> {v!r}')
        if c in img.pal:
            ctx.eq(img.pal[v], c, 'dict', f'{what}: {c} is in the palette')
        elif c != (0, 0, 0):
            others = [math.dist(c, p) for p in img.pal if p != (0, 0, 0)]
            if others:
                ctx.check(math.dist(c, img.pal[v]) <= min(others) + 1e-9, 'dict', f'{what}: {c} -> {img.pal[v]} is not the nearest')


def st_history(ctx, rng):
    img, buf, mon = setup(ctx, rng, rng.choice((4, 4, 8)))
    n = 1 << img.bits
    pal = list(img.pal)
    log = []
    for _ in range(rng.randint(3, 10)):
        op = rng.choice(('one', 'rgb', 'bgr', 'bgra', 'shift', 'shift'))
        if op == 'shift':
            k = rng.randrange(n)
            L.palshift(buf, k)
            pal = pal[k:] + pal[:k]
        else:
            pal = apply(rng, buf, n, pal, op)
        log.append(op)
        expect(ctx, mon, img, pal, f'palette history {log[-6:]}', 'history')
    ctx.observe('history', img.key(), tuple(pal))


STAGES = [Stage('set', st_set, 80), Stage('shift', st_shift, 80), Stage('cycle', st_cycle, 10), Stage('mono', st_mono, 60),
          Stage('dichromatic', st_di, 40), Stage('makers', st_pals, 60), Stage('brightness', st_bright, 40),
          Stage('copy', st_copy, 60), Stage('withpal', st_withpal, 30), Stage('dict', st_dict, 60), Stage('history', st_history, 30)]
