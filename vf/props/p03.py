"""P03 single pixels and raw image data."""
from array import array
from pythonbmp import BITMAPlib as L
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P03'
RULE = ('one case = a history of pixel writes, reads, swaps and raw block accesses on one image with '
        'canary padding, mirrored step by step in an independent model; after every step the whole '
        'buffer is compared; distinct = distinct (size, depth, operation, argument) tuples')
ASSUMPTIONS = ['colours offered are valid for the depth; coordinates are ints of any sign']


def coord(rng, n):
    k = rng.random()
    if k < .62:
        return rng.randrange(n)
    return rng.choice((0, n - 1, -1, n, n + 1, -2, -n, n + 8, rng.randint(-40, n + 40),
                       -(1 << 20), 1 << 20, 256 + n, -256))


def nearest(pal, rgb):
    """entries a colour may be stored as."""
    if rgb in pal:
        return {i for i, p in enumerate(pal) if p == rgb}
    best, who = None, set()
    for i, p in enumerate(pal):
        if p == (0, 0, 0):
            continue
        d = sum((a - b) ** 2 for a, b in zip(p, rgb))
        if best is None or d < best:
            best, who = d, {i}
        elif d == best:
            who.add(i)
    return who


def st_history(ctx, rng):
    img = gen.image(rng, big=20)
    buf = gen.buf(rng, img)
    w, h, bits = img.w, img.h, img.bits
    m = img.copy()
    black = (0, 0, 0) in m.pal
    for step in range(rng.randint(4, 16)):
        x, y = coord(rng, w), coord(rng, h)
        inside = 0 <= x < w and 0 <= y < h
        c = gen.color(rng, bits)
        mon = InPlace(ctx, buf)
        op = rng.choice(('plot', 'plot', 'plotv', 'fplot', 'rgb', 'rgbv', 'get', 'get', 'swap', 'list'))
        ctx.observe(w, h, bits, op, x, y, c)
        tag = f'{op}({x},{y},{c})'
        if op == 'plot':
            call(ctx, L.plotxybit, buf, x, y, c)
        elif op == 'plotv':
            call(ctx, L.intplotvecxypoint, buf, rng.choice((list, tuple))((x, y)), c)
        elif op == 'fplot':
            dx, dy = rng.uniform(-.45, .45), rng.uniform(-.45, .45)
            call(ctx, L.plotvecxypoint, buf, [x + dx, y + dy], c)
        elif op == 'list':
            pts = [[coord(rng, w), coord(rng, h)] for _ in range(rng.randint(0, 6))]
            call(ctx, L.plotxypointlist, buf, pts, rng.choice((0, 1)), c)
            for px, py in pts:
                if 0 <= px < w and 0 <= py < h:
                    m.px[py][px] = c
        elif op in ('rgb', 'rgbv'):
            if bits == 24 or rng.random() < .5:
                rgb = tuple(rng.randrange(256) for _ in range(3))
            else:
                rgb = rng.choice(m.pal)
            if rgb == (0, 0, 0) and not black:
                rgb = (1, 2, 3)
            v = rng.choice((list, tuple))(rgb)
            if op == 'rgb':
                call(ctx, L.plotRGBxybit, buf, x, y, v)
            else:
                call(ctx, L.plotRGBxybitvec, buf, [x, y], v)
            if inside:
                if bits == 24:
                    m.px[y][x] = rgb[0] << 16 | rgb[1] << 8 | rgb[2]
                else:
                    now = model.decode(buf).px[y][x]
                    ok = nearest(m.pal, rgb)
                    ctx.check(now in ok or not ok, 'nearest-entry',
                              f'{tag}: {rgb} stored as entry {now} {m.pal[now]}, want one of {sorted(ok)[:4]}')
                    m.px[y][x] = now
        elif op == 'swap':
            x, y = x % w, y % h
            p, q = (x, y), (rng.randrange(w), rng.randrange(h))
            call(ctx, L.swapcolors, buf, p, q)
            m.px[p[1]][p[0]], m.px[q[1]][q[0]] = m.px[q[1]][q[0]], m.px[p[1]][p[0]]
        else:
            want = m.px[y][x] if inside else -1
            ctx.eq(call(ctx, L.getxybit, buf, x, y)[0], want, 'getxybit', f'({x},{y}) of {w}x{h}x{bits}')
            ctx.eq(call(ctx, L.getxybitvec, buf, (x, y))[0], want, 'getxybitvec')
            rgb = list(m.rgb(x, y)) if inside else []
            ctx.eq(list(call(ctx, L.getRGBxybit, buf, x, y)[0]), rgb, 'getRGBxybit', f'({x},{y})')
            ctx.eq(list(call(ctx, L.getRGBxybitvec, buf, [x, y])[0]), rgb, 'getRGBxybitvec')
        if op in ('plot', 'plotv', 'fplot') and inside:
            m.px[y][x] = c
        compare_px(tag, mon.after(tag), m)


def st_all(ctx, rng):
    """write every pixel, read all of them back."""
    bits = rng.choice(model.BITS)
    w, h = gen.size(rng, 18)
    if w * h > 700:
        w = max(1, 700 // h)
    buf = gen.buf(rng, gen.image(rng, bits, w, h))
    mon = InPlace(ctx, buf)
    want = gen.image(rng, bits, w, h, pal=model.decode(buf).pal)
    order = [(x, y) for x in range(w) for y in range(h)]
    rng.shuffle(order)
    for x, y in order:
        L.plotxybit(buf, x, y, want.px[y][x])
    ctx.observe('all', w, h, bits, rng.index)
    compare_px('every pixel written', mon.after('every pixel written'), want)
    for x, y in order:
        ctx.eq(L.getxybit(buf, x, y), want.px[y][x], 'read-back', f'({x},{y})')


def st_raw(ctx, rng):
    img = gen.image(rng, big=16)
    buf = gen.buf(rng, img)
    raw = bytes(buf)
    off = model.HDR[img.bits]
    n = len(raw) - off
    data = call(ctx, L.getBMPimgbytes, buf, mutates=())[0]
    ctx.eq(bytes(data), raw[off:], 'getBMPimgbytes')
    nb = array('B', [rng.randrange(256) for _ in range(n)])
    call(ctx, L.setBMPimgbytes, buf, nb)
    ctx.eq(bytes(buf), raw[:off] + bytes(nb), 'setBMPimgbytes')
    raw = bytes(buf)
    for _ in range(6):
        o, ln = rng.choice((rng.randint(0, n), rng.randint(-3, n + 3))), rng.randint(1, max(1, n // 2))
        if rng.random() < .4:
            o = rng.choice((n - ln, n - ln, n - ln + 1, -1, 0))
        ok = o >= 0 and o + ln <= n
        got, out = call(ctx, L.BMPbitBLTget, buf, o, ln, mutates=())
        ctx.observe('get', len(raw), o, ln)
        ctx.eq(bytes(got), raw[off + o:off + o + ln] if ok else b'', 'BMPbitBLTget', f'offset {o} len {ln} of {n}')
        ctx.check(bool(out.strip()) == (not ok), 'message', f'BMPbitBLTget({o},{ln}) of {n} printed {out!r}')
        blk = array('B', [rng.randrange(256) for _ in range(ln)])
        _, out = call(ctx, L.BMPbitBLTput, buf, o, blk)
        if ok:
            raw = raw[:off + o] + bytes(blk) + raw[off + o + ln:]
        ctx.eq(bytes(buf), raw, 'BMPbitBLTput', f'offset {o} len {ln} of {n}')
        ctx.check(bool(out.strip()) == (not ok), 'message', f'BMPbitBLTput({o},{ln}) of {n} printed {out!r}')
    new = call(ctx, L.copyBMPhdr, buf, mutates=())[0]
    ctx.eq(bytes(new), raw[:off] + bytes(n), 'copyBMPhdr')
    ctx.eq(bytes(buf), raw, 'copyBMPhdr-source')


def st_column(ctx, rng):
    img = gen.image(rng, bits=rng.choice((8, 24)), big=20)
    buf = gen.buf(rng, img)
    raw = bytes(buf)
    for _ in range(4):
        x = rng.randrange(img.w)
        y1, y2 = rng.randrange(img.h), rng.randrange(img.h)
        a1, a2 = y1, y2
        if rng.random() < .3:
            a1 = -rng.randint(1, 5) if y1 <= y2 else img.h + 4
            y1 = 0 if y1 <= y2 else img.h - 1
        got, _ = call(ctx, L.vertBMPbitBLTget, buf, x, a1, a2, mutates=())
        ctx.observe('column', img.w, img.h, img.bits, x, a1, a2)
        lo, hi = min(y1, y2), max(y1, y2)
        want = []
        for y in range(hi, lo - 1, -1):
            v = img.px[y][x]
            want += [v] if img.bits == 8 else [v & 255, v >> 8 & 255, v >> 16]
        ctx.eq(list(got), want, 'vertBMPbitBLTget', f'x={x} y={a1}..{a2} of {img.w}x{img.h}x{img.bits}')
        ctx.eq(bytes(buf), raw, 'read-changed-image')


def st_giant(ctx, rng):
    """sizes beyond two bytes."""
    w, h = gen.giant(rng)
    bits = rng.choice(model.BITS)
    img = model.Img(w, h, bits, gen.palette(rng, bits), [[0] * w for _ in range(h)])
    buf = gen.buf(rng, img, canary=False)
    mon = InPlace(ctx, buf)
    m = img.copy()
    for _ in range(12):
        x, y = (rng.choice((0, n - 1, n, -1, n - 65536, 65535, 65536, rng.randrange(n))) for n in (w, h))
        c = (1 << bits) - 1 - (rng.randrange(200) if bits > 4 else 0)
        inside = 0 <= x < w and 0 <= y < h
        call(ctx, rng.choice((L.plotxybit, lambda b, x, y, c: L.intplotvecxypoint(b, [x, y], c))), buf, x, y, c)
        if inside:
            m.px[y][x] = c
        ctx.eq(L.getxybit(buf, x, y), c if inside else -1, 'giant-read', f'({x},{y}) of {w}x{h}x{bits}')
        ctx.eq(list(L.getRGBxybit(buf, x, y)), list(m.rgb(x, y)) if inside else [], 'giant-read')
        if inside and bits == 24:
            rgb = [rng.randrange(256) for _ in range(3)]
            L.plotRGBxybit(buf, x, y, rgb)
            m.px[y][x] = rgb[0] << 16 | rgb[1] << 8 | rgb[2]
        ctx.observe('giant', w, h, bits, x, y, c)
    compare_px('giant', mon.after('giant'), m, 'giant')


STAGES = [Stage('giant', st_giant, 4, 150), Stage('history', st_history, 1500), Stage('all', st_all, 60), Stage('raw', st_raw, 200),
          Stage('column', st_column, 300)]
