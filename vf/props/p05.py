"""P05 filled rectangles, polygons, parallelograms, row fills."""
from pythonbmp import BITMAPlib as L
from pythonbmp import solids3D as S3
from .. import model, gen, draw
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px
from .p04 import union_of_lines

PID = 'P05'
RULE = ('one case = one filled shape drawn on two canary images of different backgrounds at a random depth '
        '(the exact painted set is observed), compared with the pixel set computed from the statement; '
        'distinct = distinct (shape, image size, depth, coordinates, colour)')
ASSUMPTIONS = ['polygon outlines are the ones plotpoly draws (checked by P04)']
F4 = 'P05-4bit-span-end'


def hull(s):
    rows = {}
    for x, y in s:
        a = rows.get(y)
        rows[y] = (x, x) if a is None else (min(a[0], x), max(a[1], x))
    return {(x, y) for y, (a, b) in rows.items() for x in range(a, b + 1)}


def st_rect(ctx, rng):
    w, h = gen.size(rng, 30)
    bits = rng.choice(model.BITS)
    x1, y1, x2, y2 = gen.rect(rng, w, h)
    want = {(x, y) for x in range(x1, x2 + 1) for y in range(y1, y2 + 1)}
    if rng.random() < .5:
        x1, x2 = x2, x1
    if rng.random() < .5:
        y1, y2 = y2, y1
    got, c = draw.draw_set(ctx, rng, L.filledrect, (x1, y1, x2, y2), w, h, bits, 4)
    ctx.observe('rect', w, h, bits, x1, y1, x2, y2, c)
    draw.expect_spans(ctx, got, want, w, h, bits, f'filledrect {x1, y1, x2, y2}', F4)


def st_rect_out(ctx, rng):
    """partly or wholly outside: refused, nothing painted, a message printed."""
    w, h = gen.size(rng, 20)
    img = gen.image(rng, w=w, h=h)
    v = [rng.randrange(w), rng.randrange(h), rng.randrange(w), rng.randrange(h)]
    for i in rng.sample(range(4), rng.randint(1, 3)):
        n = h if i & 1 else w
        v[i] = rng.choice((-1, n, n + 1, -rng.randint(1, 300), n + rng.randint(1, 300)))
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    c = gen.color(rng, img.bits)
    _, out = call(ctx, L.filledrect, buf, *v, c)
    ctx.observe('rect-out', w, h, img.bits, tuple(v))
    compare_px(f'refused filledrect {v}', mon.after(f'filledrect {v}'), img, 'refusal-painted')
    ctx.check(out.strip(), 'no-message', f'filledrect {v} on {w}x{h}: no message')


def polygon(rng, w, h):
    k = rng.random()
    n = gen.upto(rng, 3, 7, 20)
    if k < .25:       # triangles
        n = 3
    pts = [[rng.randrange(w), rng.randrange(h)] for _ in range(n)]
    if k > .8:        # on the border
        pts[0] = [0, rng.randrange(h)]
        pts[1] = [w - 1, rng.randrange(h)]
    elif k > .7:
        pts[0] = [rng.randrange(w), 0]
        pts[1] = [rng.randrange(w), h - 1]
    elif k > .6:      # degenerate
        pts = [pts[0], pts[1], pts[0]]
    if rng.random() < .3:
        pts = [[x + rng.uniform(-.45, .45), y + rng.uniform(-.45, .45)] for x, y in pts]
        pts = [[min(max(x, -.4), w - .6), min(max(y, -.4), h - .6)] for x, y in pts]
    return pts


def exact_extent(ip, y):
    """range of x of the closed polygon outline in the band y-1 .. y+1."""
    lo, hi = 1e9, -1e9
    for (x1, y1), (x2, y2) in zip(ip, ip[1:] + ip[:1]):
        if max(y1, y2) < y - 1 or min(y1, y2) > y + 1:
            continue
        for t in (y - 1, y + 1):
            t = min(max(t, min(y1, y2)), max(y1, y2))
            xs = [x1 + (t - y1) * (x2 - x1) / (y2 - y1)] if y1 != y2 else [x1, x2]
            lo, hi = min(lo, *xs), max(hi, *xs)
    return lo, hi


def row_ends(ctx, rng, ip, w, h):
    """per row: the least and greatest leftmost and rightmost outline pixel,
    each edge being drawn from either end."""
    ends = {}
    for p, q in zip(ip, ip[1:] + ip[:1]):
        per = {}
        for a, b in ((p, q), (q, p)):
            s, _ = draw.draw_set(ctx, rng, L.line, (*a, *b), w, h, 24, 4)
            rows = {}
            for x, y in s:
                rows.setdefault(y, []).append(x)
            for y, xs in rows.items():
                per.setdefault(y, []).append((min(xs), max(xs)))
        for y, v in per.items():
            l1, l2 = min(a for a, _ in v), max(a for a, _ in v)
            r1, r2 = min(b for _, b in v), max(b for _, b in v)
            o = ends.get(y)
            ends[y] = (l1, l2, r1, r2) if o is None else (
                min(o[0], l1), min(o[1], l2), max(o[2], r1), max(o[3], r2))
    return ends


def st_poly(ctx, rng):
    w, h = gen.size(rng, 26, lo=2)
    bits = rng.choice(model.BITS)
    pts = polygon(rng, w, h)
    ip = [(round(x), round(y)) for x, y in pts]
    if any(not (0 <= x < w and 0 <= y < h) for x, y in ip):
        return
    what = f'plotpolyfill {pts}'
    got, c = draw.draw_set(ctx, rng, L.plotpolyfill, (pts,), w, h, bits, 1)
    ctx.observe('poly', w, h, bits, tuple(ip), c)
    rows = {y for _, y in got}
    ctx.eq(rows, set(range(min(y for _, y in ip), max(y for _, y in ip) + 1)), 'fill-rows', what)
    ends = row_ends(ctx, rng, ip, w, h)
    for y in rows:
        xs = sorted(x for x, yy in got if yy == y)
        ctx.eq(len(xs), xs[-1] - xs[0] + 1, 'fill-gap', f'{what} row {y}: painted {xs}')
        l1, l2, r1, r2 = ends[y]
        if bits == 4 and r1 - 1 <= xs[-1] < r1 and ctx.finding(F4):
            ctx.saw_known(F4, what)
            r1 -= 1
        ctx.check(l1 <= xs[0] <= l2 and r1 <= xs[-1] <= r2, 'fill-extent', lambda: f'{what} on {w}x{h}x{bits} row {y}: painted '
                  f'{xs[0]}..{xs[-1]}, outline from {l1}..{l2} to {r1}..{r2}')
        lo, hi = exact_extent(ip, y)
        xs = [x for x, yy in got if yy == y]
        ctx.check(min(xs) >= lo - 1 and max(xs) <= hi + 1, 'fill-outside',
                  lambda: f'{what} row {y}: painted {min(xs)}..{max(xs)}, polygon {lo:.2f}..{hi:.2f}')
    data = S3.fillpolydata(S3.polyboundary(pts), w, h)
    o2 = {(x, y) for y in data for x in data[y]}
    ctx.eq(o2, {tuple(p) for p in S3.polyboundary(pts)}, 'polyboundary', what)


def st_poly_out(ctx, rng):
    w, h = gen.size(rng, 20, lo=2)
    img = gen.image(rng, w=w, h=h)
    pts = [[rng.randrange(w), rng.randrange(h)] for _ in range(gen.upto(rng, 3, 5, 12))]
    i = rng.randrange(len(pts))
    if rng.random() < .5:
        pts[i][0] = rng.choice((-1, w, w + 3, -9))
    else:
        pts[i][1] = rng.choice((-1, h, h + 3, -9))
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    _, out = call(ctx, L.plotpolyfill, buf, pts, gen.color(rng, img.bits))
    ctx.observe('poly-out', w, h, img.bits, repr(pts))
    compare_px(f'refused plotpolyfill {pts}', mon.after('plotpolyfill'), img, 'refusal-painted')
    ctx.check(out.strip(), 'no-message', f'plotpolyfill {pts} on {w}x{h}: no message')


def st_rows(ctx, rng):
    """fillboundary: each row filled from its leftmost to its rightmost boundary point."""
    w, h = gen.size(rng, 24)
    bits = rng.choice(model.BITS)
    d = {}
    for y in rng.sample(range(h), rng.randint(1, h)):
        d[y] = rng.sample(range(w), rng.randint(1, min(w, 5)))
        if rng.random() < 0.5:
            d[y].sort()
    got, c = draw.draw_set(ctx, rng, L.fillboundary, (d,), w, h, bits, 1)
    ctx.observe('rows', w, h, bits, repr(d), c)
    want = {(x, y) for y, b in d.items() for x in range(min(b), max(b) + 1)}
    draw.expect_spans(ctx, got, want, w, h, bits, f'fillboundary {d}', F4)


def st_par(ctx, rng):
    w, h = gen.size(rng, 26, lo=3)
    bits = rng.choice(model.BITS)
    while True:
        p1, p2, p3 = [(rng.randrange(w), rng.randrange(h)) for _ in range(3)]
        k = rng.random()
        if k < .4:       # axis aligned sides
            p2 = (p2[0], p1[1])
            p3 = (p1[0], p3[1])
        elif k < .7:     # one horizontal side
            p2 = (p2[0], p1[1])
        p4 = (p3[0] + p2[0] - p1[0], p3[1] + p2[1] - p1[1])
        if 0 <= p4[0] < w and 0 <= p4[1] < h:
            break
    got, c = draw.draw_set(ctx, rng, L.filledparallelogram, (p1, p2, p3), w, h, bits, 3)
    what = f'filledparallelogram {p1} {p2} {p3}'
    ctx.observe('par', w, h, bits, p1, p2, p3, c)
    if p1[1] == p2[1]:          # horizontal sides: rows, all of them full
        rows = {}
        lo, hi = sorted((p1[1], p3[1]))
        ctx.eq({y for _, y in got}, set(range(lo, hi + 1)), 'par-rows', what)
        n = abs(p2[0] - p1[0]) + 1
        for y in range(lo, hi + 1):
            xs = sorted(x for x, yy in got if yy == y)
            t = (y - p1[1]) / (p3[1] - p1[1]) if p3[1] != p1[1] else 0
            a = min(p1[0], p2[0]) + t * (p3[0] - p1[0])
            ok = xs == list(range(xs[0], xs[-1] + 1))
            if p3[1] != p1[1]:
                slope = max(1, abs((p3[0] - p1[0]) / (p3[1] - p1[1])))
                ok = ok and n <= len(xs) and xs[0] > a - 1 - slope and xs[-1] < a + n + slope
                if bits == 4 and not ok and ctx.finding(F4):
                    ok = xs == list(range(xs[0], xs[-1] + 1)) and n - 1 <= len(xs)
                    if ok:
                        ctx.saw_known(F4, what)
            ctx.check(ok, 'par-row', lambda: f'{what} at {bits} bits row {y}: columns {xs[:8]}..{xs[-3:]} ({len(xs)}), '
                      f'want about {a:.1f}..{a + n - 1:.1f}')
    corners = [p1, p2, p3, p4]
    miss = [p for p in corners if p not in got]
    if miss and bits == 4 and ctx.finding(F4) and p1[1] == p2[1]:
        ctx.saw_known(F4, what)
    else:
        ctx.check(not miss, 'par-corner', f'{what} at {bits} bits: corners {miss} not painted')
    ux, uy, vx, vy = p2[0] - p1[0], p2[1] - p1[1], p3[0] - p1[0], p3[1] - p1[1]
    det = ux * vy - uy * vx
    lu, lv = (ux * ux + uy * uy) ** .5, (vx * vx + vy * vy) ** .5
    if det:
        for x, y in got:
            a = ((x - p1[0]) * vy - (y - p1[1]) * vx) / det
            b = (ux * (y - p1[1]) - uy * (x - p1[0])) / det
            e, f = 2 * lv / abs(det), 2 * lu / abs(det)
            ctx.check(-e <= a <= 1 + e and -f <= b <= 1 + f, 'par-outside',
                      lambda: f'{what}: ({x},{y}) is outside')
        ctx.check(len(got) * 2 >= abs(det), 'par-coverage', lambda: f'{what}: {len(got)} pixels, area {abs(det)}')


STAGES = [Stage('rect', st_rect, 500), Stage('rect-out', st_rect_out, 300), Stage('poly', st_poly, 400),
          Stage('poly-out', st_poly_out, 150), Stage('rows', st_rows, 250), Stage('par', st_par, 250)]
