"""P06 circles, ellipses, arcs, round pens, thick lines."""
from math import atan2, pi, radians, hypot, sin, cos
from pythonbmp import BITMAPlib as L
from pythonbmp import primitives2D as P2
from .. import model, gen, draw
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px
from .p05 import hull

PID = 'P06'
RULE = ('one case = one round shape drawn on two canary images of different backgrounds (the exact painted '
        'set is observed), judged against the circle / ellipse / distance-to-segment geometry; distinct = '
        'distinct (shape, image size, depth, centre, radii, pen, colour)')
ASSUMPTIONS = ['shapes inside the image (clipping is P07)', 'radii >= 1 (0 where the statement allows it)']
F4 = 'P06-4bit-span-end'


def place(rng, r, s=None, extra=0):
    s = r if s is None else s
    w = 2 * r + 1 + extra + rng.choice((0, 1, 2, rng.randint(0, 20)))
    h = 2 * s + 1 + extra + rng.choice((0, 1, 2, rng.randint(0, 20)))
    x = rng.randint(r + extra // 2, w - 1 - r - (extra - extra // 2))
    y = rng.randint(s + extra // 2, h - 1 - s - (extra - extra // 2))
    return w, h, x, y


def radius(rng, big=24):
    return rng.choice((0, 1, 2, 3, rng.randint(1, 9), gen.upto(rng, 1, big, 150)))


def judge_ring(ctx, rel, r, what):
    """rel: outline pixels relative to the centre."""
    ctx.check({(r, 0), (-r, 0), (0, r), (0, -r)} <= rel, 'circle-extremes', f'{what}: an extreme point is missing')
    far = [p for p in rel if abs(hypot(*p) - r) > .5 + 1e-9]
    ctx.check(not far, 'circle-off', lambda: f'{what}: pixels off the circle {sorted(far)[:5]}')
    for x, y in rel:
        ctx.check({(-x, y), (x, -y), (y, x)} <= rel, 'circle-symmetry', f'{what}: not symmetric at {x, y}')
        ctx.check(r == 0 or sum((x + i, y + j) in rel for i in (-1, 0, 1) for j in (-1, 0, 1)) >= 3, 'circle-gap',
                  lambda: f'{what}: gap at {x, y}')
    ctx.eq({x for x, _ in rel}, set(range(-r, r + 1)), 'circle-columns', what)


def st_circle(ctx, rng):
    r = radius(rng)
    w, h, x, y = place(rng, r)
    bits = rng.choice(model.BITS)
    vec = rng.random() < .3
    fn = L.circlevec if vec else L.circle
    j = rng.uniform(-.4, .4) if vec else 0
    args = ([x + j, y - j], r) if vec else (x, y, r)
    at = 2 if vec else 3
    ring, c = draw.draw_set(ctx, rng, fn, args, w, h, bits, at)
    what = f'circle {x, y} r={r} on {w}x{h}x{bits}'
    ctx.observe('circle', vec, w, h, bits, x, y, r, c)
    judge_ring(ctx, {(px - x, py - y) for px, py in ring}, r, what)
    full, c = draw.draw_set(ctx, rng, fn, args, w, h, bits, at, isfilled=True)
    f2, c = draw.draw_set(ctx, rng, L.filledcircle, (x, y, r), w, h, bits, 3)
    ctx.eq(full, f2, 'filled-two-ways', what)
    draw.expect_spans(ctx, full, hull(ring), w, h, bits, 'filled ' + what, F4)
    it = {tuple(p) for p in P2.itercircle(x, y, r)}
    ctx.eq(it, ring, 'itercircle', what)
    ctx.eq({tuple(p) for p in P2.circlevert(x, y, r)}, ring, 'circlevert', what)
    rows = {}
    for a, b in P2.itercirclepartlineedge(r):
        ctx.check(b not in rows, 'lineedge-repeat', f'r={r} row {b} twice')
        rows[b] = a
    ctx.eq(rows, {b: max(px - x for px, py in ring if py - y == b) for b in range(r + 1)}, 'lineedge', what)


def judge_ellipse(ctx, rel, b, a, what):
    ctx.check({(a, 0), (-a, 0), (0, b), (0, -b)} <= rel, 'ellipse-extremes', f'{what}: an extreme point is missing')
    xs, ys = {x for x, _ in rel}, {y for _, y in rel}
    ctx.eq(xs, set(range(-a, a + 1)), 'ellipse-columns', what)
    ctx.eq(ys, set(range(-b, b + 1)), 'ellipse-rows', what)
    for x, y in rel:
        dx = abs(abs(x) - a * max(0, 1 - (y / b) ** 2) ** .5)
        dy = abs(abs(y) - b * max(0, 1 - (x / a) ** 2) ** .5)
        ctx.check(min(dx, dy) < 1, 'ellipse-off', f'{what}: pixel {x, y} is {min(dx, dy):.2f} off')
        ctx.check({(-x, y), (x, -y)} <= rel, 'ellipse-symmetry', f'{what}: not symmetric at {x, y}')
        ctx.check(sum((x + i, y + j) in rel for i in (-1, 0, 1) for j in (-1, 0, 1)) >= 3 - (x == 0 or y == 0), 'ellipse-gap',
                  lambda: f'{what}: gap at {x, y}')


def st_ellipse(ctx, rng):
    a, b = max(1, radius(rng)), max(1, radius(rng))
    w, h, x, y = place(rng, a, b)
    bits = rng.choice(model.BITS)
    ring, c = draw.draw_set(ctx, rng, L.ellipse, (x, y, b, a), w, h, bits, 4)
    what = f'ellipse {x, y} b={b} a={a} on {w}x{h}x{bits}'
    ctx.observe('ellipse', w, h, bits, x, y, a, b, c)
    rel = {(px - x, py - y) for px, py in ring}
    judge_ellipse(ctx, rel, b, a, what)
    full, c = draw.draw_set(ctx, rng, L.ellipse, (x, y, b, a), w, h, bits, 4, isfilled=True)
    f2, c = draw.draw_set(ctx, rng, L.filledellipse, (x, y, b, a), w, h, bits, 4)
    ctx.eq(full, f2, 'filled-two-ways', what)
    draw.expect_spans(ctx, full, hull(ring), w, h, bits, 'filled ' + what, F4)
    ctx.eq({tuple(p) for p in P2.ellipsevert(x, y, b, a)}, ring, 'ellipsevert', what)


def st_ellipserot(ctx, rng):
    a, b = gen.upto(rng, 1, 16, 60), gen.upto(rng, 1, 16, 60)
    deg = rng.choice((0, 90, 180, 270, 45, rng.uniform(-360, 360)))
    x, y = rng.randint(-20, 40), rng.randint(-20, 40)
    pts = [tuple(p) for p in P2.iterellipserot(x, y, b, a, deg)]
    base = [tuple(p) for p in P2.iterellipse(x, y, b, a)]
    t = radians(deg)
    ctx.observe('ellipserot', a, b, deg, x, y)
    ctx.eq(len(pts), len(base), 'ellipserot-count')
    for (u, v), (p, q) in zip(pts, base):
        ctx.check(type(u) is int and type(v) is int, 'ellipserot-type', f'{u!r} {v!r}')
        ex = x + (p - x) * cos(t) - (q - y) * sin(t)
        ey = y + (p - x) * sin(t) + (q - y) * cos(t)
        ctx.check(abs(u - ex) < .501 and abs(v - ey) < .501, 'ellipserot',
                  f'a={a} b={b} {deg} deg at {x, y}: {p, q} -> {u, v}, want {ex:.2f},{ey:.2f}')
    pen = gen.upto(rng, 1, 4, 12)
    m = max(a, b) + pen + 2
    w = h = 2 * m + 1
    bits = rng.choice(model.BITS)
    got, c = draw.draw_set(ctx, rng, L.thickellipserot, (m, m, b, a, deg, pen), w, h, bits, 6)
    cen = {tuple(p) for p in P2.iterellipserot(m, m, b, a, deg)}
    draw.expect_span_list(ctx, got, draw.disc_spans(ctx, rng, cen, pen), w, h, bits,
                          f'thickellipserot b={b} a={a} {deg} pen {pen}', F4)


def seg_dist(p, q, x, y):
    dx, dy = q[0] - p[0], q[1] - p[1]
    n = dx * dx + dy * dy
    t = 0 if not n else min(1, max(0, ((x - p[0]) * dx + (y - p[1]) * dy) / n))
    return hypot(x - p[0] - t * dx, y - p[1] - t * dy)


def thick_line_sets(ctx, rng, p, q, pen, w, h):
    """allowed span lists of a thick line, from either end."""
    r = []
    for a, b in ((p, q), (q, p)):
        s, _ = draw.draw_set(ctx, rng, L.line, (*a, *b), w, h, 24, 4)
        r.append(draw.disc_spans(ctx, rng, s, pen))
    return r


def one_of(ctx, got, lists, w, h, bits, what):
    bad = None
    for sp in lists:
        try:
            draw.expect_span_list(ctx, got, sp, w, h, bits, what, F4, 'thick')
            return
        except Violation as v:
            bad = v
    raise bad


def st_thickline(ctx, rng):
    pen = rng.choice((1, 2, 3, gen.upto(rng, 1, 7, 24, .1)))
    w, h = [2 * pen + 1 + gen.upto(rng, 1, 26, 150) for _ in 'ab']
    p, q = [(rng.randint(pen, w - 1 - pen), rng.randint(pen, h - 1 - pen)) for _ in 'ab']
    if rng.random() < .2:
        q = (q[0], p[1])
    elif rng.random() < .2:
        q = (p[0], q[1])
    bits = rng.choice(model.BITS)
    got, c = draw.draw_set(ctx, rng, L.thickroundline, (p, q, pen), w, h, bits, 3)
    what = f'thickroundline {p}-{q} pen {pen} at {bits} bits'
    ctx.observe('thickline', w, h, bits, p, q, pen)
    one_of(ctx, got, thick_line_sets(ctx, rng, p, q, pen, w, h), w, h, bits, what)
    for y in range(h):
        for x in range(w):
            d = seg_dist(p, q, x, y)
            ctx.check(d <= pen + 1.5 or (x, y) not in got, 'thick-outside', f'{what}: {x, y} is {d:.2f} away')
            ctx.check(d >= pen - 1 or (x, y) in got, 'thick-hole', f'{what}: {x, y}, {d:.2f} away, not painted')


def st_pen(ctx, rng):
    pen = rng.choice((0, 1, 2, 3, gen.upto(rng, 1, 8, 40, .1)))
    w, h = [2 * pen + 1 + rng.randint(0, 20) for _ in 'ab']
    pts = [[rng.randint(pen, w - 1 - pen), rng.randint(pen, h - 1 - pen)] for _ in range(rng.randint(1, 5))]
    bits = rng.choice(model.BITS)
    if rng.random() < .5:
        got, c = draw.draw_set(ctx, rng, L.plotxypointlist, (pts, pen), w, h, bits, 2)
    else:
        pts = pts[:1]
        got, c = draw.draw_set(ctx, rng, L.roundpen, (pts[0], pen), w, h, bits, 2)
    ctx.observe('pen', w, h, bits, pen, repr(pts))
    what = f'round pen {pen} at {pts} on {w}x{h}x{bits}'
    if pen <= 1:
        draw.expect_set(ctx, got, {tuple(p) for p in pts}, w, h, what)
    else:
        draw.expect_span_list(ctx, got, draw.disc_spans(ctx, rng, pts, pen), w, h, bits, what, F4)


def st_thickring(ctx, rng):
    r, pen = gen.upto(rng, 1, 16, 60), gen.upto(rng, 1, 5, 16)
    w, h, x, y = place(rng, r + pen)
    bits = rng.choice(model.BITS)
    got, c = draw.draw_set(ctx, rng, L.thickcircle, (x, y, r, pen), w, h, bits, 4)
    what = f'thickcircle {x, y} r={r} pen={pen} on {w}x{h}x{bits}'
    ctx.observe('thickring', w, h, bits, x, y, r, pen)
    ring, _ = draw.draw_set(ctx, rng, L.circle, (x, y, r), w, h, 24, 3)
    draw.expect_span_list(ctx, got, draw.disc_spans(ctx, rng, ring, pen), w, h, bits, what, F4)
    for py in range(h):
        for px in range(w):
            d = abs(hypot(px - x, py - y) - r)
            ctx.check(d <= pen + 1.01 or (px, py) not in got, 'ring-outside', f'{what}: {px, py} is {d:.2f} off')
            ctx.check(d >= pen - 1 or (px, py) in got or (bits == 4 and d > pen - 2), 'ring-hole', f'{what}: {px, py} not painted')


def st_thickpoly(ctx, rng):
    pen = gen.upto(rng, 1, 5, 14)
    w, h = [2 * pen + 1 + gen.upto(rng, 1, 22, 90) for _ in 'ab']
    pts = [[rng.randint(pen, w - 1 - pen), rng.randint(pen, h - 1 - pen)] for _ in range(gen.upto(rng, 2, 5, 14))]
    bits = rng.choice(model.BITS)
    closed = rng.random() < .5
    if closed:
        got, c = draw.draw_set(ctx, rng, L.thickplotpoly, (pts, pen), w, h, bits, 2)
    else:
        got, c = draw.draw_set(ctx, rng, L.plotlines, (pts,), w, h, bits, 1, penradius=pen)
    ctx.observe('thickpoly', closed, w, h, bits, repr(pts), pen)
    what = f'{"thickplotpoly" if closed else "plotlines"} {pts} pen {pen} at {bits} bits'
    segs = list(zip(pts, pts[1:])) + ([(pts[-1], pts[0])] if closed else [])
    thin = not closed and pen <= 1
    for y in range(h):
        for x in range(w):
            d = min(seg_dist(p, q, x, y) for p, q in segs)
            r = 0 if thin else pen
            ctx.check(d <= r + 1.5 or (x, y) not in got, 'thick-outside', f'{what}: {x, y} is {d:.2f} away')
            ctx.check(d >= r - 1 or (x, y) in got, 'thick-hole', f'{what}: {x, y}, {d:.2f} away, not painted')
    if not thin:
        may, must = set(), set()
        for p, q in segs:
            both = [{(x, y) for y, a, b in sp for x in range(a, b + 1 - (bits == 4))}
                    for sp in thick_line_sets(ctx, rng, p, q, pen, w, h)]
            full = [{(x, y) for y, a, b in sp for x in range(a, b + 1)}
                    for sp in thick_line_sets(ctx, rng, p, q, pen, w, h)]
            may |= full[0] | full[1]
            must |= both[0] & both[1]
        ctx.check(must <= got, 'thickpoly-missing', lambda: f'{what}: missing {sorted(must - got)[:6]}')
        ctx.check(got <= may, 'thickpoly-extra', lambda: f'{what}: extra {sorted(got - may)[:6]}')


def st_arc(ctx, rng):
    r = rng.choice((rng.randint(1, 12), gen.upto(rng, 8, 40, 120)))
    w, h, x, y = place(rng, r)
    bits = rng.choice(model.BITS)
    a, b = sorted((rng.uniform(0, 360), rng.uniform(0, 360)))
    k = rng.random()
    if k < .2:
        a, b = rng.choice(((0, 360), (0, 90), (90, 180), (180, 270), (270, 360), (45, 135)))
    ca, _ = draw.CANARY[bits]
    filled = rng.random() < .5
    fc = gen.color(rng, bits)
    got, c = draw.draw_set(ctx, rng, L.drawarc, (x, y, r, a, b), w, h, bits, 5, showoutline=True,
                           fillcolor=fc, isfilled=False)
    what = f'drawarc {x, y} r={r} {a:.2f}..{b:.2f} on {w}x{h}x{bits}'
    ctx.observe('arc', w, h, bits, x, y, r, round(a, 3), round(b, 3))
    ring, _ = draw.draw_set(ctx, rng, L.circle, (x, y, r), w, h, 24, 3)
    for px, py in ring:
        t = atan2(px - x, y - py) * 180 / pi % 360
        if min(abs(t - a), abs(t - b)) < 1e-4 or min(t, 360 - t) < 1e-4:
            continue
        if a < t < b:
            ctx.check((px, py) in got, 'arc-missing', f'{what}: {px, py} at {t:.3f} deg missing')
        else:
            near = min(abs(t - a), abs(t - b), 360 - abs(t - a), 360 - abs(t - b))
            ctx.check((px, py) not in got or near < 2 + 60 / max(r, 1), 'arc-extra', f'{what}: {px, py} at {t:.3f} deg painted')
    # spokes: only near the two radii
    ends = []
    for d in (a, b):
        ends.append((x + r * sin(radians(d)), y - r * cos(radians(d))))
    for p in got - ring:
        d = min(seg_dist((x, y), e, *p) for e in ends)
        ctx.check(d <= 1.5 + .04 * r, 'arc-spoke', f'{what}: {p} is {d:.2f} from the radii')
    # both radii are there all the way
    for ex, ey in ends:
        for k in range(r + 1):
            qx, qy = x + (ex - x) * k / r, y + (ey - y) * k / r
            if not (1 <= qx < w - 2 and 1 <= qy < h - 2):
                continue
            ctx.check(any((i, j) in got for i in range(int(qx) - 1, int(qx) + 3) for j in range(int(qy) - 1, int(qy) + 3)
                          if abs(i - qx) <= 1.6 and abs(j - qy) <= 1.6), 'arc-radius', f'{what}: the radius to {ex:.1f}, {ey:.1f} is missing at {qx:.1f}, {qy:.1f}')
    if filled:
        g2 = draw_arc_filled(ctx, rng, x, y, r, a, b, w, h, bits, c, fc)
        f = hull(got) if got else set()
        draw.expect_spans(ctx, g2, f, w, h, bits, 'filled ' + what, F4)
        if b - a <= 180 and x - r >= 0 and y - r >= 0 and x + r < w and y + r < h:
            for px in range(x - r, x + r + 1):
                for py in range(y - r, y + r + 1):
                    dd = hypot(px - x, py - y)
                    t = atan2(px - x, y - py) * 180 / pi % 360
                    if 0 < dd < r - 1.5 and a < t < b and min(seg_dist((x, y), e, px, py) for e in ends) > 1.5:
                        ctx.check((px, py) in g2, 'arc-fill', f'filled {what}: {px, py} at {t:.1f} degrees is not filled')


def draw_arc_filled(ctx, rng, x, y, r, a, b, w, h, bits, c, fc):
    s, _ = draw.draw_set(ctx, rng, L.drawarc, (x, y, r, a, b), w, h, bits, 5, color=fc,
                         showoutline=True, fillcolor=fc, isfilled=True)
    return s


STAGES = [Stage('circle', st_circle, 350), Stage('ellipse', st_ellipse, 350), Stage('ellipserot', st_ellipserot, 120),
          Stage('thickline', st_thickline, 200), Stage('pen', st_pen, 200), Stage('thickring', st_thickring, 120),
          Stage('thickpoly', st_thickpoly, 120), Stage('arc', st_arc, 250)]
