"""P04 lines, polylines, polygon outlines, grids."""
from math import cos, pi
from pythonbmp import BITMAPlib as L
from pythonbmp import primitives2D as P2
from .. import model, gen, draw
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P04'
RULE = ('one case = one outline primitive drawn on two canary images of different backgrounds (so the '
        'exact painted set is observed), at each depth, judged by an integer-geometry oracle; '
        'distinct = distinct (primitive, image size, depth, coordinates)')
ASSUMPTIONS = ['line ends inside the image (clipping is P07)',
               'a legal rasterisation: one pixel per step of the longer axis, less than one pixel off']
F4 = 'P04-4bit-span-end'


def ends(rng, w, h):
    k = rng.random()
    p = (rng.randrange(w), rng.randrange(h))
    if k < .15:
        q = (p[0], rng.randrange(h))
    elif k < .3:
        q = (rng.randrange(w), p[1])
    elif k < .5:      # exact diagonals
        n = rng.randint(0, min(w, h) - 1)
        x, y = rng.randint(0, w - 1 - n), rng.randint(0, h - 1 - n)
        p, q = rng.choice((((x, y), (x + n, y + n)), ((x + n, y), (x, y + n))))
        if rng.random() < .5:
            p, q = q, p
    elif k < .6:
        p, q = rng.choice((((0, 0), (w - 1, h - 1)), ((w - 1, 0), (0, h - 1)), ((w - 1, h - 1), (0, 0))))
    else:
        q = (rng.randrange(w), rng.randrange(h))
    return p, q


def judge_line(ctx, got, p, q, w, h, bits, what):
    if p[1] == q[1]:
        want = {(x, p[1]) for x in range(min(p[0], q[0]), max(p[0], q[0]) + 1)}
        if p[0] != q[0]:
            draw.expect_spans(ctx, got, want, w, h, bits, what, F4, 'line')
        else:
            draw.expect_set(ctx, got, want, w, h, what, 'line')
        return
    bad = draw.line_ok(got, p, q)
    ctx.check(bad is None, 'line', lambda: f'{what} on {w}x{h}x{bits}: {bad}; got {sorted(got)[:40]}')


def st_line(ctx, rng):
    w, h = gen.size(rng, 40)
    p, q = ends(rng, w, h)
    sets = {}
    how = rng.choice(('line', 'intlinevec', 'linevec'))
    for bits in model.BITS:
        if how == 'line':
            fn, args, at = L.line, (*p, *q), 4
        elif how == 'intlinevec':
            fn, args, at = L.intlinevec, (p, q), 2
        else:
            j = lambda v: [v[0] + rng.uniform(-.4, .4), v[1] + rng.uniform(-.4, .4)]
            fn, args, at = L.linevec, (j(p), j(q)), 2
        got, c = draw.draw_set(ctx, rng, fn, args, w, h, bits, at)
        ctx.observe(how, w, h, bits, p, q, c)
        judge_line(ctx, got, p, q, w, h, bits, f'{how} {p}-{q}')
        sets[bits] = got
    if p[1] != q[1]:
        ctx.check(sets[1] == sets[4] == sets[8] == sets[24], 'depths-differ',
                  f'line {p}-{q} paints different pixels at different depths')
    it = [tuple(v) for v in P2.iterline(p, q)]
    judge_line(ctx, set(it), p, q, w, h, 24, f'iterline {p}-{q}')
    ctx.eq(it[0], p, 'iterline-start', f'iterline {p}-{q}')
    ctx.eq(it[-1], q, 'iterline-end', f'iterline {p}-{q}')


def st_span(ctx, rng):
    w, h = gen.size(rng, 40)
    bits = rng.choice(model.BITS)
    if rng.random() < .5:
        y = rng.randrange(h)
        x1, x2 = rng.randrange(w), rng.randrange(w)
        got, c = draw.draw_set(ctx, rng, L.horiline, (y, x1, x2), w, h, bits, 3)
        ctx.observe('hori', w, h, bits, y, x1, x2, c)
        want = {(x, y) for x in range(min(x1, x2), max(x1, x2) + 1)}
        draw.expect_spans(ctx, got, want, w, h, bits, f'horiline y={y} {x1}..{x2}', F4)
    else:
        x = rng.randrange(w)
        y1, y2 = rng.randrange(h), rng.randrange(h)
        got, c = draw.draw_set(ctx, rng, L.vertline, (x, y1, y2), w, h, bits, 3)
        ctx.observe('vert', w, h, bits, x, y1, y2, c)
        want = {(x, y) for y in range(min(y1, y2), max(y1, y2) + 1)}
        draw.expect_set(ctx, got, want, w, h, f'vertline x={x} {y1}..{y2}')


def union_of_lines(ctx, rng, segs, w, h, bits, c=0):
    """the painted set of the parts, each drawn alone by the same library."""
    s = set()
    for p, q in segs:
        got, _ = draw.draw_set(ctx, rng, L.line, (*p, *q), w, h, bits, 4)
        s |= got
    return s


def st_poly(ctx, rng):
    w, h = gen.size(rng, 28, lo=2)
    bits = rng.choice(model.BITS)
    kind = rng.choice(('plotlines', 'plotpoly', 'rectangle', 'polylist', 'grid', 'ticks'))
    pts = [(rng.randrange(w), rng.randrange(h)) for _ in range(gen.upto(rng, 2, 6, 25))]
    if rng.random() < .3:
        pts = [[float(x), y + .25] for x, y in pts]
    ip = [(round(x), round(y)) for x, y in pts]
    if kind == 'plotlines':
        got, c = draw.draw_set(ctx, rng, L.plotlines, (pts,), w, h, bits, 1)
        segs = list(zip(ip, ip[1:]))
    elif kind == 'plotpoly':
        got, c = draw.draw_set(ctx, rng, L.plotpoly, (pts,), w, h, bits, 1)
        segs = list(zip(ip, ip[1:])) + [(ip[0], ip[-1])]
    elif kind == 'polylist':
        pts2 = [(rng.randrange(w), rng.randrange(h)) for _ in range(3)]
        got, c = draw.draw_set(ctx, rng, L.plotpolylist, ([pts, pts2],), w, h, bits, 1)
        segs = list(zip(ip, ip[1:])) + [(ip[0], ip[-1])] + list(zip(pts2, pts2[1:])) + [(pts2[0], pts2[-1])]
    elif kind == 'rectangle':
        x1, y1, x2, y2 = gen.rect(rng, w, h)
        if rng.random() < .5:
            x1, x2 = x2, x1
        if rng.random() < .5:
            y1, y2 = y2, y1
        got, c = draw.draw_set(ctx, rng, L.rectangle, (x1, y1, x2, y2), w, h, bits, 4)
        ctx.observe(kind, w, h, bits, x1, y1, x2, y2, c)
        ax, bx, ay, by = min(x1, x2), max(x1, x2), min(y1, y2), max(y1, y2)
        want = {(x, y) for x in range(ax, bx + 1) for y in (ay, by)} | \
               {(x, y) for y in range(ay, by + 1) for x in (ax, bx)}
        if ay == by or ax == bx:
            draw.expect_spans(ctx, got, want, w, h, bits, f'rectangle {x1, y1, x2, y2}', F4)
        else:
            draw.expect_set(ctx, got, want, w, h, f'rectangle {x1, y1, x2, y2}')
        return
    elif kind == 'grid':
        x1, y1, x2, y2 = gen.rect(rng, w, h)
        sx, sy = gen.upto(rng, 1, 7, 40), gen.upto(rng, 1, 7, 40)
        ax, bx, ay, by = x1, x2, y1, y2
        if rng.random() < .5:
            x1, x2 = x2, x1
        if rng.random() < .5:
            got, c = draw.draw_set(ctx, rng, L.xygrid, (x1, y1, x2, y2, [sx, sy]), w, h, bits, 5)
        else:
            got, c = draw.draw_set(ctx, rng, L.xygridvec, ([x1, y1], (x2, y2), (sx, sy)), w, h, bits, 3)
        ctx.observe(kind, w, h, bits, x1, y1, x2, y2, sx, sy)
        want = {(x, y) for x in range(ax, bx, sx) for y in range(ay, by + 1)} | \
               {(x, y) for y in range(ay, by, sy) for x in range(ax, bx + 1)}
        draw.expect_spans(ctx, got, want, w, h, bits, f'xygrid {x1, y1, x2, y2} steps {sx, sy}', F4)
        return
    else:
        n, adj = gen.upto(rng, 1, 6, 40), rng.randint(0, 3)
        vl = [(rng.randrange(max(1, w - n - adj)), rng.randrange(max(1, h - n - adj)))
              for _ in range(gen.upto(rng, 1, 5, 14))]
        vert = rng.random() < .5
        fn = L.vertlinevert if vert else L.horilinevert
        got, c = draw.draw_set(ctx, rng, fn, (vl, n, adj), w, h, bits, 3)
        ctx.observe(kind, vert, w, h, bits, tuple(vl), n, adj)
        want = set()
        for x, y in vl:
            want |= {(x, y + k) if vert else (x + k, y) for k in range(n + adj + 1)}
        want = draw.inside(want, w, h)
        if vert:
            draw.expect_set(ctx, got, want, w, h, f'{fn.__name__} {vl}')
        else:
            draw.expect_span_list(ctx, got, [(y, x, x + n + adj) for x, y in vl], w, h, bits, f'{fn.__name__} {vl}', F4)
        return
    ctx.observe(kind, w, h, bits, tuple(ip), c)
    draw.expect_set(ctx, got, union_of_lines(ctx, rng, segs, w, h, bits), w, h, f'{kind} {pts} at {bits} bits')


def st_arrow(ctx, rng):
    """a drawn vector: the whole shaft, and two straight head strokes that start at its tip."""
    w = h = 60
    bits = rng.choice(model.BITS)
    u, v = (rng.randint(15, 44), rng.randint(15, 44)), (rng.randint(15, 44), rng.randint(15, 44))
    if u == v:
        v = (u[0] + 5, u[1])
    head = rng.randint(3, 10)
    got, c = draw.draw_set(ctx, rng, L.drawvec, (u, v, head), w, h, bits, 3)
    ctx.observe('arrow', u, v, head, bits)
    segs = [((u), (v))] + [((a[0], a[1]), (b[0], b[1])) for a, b in list(P2.iterdrawvec(u, v, head))[1:]]
    ctx.eq(len(segs), 3, 'arrow-parts')
    draw.expect_set(ctx, got, union_of_lines(ctx, rng, segs, w, h, bits), w, h, f'drawvec {u} {v} {head}')
    for a, b in segs[1:]:
        d = ((a[0] - b[0]) ** 2 + (a[1] - b[1]) ** 2) ** .5
        ctx.eq(tuple(a), tuple(v), 'arrow-tip', f'drawvec {u} {v}')
        ctx.check(abs(d - head) <= 1, 'arrow-head', f'drawvec {u}-{v} head {head}: stroke of length {d:.2f}')
        n = ((v[0] - u[0]) ** 2 + (v[1] - u[1]) ** 2) ** .5
        back = ((b[0] - a[0]) * (u[0] - v[0]) + (b[1] - a[1]) * (u[1] - v[1])) / n
        ctx.check(abs(back - head * cos(pi / 8)) <= 1, 'arrow-head',
                  f'drawvec {u}-{v} head {head}: stroke {a}-{b} does not point back at 22.5 degrees')


def st_sequence(ctx, rng):
    """several lines on one image with content: later ones over earlier ones, nothing else touched."""
    img = gen.image(rng, big=24, lo=2)
    if img.bits == 4:
        img = gen.image(rng, bits=8, big=24, lo=2)
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    m = img.copy()
    for _ in range(rng.randint(2, 6)):
        p, q = ends(rng, img.w, img.h)
        c = gen.color(rng, img.bits)
        call(ctx, L.line, buf, *p, *q, c)
        s, _ = draw.draw_set(ctx, rng, L.line, (*p, *q), img.w, img.h, img.bits, 4)
        for x, y in s:
            m.px[y][x] = c
    ctx.observe('sequence', img.w, img.h, img.bits, rng.index)
    compare_px('lines over lines', mon.after('lines over lines'), m)


def st_giant(ctx, rng):
    w, h = gen.giant(rng)
    bits = rng.choice(model.BITS)
    p = (rng.randrange(w), rng.choice((0, h - 1, rng.randrange(h), min(h - 1, 65536))))
    if w > h:
        p = (rng.choice((0, w - 1, rng.randrange(w), min(w - 1, 65536))), rng.randrange(h))
    q = tuple(min(max(0, a + gen.upto(rng, -9, 9, 60)), n - 1) for a, n in zip(p, (w, h)))
    if rng.random() < .3:
        q = (rng.randrange(w), rng.randrange(h))
    got, c = draw.draw_set(ctx, rng, L.line, (*p, *q), w, h, bits, 4)
    ctx.observe('giant', w, h, bits, p, q)
    judge_line(ctx, got, p, q, w, h, bits, f'line {p}-{q}')


STAGES = [Stage('giant', st_giant, 3, 100), Stage('line', st_line, 400), Stage('span', st_span, 500), Stage('poly', st_poly, 500),
          Stage('arrow', st_arrow, 60), Stage('sequence', st_sequence, 120)]
