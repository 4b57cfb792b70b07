"""P07 clipping: shapes partly or wholly outside the image."""
from pythonbmp import BITMAPlib as L
from pythonbmp import primitives2D as P2
from pythonbmp.fonts import font8x8, font8x14
from .. import model, gen, draw
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px
from .p04 import judge_line

PID = 'P07'
RULE = ('one case = one shape placed across or beyond the border of a small image, drawn on two canary images; '
        'the painted set must equal the window of the same shape drawn inside a larger canvas (or, for lines, the '
        'line between the clamped end points); distinct = distinct (shape, size, depth, arguments)')
ASSUMPTIONS = ['shapes wholly inside a canvas are right (P04-P06)',
               'shapes are moved by even offsets between the two canvases']
F4 = 'P07-4bit-span-end'
M = 40


def pt(rng, w, h, far=.15):
    if rng.random() < far:
        return (rng.choice((-1, w, -9, w + 9, 1000 + w, -1000, 70000, -70000, rng.randrange(w))),
                rng.choice((-1, h, -9, h + 9, 1000 + h, -1000, 70000, -70000, rng.randrange(h))))
    return gen.upto(rng, -12, w + 12, w + 300), gen.upto(rng, -12, h + 12, h + 300)


def window(ctx, rng, fn, args, at, shift, w, h, **kw):
    """painted set of the shape drawn on a canvas with a margin of M pixels."""
    W, H = w + 2 * M, h + 2 * M
    s, _ = draw.draw_set(ctx, rng, fn, shift(args, M), W, H, 8, at, **kw)
    return {(x - M, y - M) for x, y in s}


def xy2(args, m):
    return (args[0] + m, args[1] + m) + tuple(args[2:])


def vlist(args, m):
    return ([[p[0] + m, p[1] + m] for p in args[0]],) + tuple(args[1:])


def v1(args, m):
    return ([args[0][0] + m, args[0][1] + m],) + tuple(args[1:])


def v2(args, m):
    return tuple([p[0] + m, p[1] + m] for p in args[:2]) + tuple(args[2:])


def hl(args, m):
    return tuple(a + m for a in args)


def st_shape(ctx, rng):
    w, h = gen.size(rng, 24)
    if w > 60 or h > 60:
        w, h = min(w, 40), min(h, 40)
    x, y = gen.upto(rng, -12, w + 12, w + 300), gen.upto(rng, -12, h + 12, h + 300)
    r = rng.choice((0, 1, 2, gen.upto(rng, 1, 14, 60)))
    a, b = gen.upto(rng, 1, 13, 60), gen.upto(rng, 1, 13, 60)
    rx = ry = r
    if rng.random() < .5:
        rx, ry = a, b
    near = lambda n, k: rng.choice((-k - 1, -k, k - 1, k, n - 1 - k, n - k, n - 1 + k, n + k))
    if rng.random() < .5:      # just touching, just crossing, just outside
        x = near(w, rx)
        if rng.random() < .6 and h > 2 * ry:
            y = rng.randint(ry, h - 1 - ry)
        if rng.random() < .3:
            y = near(h, ry)
    elif rng.random() < .5:
        y = near(h, ry)
        if rng.random() < .6 and w > 2 * rx:
            x = rng.randint(rx, w - 1 - rx)
    pen = gen.upto(rng, 1, 4, 12)
    p, q = [(gen.upto(rng, -14, w + 14, w + 300), gen.upto(rng, -14, h + 14, h + 300)) for _ in 'ab']
    pts = [[gen.upto(rng, -14, w + 14, w + 300), gen.upto(rng, -14, h + 14, h + 300)] for _ in range(gen.upto(rng, 1, 4, 9))]
    cur = [[gen.upto(rng, -14, w + 14, w + 300), gen.upto(rng, -14, h + 14, h + 300)] for _ in range(rng.randint(3, 5))]
    kind, fn, args, at, shift, kw = rng.choice((
        ('circle', L.circle, (x, y, r), 3, xy2, {}),
        ('disc', L.circle, (x, y, r), 3, xy2, {'isfilled': True}),
        ('circlevec', L.circlevec, ([x, y], r), 2, v1, {}),
        ('ellipse', L.ellipse, (x, y, b, a), 4, xy2, {}),
        ('full ellipse', L.ellipse, (x, y, b, a), 4, xy2, {'isfilled': True}),
        ('filledcircle', L.filledcircle, (x, y, r), 3, xy2, {}),
        ('filledellipse', L.filledellipse, (x, y, b, a), 4, xy2, {}),
        ('thickcircle', L.thickcircle, (x, y, r, pen), 4, xy2, {}),
        ('thickellipserot', L.thickellipserot, (x, y, b, a, rng.uniform(0, 360), pen), 6, xy2, {}),
        ('thickroundline', L.thickroundline, (p, q, pen), 3, v2, {}),
        ('thickplotpoly', L.thickplotpoly, (cur, pen), 2, vlist, {}),
        ('roundpen', L.roundpen, ([x, y], pen), 2, v1, {}),
        ('points', L.plotxypointlist, (pts, pen), 2, vlist, {}),
        ('arc', L.drawarc, (x, y, max(r, 1), *sorted((rng.uniform(0, 360), rng.uniform(0, 360)))), 5, xy2,
         {'showoutline': True, 'fillcolor': 0, 'isfilled': False}),
        ('horiline', L.horiline, (y, p[0], q[0]), 3, hl, {}),
        ('vertline', L.vertline, (x, p[1], q[1]), 3, hl, {}),
    ))
    bits = rng.choice(model.BITS)
    got, c = draw.draw_set(ctx, rng, fn, args, w, h, bits, at, **kw)
    what = f'{kind} {args} on {w}x{h}x{bits}'
    want = draw.inside(window(ctx, rng, fn, args, at, shift, w, h, **kw), w, h)
    ctx.observe(kind, w, h, bits, repr(args), c)
    ctx.count('clipped_away' if not want else 'partly_inside')
    if bits != 4 or got == want or kind in ('circle', 'circlevec', 'ellipse', 'vertline', 'arc'):
        draw.expect_set(ctx, got, want, w, h, what, 'clip')
        return
    if kind in ('disc', 'full ellipse', 'filledcircle', 'filledellipse', 'horiline'):
        draw.expect_spans(ctx, got, want, w, h, 4, what, F4, 'clip')
        return
    # thick shapes at 4 bits: rightmost pixels of the disc rows may be missing
    ctx.check(ctx.finding(F4) and got <= want, 'clip', lambda: f'{what}: extra {sorted(got - want)[:6]}')
    one, c = draw.draw_set(ctx, rng, fn, shift(args, M), w + 2 * M, h + 2 * M, 4, at, **kw)
    must = draw.inside({(u - M, v - M) for u, v in one}, w, h)
    must = {(u, v) for u, v in must if (u + 1, v) in want}
    must = {p for p in must if p[0] < w - 1}
    ctx.check(must <= got, 'clip', lambda: f'{what}: missing {sorted(must - got)[:6]}')
    ctx.saw_known(F4, what)


def st_curve(ctx, rng):
    """curves drawn with a pen: the part inside of the discs at the curve points."""
    w, h = rng.randint(1, 30), rng.randint(1, 30)
    cur = [[rng.randint(-14, w + 14), rng.randint(-14, h + 14)] for _ in range(rng.randint(3, 5))]
    pen = gen.upto(rng, 1, 4, 12)
    bits = rng.choice(model.BITS)
    if rng.random() < .5:
        fn, kw = L.beziercurve, {}
        v = {tuple(p) for p in P2.iterbeziercurve(cur)}
    else:
        fn, kw = L.bspline, {'isclosed': rng.random() < .5, 'curveback': rng.random() < .5}
        v = {tuple(p) for p in P2.iterbspline(cur, kw['isclosed'], kw['curveback'])}
    got, c = draw.draw_set(ctx, rng, fn, (cur, pen), w, h, bits, 2, **kw)
    ctx.observe('curve', fn.__name__, w, h, bits, repr(cur), pen)
    what = f'{fn.__name__} {cur} pen {pen} on {w}x{h}x{bits}'
    if pen == 1:
        draw.expect_set(ctx, got, draw.inside(v, w, h), w, h, what, 'curve')
    else:
        draw.expect_span_list(ctx, got, draw.disc_spans(ctx, rng, v, pen), w, h, bits, what, F4, 'curve')


def st_far(ctx, rng):
    """far outside, huge, or degenerate: nothing but the part inside, no error."""
    w, h = gen.size(rng, 20)
    x, y = pt(rng, w, h, 1)
    r = rng.choice((0, 1, 5, 40, 300, rng.randint(0, 400)))
    bits = rng.choice(model.BITS)
    kind, fn, args, at, kw = rng.choice((
        ('circle', L.circle, (x, y, r), 3, {}), ('disc', L.circle, (x, y, r), 3, {'isfilled': True}),
        ('ellipse', L.ellipse, (x, y, max(1, r // 2), max(r, 1)), 4, {}),
        ('filledellipse', L.filledellipse, (x, y, max(1, r), max(1, r // 3)), 4, {}),
        ('horiline', L.horiline, (y, x, x + rng.choice((-r, r))), 3, {}),
        ('vertline', L.vertline, (x, y, y + rng.choice((-r, r))), 3, {}),
        ('roundpen', L.roundpen, ([x, y], min(r, 40)), 2, {}),
        ('point', L.plotxybit, (x, y), 2, {}),
    ))
    got, c = draw.draw_set(ctx, rng, fn, args, w, h, bits, at, **kw)
    ctx.observe('far', kind, w, h, bits, args)
    if kind in ('horiline', 'vertline'):
        want = {(u, args[0]) for u in range(max(0, min(args[1:])), min(w - 1, max(args[1:])) + 1)} \
            if kind == 'horiline' else \
            {(args[0], v) for v in range(max(0, min(args[1:])), min(h - 1, max(args[1:])) + 1)}
        draw.expect_spans(ctx, got, draw.inside(want, w, h), w, h, bits if kind == 'horiline' else 8, f'{kind} {args} on {w}x{h}x{bits}', F4)
        return
    if kind == 'point':
        draw.expect_set(ctx, got, draw.inside({(x, y)}, w, h), w, h, f'point {x, y}')
        return
    rx, ry = {'ellipse': (args[-1], args[-2]), 'filledellipse': (args[-1], args[-2])}.get(kind, (args[-1],) * 2)
    if kind == 'roundpen' and args[1] <= 1:
        rx = ry = 0
    full = kind in ('disc', 'filledellipse', 'roundpen')
    for v in range(h):
        for u in range(w):
            dx, dy = u - x, v - y
            def dist(ax, ay):
                return (dx / ax) ** 2 + (dy / ay) ** 2 if ax > 0 and ay > 0 else (9 if dx or dy else 0)
            out = dist(rx + 1, ry + 1) > 1
            ctx.check(not out or (u, v) not in got, 'far-outside', f'{kind} {args} on {w}x{h}x{bits}: {u, v} painted')
            if full and dist(rx - 1.5, ry - 1.5) <= 1 and rx > 2 and ry > 2:
                last = u == w - 1
                ctx.check((u, v) in got or (bits == 4 and last and ctx.finding(F4)), 'far-missing',
                          f'{kind} {args} on {w}x{h}x{bits}: {u, v} not painted')


def st_line(ctx, rng):
    """line: as if its end points were moved to the nearest pixel of the image."""
    w, h = gen.size(rng, 24)
    p, q = pt(rng, w, h), pt(rng, w, h)
    bits = rng.choice(model.BITS)
    vec = rng.random() < .4
    if vec:
        got, c = draw.draw_set(ctx, rng, L.linevec, (list(p), list(q)), w, h, bits, 2)
    else:
        got, c = draw.draw_set(ctx, rng, L.line, (*p, *q), w, h, bits, 4)
    cl = lambda v: (min(max(v[0], 0), w - 1), min(max(v[1], 0), h - 1))
    p2, q2 = cl(p), cl(q)
    ctx.observe('line', w, h, bits, p, q, c)
    what = f'line {p}-{q} (clamped {p2}-{q2}) at {bits} bits'
    if p2[1] == q2[1]:
        want = {(x, p2[1]) for x in range(min(p2[0], q2[0]), max(p2[0], q2[0]) + 1)}
        if p2 == q2 or bits != 4:
            draw.expect_set(ctx, got, want, w, h, what, 'line')
        else:
            draw.expect_spans(ctx, got, want, w, h, bits, what, F4, 'line')
    else:
        bad = draw.line_ok(got, p2, q2)
        ctx.check(bad is None, 'line', lambda: f'{what} on {w}x{h}: {bad}')


def st_confined(ctx, rng):
    """drawing calls of every kind with arguments reaching outside: the buffer
    length, header, palette and padding stay, nothing raises, and only the
    colour given appears."""
    w, h = gen.size(rng, 24, lo=1)
    bits = rng.choice(model.BITS)
    n = gen.upto(rng, 2, 5, 10)
    pts = [list(pt(rng, w, h, 0)) for _ in range(n)]
    p, q = pt(rng, w, h), pt(rng, w, h)
    s = rng.choice(('A', 'Hi', 'a\nb', 'x\ty'))
    fb = rng.choice((font8x8, font8x14))
    x, y = rng.randint(-30, w + 30), rng.randint(-30, h + 30)
    sc, ps, sp = gen.upto(rng, 1, 3, 6), rng.randint(0, 2), rng.randint(0, 2)
    T = (x, y, s, sc, ps, sp)
    kind, fn, args, at, kw = rng.choice((
        ('plotlines', L.plotlines, (pts,), 1, {}),
        ('plotlines pen', L.plotlines, (pts,), 1, {'penradius': gen.upto(rng, 2, 4, 9)}),
        ('plotpoly', L.plotpoly, (pts,), 1, {}),
        ('plotpolylist', L.plotpolylist, ([pts, pts[:2]],), 1, {}),
        ('plotpolyfill', L.plotpolyfill, (pts,), 1, {}),
        ('rectangle', L.rectangle, (*p, *q), 4, {}),
        ('filledrect', L.filledrect, (*p, *q), 4, {}),
        ('xygrid', L.xygrid, (*p, *q, [gen.upto(rng, 1, 5, 30), gen.upto(rng, 1, 5, 30)]), 5, {}),
        ('filledarc', L.drawarc, (x, y, gen.upto(rng, 1, 12, 60), *sorted((rng.uniform(0, 360), rng.uniform(0, 360)))), 5, None),
        ('squircle', L.squircle, (x, y, gen.upto(rng, 1, 12, 60)), 3, {}),
        ('vertlinevert', L.vertlinevert, (pts, gen.upto(rng, 1, 9, 60), rng.randint(-3, 3)), 3, {}),
        ('horilinevert', L.horilinevert, (pts, gen.upto(rng, 1, 9, 60), rng.randint(-3, 3)), 3, {}),
        ('text', L.plotstring, T, 6, {'fontbuf': fb}),
        ('dots', L.plotstringasdots, T, 6, {'fontbuf': fb}),
        ('side', L.plotstringsideway, T, 6, {'fontbuf': fb}),
        ('up', L.plotstringupsidedown, T, 6, {'fontbuf': fb}),
        ('italic', L.plotitalicstring, T, 6, {'fontbuf': fb}),
        ('vertical', L.plotstringvertical, T, 6, {'fontbuf': fb}),
        ('fern', None, None, None, None),
        ('parallelogram', L.filledparallelogram, (p, q, pts[0]), 3, {}),
        ('drawvec', L.drawvec, (p, (q[0] + .5, q[1]), rng.randint(1, 9)), 3, {}),
    ))
    if kind == 'fern':
        return
    if kw is None:
        c = gen.color(rng, bits)
        kw = {'showoutline': True, 'fillcolor': c, 'isfilled': True}
        got, c = draw.draw_set(ctx, rng, fn, args, w, h, bits, at, color=c, **kw) \
            if c not in draw.CANARY[bits] or bits == 1 else (set(), c)
    else:
        if kind == 'parallelogram' and max(map(abs, (*p, *q, *pts[0]))) > 2000:
            return
        got, c = draw.draw_set(ctx, rng, fn, args, w, h, bits, at, **kw)
    ctx.observe('confined', kind, w, h, bits, repr(args))
    ctx.count('painted_pixels', len(got))


STAGES = [Stage('shape', st_shape, 1200), Stage('curve', st_curve, 80), Stage('far', st_far, 350), Stage('line', st_line, 400),
          Stage('confined', st_confined, 500)]
