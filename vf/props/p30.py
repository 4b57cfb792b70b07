"""P30 charts show their data to scale."""
import math
from fractions import Fraction
from pythonbmp import BITMAPlib as L
from pythonbmp import charts as CH
from .. import gen, model
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px, changed
from ..draw import CANARY

PID = 'P30'
RULE = ('one case = one data set drawn as a pie chart, as axes or as a scatter plot; slices are judged pixel by pixel by angle and distance, axes and plots by painting each line, tick, '
        'number and mark where the scale puts it; distinct = distinct data sets and scales')
ASSUMPTIONS = ['charts that fit in the image', 'pixels within 1.5 of the border of a slice may have the color of the neighbor slice',
               'lines, circles and text are those the library draws (checked by P04 to P06 and P19)']


def slices(data):
    tot = sum(Fraction(d) for d in data)
    at, out = Fraction(0), []
    for d in data:
        out.append((float(at * 360), float((at + Fraction(d) / tot) * 360)))
        at += Fraction(d) / tot
    return out


def numbers(rng):
    n = gen.upto(rng, 1, 9, 30)
    k = rng.randrange(5)
    if k == 0:
        return [1] * n
    if k == 1:
        return [rng.randint(1, 20) for _ in range(n)]
    if k == 2:
        return [rng.uniform(.1, 20) for _ in range(n)]
    if k == 3:
        d = [rng.randint(0, 9) for _ in range(n)] + [sum([0])]
        d[rng.randrange(len(d))] += sum(d) + 1
        return d
    a = [rng.randint(1, 9) for _ in range(rng.randint(1, 3))]
    d = a + [sum(a)]
    rng.shuffle(d)
    return d


def st_data(ctx, rng):
    data = numbers(rng)
    dl = [[v, rng.randrange(1 << 24)] for v in data]
    tot, _ = call(ctx, CH.getdatalisttotal, dl)
    what = f'pie data {data}'
    ctx.observe('data', tuple(data))
    ctx.check(abs(tot - sum(data)) <= 1e-9 * sum(data), 'total', what)
    (al, big), _ = call(ctx, CH.genpiechartdata, dl)
    ctx.eq(len(al), len(data), 'count', what)
    for (sa, ea, c, v, p), (wa, wb), (d, col) in zip(al, slices(data), dl):
        ctx.check(abs(sa - wa) < 1e-9 and abs(ea - wb) < 1e-9, 'angles', f'{what}: {sa} to {ea}, wanted {wa} to {wb}')
        ctx.check(abs(p - (wb - wa) / 3.6) < 1e-9, 'percent', f'{what}: {p}')
        ctx.eq((c, v), (col, d), 'item', what)
    top = [i for i, (a, b) in enumerate(slices(data)) if b - a >= 180 - 1e-9]
    sure = [i for i, (a, b) in enumerate(slices(data)) if b - a >= 180 + 1e-9]
    if all(type(v) is int for v in data):
        # half of whole numbers is exact
        sure = [i for i, v in enumerate(data) if 2 * v >= sum(data)]
    ctx.check(big in top if sure else big in top + [-1], 'big', f'{what}: big slice {big}, wanted one of {top}')


def colors(rng, bits, n):
    """different colors, none the background"""
    top = (1 << bits) - 1
    out = set()
    while len(out) < n:
        out.add(rng.randint(1, top))
    out = list(out)
    rng.shuffle(out)
    return out


def st_pie(ctx, rng):
    bits = rng.choice(model.BITS[1:])
    data = numbers(rng)
    while len(data) >= 1 << bits:
        data = numbers(rng)
    cols = colors(rng, bits, len(data))
    r = rng.choice((rng.randint(3, 12), gen.upto(rng, 10, 34, 80)))
    w, h = 2 * r + 2 + rng.randint(0, 8), 2 * r + 2 + rng.randint(0, 8)
    x, y = rng.randint(r, w - r - 1), rng.randint(r, h - r - 1)
    img = model.Img(w, h, bits, gen.palette(rng, bits), [[0] * w for _ in range(h)])
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    dl = [[v, c] for v, c in zip(data, cols)]
    (al, big), _ = call(ctx, L.piechart, buf, x, y, r, dl)
    what = f'pie {data} at {x, y} r {r} on {w}x{h}x{bits}'
    ctx.observe('pie', tuple(data), x, y, r, bits)
    got = mon.after(what)
    sl = slices(data)
    ctx.eq([a[2] for a in al], cols, 'returned', what)
    seen = set()
    for py in range(h):
        for px in range(w):
            dx, dy = px - x, py - y
            dist = math.hypot(dx, dy)
            v = got.px[py][px]
            if dist > r + 1:
                ctx.check(v == 0, 'outside', f'{what}: {px, py} outside the chart painted {v}')
                continue
            if dist < r - 1:
                ctx.check(v != 0, 'hole', f'{what}: {px, py} inside the chart not painted')
            if v:
                ctx.check(v in cols, 'color', f'{what}: {px, py} is {v}')
            t = math.degrees(math.atan2(dx, -dy)) % 360
            may = []
            for (a, b), c in zip(sl, cols):
                if a <= t <= b:
                    may.append((a, b, c))
            lim = 1.5
            for a, b, c in may:
                if dist > r - 2 or len(may) != 1:
                    continue
                near = min(dist * math.sin(math.radians(min(90, abs(t - e)))) if abs(t - e) < 180 else dist * math.sin(math.radians(min(90, 360 - abs(t - e)))) for e in (a, b)) if b - a < 360 else 9
                if near > lim + .03 * r:
                    seen.add(c)
                    ctx.check(v == c, 'slice', f'{what}: {px, py} at {t:.1f} degrees is {v}, the slice {a:.1f} to {b:.1f} has {c}')
    ctx.count('slices', len(seen))


def axes(rng, w, h):
    o = [rng.randint(30, 50), h - 1 - rng.randint(24, 30)]
    lim = [rng.randint(o[0] + 12, w - 20), rng.randint(20, o[1] - 12)]
    steps = [rng.randint(8, 40), rng.randint(8, 40)]
    st = rng.choice(([0, 0], [rng.randint(-30, 30), rng.randint(-30, 30)], [rng.randint(0, 9) / 4, rng.randint(0, 9) / 4]))
    inc = rng.choice(([10, 10], [rng.randint(1, 30), rng.randint(1, 30)], [.5, .25]))
    return o, steps, lim, st, inc


def st_axes(ctx, rng):
    bits = rng.choice(model.BITS[1:])
    w, h = rng.randint(120, 220), rng.randint(110, 200)
    o, steps, lim, st, inc = axes(rng, w, h)
    grid = rng.random() < .5
    if grid:
        # the grid is the one of the ticks
        for k, s in ((0, 1), (1, -1)):
            n = abs(lim[k] - o[k]) // steps[k]
            if n:
                lim[k] = o[k] + s * n * steps[k]
    tx, ty = list(range(o[0], lim[0], steps[0])), list(range(o[1], lim[1], -steps[1]))
    if len({len(tx), len(ty), 0}) == 1:
        return
    c, tc, gc = (gen.color(rng, bits) for _ in 'abc')
    img = model.Img(w, h, bits, gen.palette(rng, bits))
    buf = gen.buf(rng, img)
    ref = gen.buf(rng, model.decode(buf))
    mon = InPlace(ctx, buf)
    seq = rng.choice((list, tuple))
    info, _ = call(ctx, L.XYaxis, buf, seq(o), seq(steps), seq(lim), seq(st), seq(inc), c, tc, grid, gc)
    what = f'axes {o} steps {steps} to {lim} from {st} by {inc} grid {grid} on {w}x{h}x{bits}'
    ctx.observe('axes', str(o), str(steps), str(lim), str(st), str(inc), grid)
    got = mon.after(what)
    if grid:
        for x in tx:
            L.vertline(ref, x, lim[1], o[1], gc)
        for y in range(lim[1], o[1], steps[1]):
            L.horiline(ref, y, o[0], lim[0], gc)
    L.drawvec(ref, o, [o[0], lim[1]], 10, c)
    L.drawvec(ref, o, [lim[0], o[1]], 10, c)
    for x in tx:
        L.vertline(ref, x, o[1], o[1] + 3, c)
    for y in ty:
        L.horiline(ref, y, o[0] - 3, o[0], c)
    for i, y in enumerate(ty):
        s = str(st[1] + i * inc[1])
        L.plotstring(ref, o[0] - 15 - 8 * (len(s) - 1), y - 4, s, 1, 0, 0, tc, L.font8x14)
    for i, x in enumerate(tx):
        L.plotstring(ref, x - 4, o[1] + 7, str(st[0] + i * inc[0]), 1, 0, 0, tc, L.font8x14)
    compare_px(what, got, model.decode(ref), 'axes')
    ctx.eq([list(v) for v in info], [o, steps, lim, st, inc, [st[0] + (len(tx) - 1) * inc[0], st[1] + (len(ty) - 1) * inc[1]]], 'info', what)
    # each tick is where its value is plotted
    for i, x in enumerate(tx):
        for j, y in enumerate(ty):
            p, _ = call(ctx, L.userdef2Dcooordsys2screenxy, st[0] + i * inc[0], st[1] + j * inc[1], info)
            ctx.check(abs(p[0] - x) < 1e-9 and abs(p[1] - y) < 1e-9, 'tick-value', f'{what}: tick {i},{j} at {x, y} is plotted at {p}')


def at(o, steps, st, inc, v):
    return [o[k] + s * (v[k] - st[k]) / inc[k] * steps[k] for k, s in ((0, 1), (1, -1))]


def st_scale(ctx, rng):
    o, steps, lim, st, inc = axes(rng, 200, 200)
    v = [st[k] + rng.uniform(-2, 12) * inc[k] for k in (0, 1)]
    p, out = call(ctx, L.userdef2Dcooordsys2screenxy, *v, [o, steps, lim, st, inc])
    ctx.observe('scale', str(v), str(o))
    x, y = at(o, steps, st, inc, v)
    what = f'{v} on axes {o} steps {steps} to {lim} from {st} by {inc}'
    if min(abs(x - lim[0]), abs(y - lim[1])) < 1e-6:
        return
    if x > lim[0] or y < lim[1]:
        ctx.eq(list(p), [-1, -1], 'beyond', what)
        ctx.check(out.strip(), 'no-message', what)
    else:
        ctx.check(abs(p[0] - x) < 1e-9 and abs(p[1] - y) < 1e-9, 'scale', f'{what}: at {p}, wanted {x, y}')


def st_scatter(ctx, rng):
    bits = rng.choice(model.BITS[1:])
    w, h = rng.randint(120, 220), rng.randint(110, 200)
    o, steps, lim, st, inc = axes(rng, w, h)
    top = [st[k] + ((abs(lim[k] - o[k]) - 1) // steps[k]) * inc[k] for k in (0, 1)]
    info = [o, steps, lim, st, inc, top]
    over = [(abs(lim[k] - o[k]) / steps[k]) for k in (0, 1)]
    n = gen.upto(rng, 2, 9, 40)
    pts = []
    stray = rng.random() < .4
    for _ in range(n):
        q = [rng.uniform(0, over[0]), rng.uniform(0, over[1])]
        if stray and rng.random() < .3:
            q[rng.randrange(2)] += rng.uniform(0, 12)
        pts.append([st[0] + q[0] * inc[0], st[1] + q[1] * inc[1], rng.randint(0, 8), gen.color(rng, bits), rng.random() < .5])
    line = rng.random() < .6 and top[0] != st[0] and top[1] != st[1]
    ends = []
    if line:
        if rng.random() < .4:
            # a falling or a rising row of points
            m = rng.choice((-1, 1)) * rng.uniform(.2, 3) * inc[1] / inc[0]
            for p in pts:
                p[1] = st[1] + over[1] * inc[1] / 2 + m * (p[0] - st[0] - over[0] * inc[0] / 2)
        mx, my = sum(p[0] for p in pts) / n, sum(p[1] for p in pts) / n
        sxx = sum((p[0] - mx) ** 2 for p in pts)
        if sxx < 1e-6:
            return
        m = sum((p[0] - mx) * (p[1] - my) for p in pts) / sxx
        b = my - m * mx
        if abs(m) < 1e-6:
            return
        for e in (st[0], top[0]):
            q = at(o, steps, st, inc, [e, m * e + b])
            if q[1] < lim[1] + 1e-6:
                if q[1] > lim[1] - 1e-6:
                    return
                e = (top[1] - b) / m
                q = at(o, steps, st, inc, [e, top[1]])
            if not (o[0] - 1 < q[0] < lim[0] and lim[1] < q[1] < h - 1):
                return
            if any(abs(c % 1 - .5) < 1e-6 for c in q):
                return
            ends.append([round(c) for c in q])
    img = model.Img(w, h, bits, gen.palette(rng, bits))
    buf = gen.buf(rng, img)
    ref = gen.buf(rng, model.decode(buf))
    mon = InPlace(ctx, buf)
    c = gen.color(rng, bits)
    what = f'scatter {pts} on axes {o} steps {steps} to {lim} from {st} by {inc} line {ends} on {w}x{h}x{bits}'
    for x, y, r, col, f in pts:
        q = at(o, steps, st, inc, (x, y))
        if any(abs(v % 1 - .5) < 1e-6 for v in q) or abs(q[0] - lim[0]) < 1e-6 or abs(q[1] - lim[1]) < 1e-6:
            return
        if q[0] > lim[0] or q[1] < lim[1]:
            ctx.count('strays')
            continue
        if not (0 <= q[0] < w - 1 and 0 <= q[1] < h - 1):
            return
        q = [round(v) for v in q]
        if r > 1:
            L.circle(ref, *q, min(r, 5), col, f)
        else:
            L.plotxybit(ref, *q, col)
    if line:
        L.line(ref, *ends[0], *ends[1], c)
    _, out = call(ctx, L.XYscatterplot, buf, pts, info, line, c)
    ctx.observe('scatter', str(pts), str(o), line)
    compare_px(what, mon.after(what), model.decode(ref), 'scatter')
    ctx.count('lines', line)


STAGES = [Stage('data', st_data, 100), Stage('pie', st_pie, 60), Stage('axes', st_axes, 40), Stage('scale', st_scale, 100), Stage('scatter', st_scatter, 60)]
