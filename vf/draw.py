"""Shared oracle pieces of the drawing checks."""
from pythonbmp import BITMAPlib as L
from . import model, gen
from .core import Violation
from .monitor import call, InPlace, changed

CANARY = {1: (0, 1), 4: (3, 12), 8: (77, 200), 24: (0x123456, 0xfedcba)}


def draw_set(ctx, rng, fn, args, w, h, bits, color_at, what=None, color=None, **kw):
    """Run fn on two images that differ in every pixel (background A and B),
    with canary padding.  The painted set is where the two results agree; the
    rest must still be the backgrounds.  Returns (set, color).

    color_at: index in args where the colour goes (None: no colour argument)."""
    c = gen.color(rng, bits) if color is None else color
    full = list(args)
    if color_at is not None:
        full.insert(color_at, c)
    a, b = CANARY[bits]
    if bits > 1:
        while c in (a, b):
            a, b = (a + 1) & 0xff % (1 << bits), (b + 1) & 0xff % (1 << bits)
            if bits == 4:
                a &= 15
                b &= 15
    res = []
    pal = gen.palette(rng, bits)
    what = what or f'{fn.__name__}{tuple(full)!r}'[:300]
    for bg in (a, b):
        buf = gen.buf(rng, model.Img(w, h, bits, list(pal), [[bg] * w for _ in range(h)]))
        mon = InPlace(ctx, buf)
        call(ctx, fn, buf, *full, **kw)
        res.append((mon.after(what), bg))
    (ia, a), (ib, b) = res
    s = set()
    for y in range(h):
        ra, rb = ia.px[y], ib.px[y]
        for x in range(w):
            va, vb = ra[x], rb[x]
            if va == a and vb == b:
                continue
            if va == vb == c:
                s.add((x, y))
            else:
                raise Violation('wrong-colour', f'{what} on {w}x{h}x{bits}: pixel ({x},{y}) became '
                                f'{va:#x}/{vb:#x} on backgrounds {a:#x}/{b:#x}, colour {c:#x}')
    return s, c


def expect_set(ctx, got, want, w, h, what, mech='pixels'):
    ctx.count('pixel_sets')
    if got != want:
        miss, extra = sorted(want - got), sorted(got - want)
        raise Violation(mech, f'{what} on {w}x{h}: missing {miss[:6]} ({len(miss)}) extra {extra[:6]} ({len(extra)})')


def expect_spans(ctx, got, want, w, h, bits, what, finding, mech='pixels'):
    """want: painted pixel set made of horizontal spans.  On 4 bit images the
    listed finding says the rightmost pixel of a span may be left out."""
    if got == want:
        ctx.count('pixel_sets')
        return
    if bits == 4 and ctx.finding(finding):
        ends = {(x, y) for x, y in want if (x + 1, y) not in want}
        if got <= want and want - got <= ends:
            ctx.count('pixel_sets')
            ctx.saw_known(finding, what)
            return
    expect_set(ctx, got, want, w, h, what, mech)


def inside(s, w, h):
    return {(x, y) for x, y in s if 0 <= x < w and 0 <= y < h}


def line_ok(got, p1, p2):
    """got is one legal rasterisation of the segment: None or a complaint."""
    (x1, y1), (x2, y2) = p1, p2
    dx, dy = x2 - x1, y2 - y1
    n = max(abs(dx), abs(dy))
    if tuple(p1) not in got or tuple(p2) not in got:
        return f'an end point is missing ({p1 in got},{p2 in got})'
    if len(got) != n + 1:
        return f'{len(got)} pixels, want {n + 1}'
    steep = abs(dy) > abs(dx)
    pts = sorted(got, key=(lambda p: (p[1], p[0])) if steep else None)
    for i, (x, y) in enumerate(pts):
        if steep:
            if y != min(y1, y2) + i:
                return f'no pixel in row {min(y1, y2) + i}'
            if abs((x - x1) * dy - (y - y1) * dx) >= abs(dy):
                return f'({x},{y}) is a pixel or more off the segment'
        else:
            if x != min(x1, x2) + i:
                return f'no pixel in column {min(x1, x2) + i}'
            if n and abs((y - y1) * dx - (x - x1) * dy) >= abs(dx):
                return f'({x},{y}) is a pixel or more off the segment'
        if i and max(abs(x - pts[i - 1][0]), abs(y - pts[i - 1][1])) > 1:
            return f'gap before ({x},{y})'
    return None


def expect_span_list(ctx, got, spans, w, h, bits, what, finding, mech='pixels'):
    """spans: (y, x1, x2) all of which are painted, clipped to the image."""
    may, must = set(), set()
    for y, a, b in spans:
        if 0 <= y < h:
            b2 = min(b, w - 1)
            for x in range(max(a, 0), b2 + 1):
                may.add((x, y))
                if x < b2:
                    must.add((x, y))
    if bits == 4 and got != may and ctx.finding(finding) and must <= got <= may:
        ctx.count('pixel_sets')
        ctx.saw_known(finding, what)
        return
    expect_set(ctx, got, may, w, h, what, mech)


_DISC = {}


def disc(ctx, rng, r):
    """rows of the library's own filled disc of radius r: {dy: (x1, x2)}; the
    disc itself is judged against the geometry by check P06."""
    if r not in _DISC:
        n = 2 * r + 5
        s, _ = draw_set(ctx, rng, L.circle, (r + 2, r + 2, r), n, n, 24, 3, isfilled=True)
        rows = {}
        for x, y in s:
            rows.setdefault(y - r - 2, []).append(x - r - 2)
        _DISC[r] = {dy: (min(xs), max(xs)) for dy, xs in rows.items()}
    return _DISC[r]


def disc_spans(ctx, rng, pts, r):
    d = disc(ctx, rng, r)
    return [(y + dy, x + a, x + b) for x, y in pts for dy, (a, b) in d.items()]
