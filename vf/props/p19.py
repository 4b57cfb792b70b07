"""P19 text: character cells, string layouts, text files, text output."""
import os
import shutil
import tempfile
from pythonbmp import BITMAPlib as L
from pythonbmp import fonts as F
from pythonbmp import chartools as CT
from pythonbmp import textgraphics as TG
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px

PID = 'P19'
RULE = ('one case = one string (or one 8 pixel wide pattern) drawn in one of the text styles at a random place of a random image, or written '
        'to a file of its own, or an image / pattern printed as text; whole image compared with the cells of the font bitmaps at the places '
        'the layout defines; distinct = distinct (style, text, font, scale, spacing, place, image)')
ASSUMPTIONS = ['a cell is a point, a filled rectangle or a filled disc of the library (judged by P03, P05, P06)']
FR = 'P19-reversed-column'
FONTS = [(n, getattr(F, n)) for n in ('font8x8', 'font8x14', 'font8x8thin', 'font8x14thin', 'font8x8sanserif', 'font8x14sanserif')]


def cells(style, pat, x, y, s):
    """(x, y, row of the pattern, row as drawn, low): the cells of one pattern; low: the lowest bit of a reversed pattern"""
    h = len(pat)
    it = 'italic' in style
    up = 'upsidedown' in style
    side = 'sideway' in style
    rev = 'reversed' in style
    if it and not up and not side:
        x += (s >> 1) * h if s > 1 else h >> 1
    for r in range(h):
        bits = pat[h - 1 - r if up else r]
        for k in range(8):
            if bits >> (k if rev else 7 - k) & 1:
                if side:
                    yield x, y - k * s, r, False
                else:
                    yield x + k * s, y, r, rev and k == 0
        if side:
            x += s
            if it:
                y += s >> 1 if s > 1 else (1 if x % 2 == 0 else 0)
        else:
            y += s
            if it:
                x -= s >> 1 if s > 1 else (1 if y % 2 == 0 else 0)


def paint(buf, cs, s, ps, color, dots, skiplow):
    d = s - 1 - ps
    for x, y, r, low in cs:
        if low and skiplow:
            continue
        c = color if isinstance(color, int) else color[r % len(color)]
        if s == 1 or d <= 0:
            L.plotxybit(buf, x, y, c)
        elif dots:
            L.filledcircle(buf, x + d // 2, y + d // 2, d // 2, c)
        else:
            L.filledrect(buf, x, y, x + d, y + d, c)


def layout(text, way, order, x, y, s, h, sp):
    sp = sp or 1
    dx, dy = s * 8 + sp, s * h + sp
    x0, y0 = x, y
    for c in (text if order > 0 else text[::-1]):
        if c == '\n':
            if way == 'h':
                x, y = x0, y + dy
            elif way == 'v':
                x, y = x + dx, y0
            else:
                x, y = x + dy, y0
            continue
        n = 4 if c == '\t' else 1
        if c != '\t':
            yield c, x, y
        if way == 'h':
            x += dx * n
        elif way == 'v':
            y += dy * n
        else:
            y -= dx * n


# name: (style, dots, way, order)
STR = {
    'plotstring': ('', 0, 'h', 1), 'plotstringasdots': ('', 1, 'h', 1),
    'plotitalicstring': ('italic', 0, 'h', 1), 'plotitalicstringasdots': ('italic', 1, 'h', 1),
    'plotreversestring': ('reversed', 0, 'h', -1), 'plotreversestringasdots': ('reversed', 1, 'h', -1),
    'plotreverseditalicstring': ('reversed italic', 0, 'h', -1), 'plotreverseditalicstringasdots': ('reversed italic', 1, 'h', -1),
    'plotstringupsidedown': ('upsidedown', 0, 'h', -1), 'plotstringupsidedownasdots': ('upsidedown', 1, 'h', -1),
    'plotupsidedownitalicstring': ('upsidedown italic', 0, 'h', -1), 'plotupsidedownitalicstringasdots': ('upsidedown italic', 1, 'h', -1),
    'plotstringsideway': ('sideway', 0, 's', 1), 'plotstringsidewayasdots': ('sideway', 1, 's', 1),
    'plotitalicstringsideway': ('sideway italic', 0, 's', 1), 'plotitalicstringsidewayasdots': ('sideway italic', 1, 's', 1),
    'plotstringvertical': ('', 0, 'v', 1), 'plotstringverticalasdots': ('', 1, 'v', 1),
    'plotitalicstringvertical': ('italic', 0, 'v', 1), 'plotitalicstringverticalasdots': ('italic', 1, 'v', 1)}
PAT = {
    'plot8bitpattern': ('', 0), 'plot8bitpatternasdots': ('', 1), 'plotitalic8bitpattern': ('italic', 0), 'plotitalic8bitpatternasdots': ('italic', 1),
    'plotrotated8bitpattern': ('reversed', 0), 'plotrotated8bitpatternasdots': ('reversed', 1), 'plotreverseditalic8bitpattern': ('reversed italic', 0),
    'plotreverseditalic8bitpatternasdots': ('reversed italic', 1), 'plot8bitpatternupsidedown': ('upsidedown', 0),
    'plot8bitpatternupsidedownasdots': ('upsidedown', 1), 'plotupsidedownitalic8bitpattern': ('upsidedown italic', 0),
    'plotupsidedownitalic8bitpatternasdots': ('upsidedown italic', 1), 'plotitalic8bitpatternupdsidedownasdots': ('upsidedown italic', 1),
    'plot8bitpatternsideway': ('sideway', 0), 'plot8bitpatternsidewaywithdots': ('sideway', 1), 'plotitalic8bitpatternsideway': ('sideway italic', 0),
    'plotitalic8bitpatternsidewayasdots': ('sideway italic', 1)}
FILE = {
    'plotstring2file': ('', 0, 'h', 1), 'plotstringasdots2file': ('', 1, 'h', 1), 'plotitalicstring2file': ('italic', 0, 'h', 1),
    'plotitalicstringasdots2file': ('italic', 1, 'h', 1), 'plotreversedstring2file': ('reversed', 0, 'h', -1),
    'plotreversedstringasdots2file': ('reversed', 1, 'h', -1), 'plotreverseditalicstring2file': ('reversed italic', 0, 'h', -1),
    'plotupsidedownstring2file': ('upsidedown', 0, 'h', -1), 'plotupsidedownstringasdots2file': ('upsidedown', 1, 'h', -1),
    'plotverticalstring2file': ('', 0, 'v', 1), 'plotverticalitalicstring2file': ('italic', 0, 'v', 1),
    'plotverticalstringasdots2file': ('', 1, 'v', 1), 'plotverticalitalicstringasdots2file': ('italic', 1, 'v', 1)}


def words(rng):
    n = gen.upto(rng, 0, 5, 24, .2)
    return ''.join(rng.choice((chr(rng.randrange(256)), chr(rng.randint(33, 126)), chr(rng.randint(33, 126)), '\n', '\t', ' '))
                   if rng.random() < .9 else chr(rng.choice((0, 1, 255))) for _ in range(n))


def pens(rng, bits, style):
    if style != 'reversed' and rng.random() < .35:
        return rng.choice((list, tuple))(gen.color(rng, bits) for _ in range(gen.upto(rng, 1, 10, 40)))
    return gen.color(rng, bits)


def scale(rng):
    s = rng.choice((1, 1, 2, 2, 3, 4, 5, 8, rng.randint(6, 17)))
    return s, rng.choice((0, 0, 0, 1, 1, rng.randint(0, s + 1)))


def compare(ctx, what, got, raw, draw):
    """draw(buf, skiplow) paints the expected text"""
    want = model.array('B', raw)
    draw(want, False)
    w = model.decode(want)
    if got.px != w.px and ctx.finding(FR):
        alt = model.array('B', raw)
        draw(alt, True)
        a = model.decode(alt)
        if got.px == a.px:
            ctx.saw_known(FR, what)
            return
    compare_px(what, got, w, 'text')


def st_string(ctx, rng):
    name = rng.choice(sorted(STR))
    style, dots, way, order = STR[name]
    fname, font = rng.choice(FONTS)
    s, ps = scale(rng)
    text, sp = words(rng), rng.choice((0, 0, 1, 2, 7, -2, rng.randint(3, 30)))
    w, h = rng.randint(4, 150), rng.randint(4, 120)
    bits = rng.choice(model.BITS)
    img = model.Img(w, h, bits, gen.palette(rng, bits), [[gen.color(rng, bits)] * w for _ in range(h)])
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    x, y = rng.randint(-10, w // 2), rng.randint(-10, h // 2)
    if rng.random() < .15:
        x, y = rng.randint(-60, w), rng.randint(-60, h)
    if way == 's':
        y = h - 1 - y
    color = pens(rng, bits, style)
    call(ctx, getattr(L, name), buf, x, y, text, s, ps, sp, color, font)
    ctx.observe(name, text, fname, s, ps, sp, x, y, w, h, bits, color)
    what = f'{name} {text!r} at {x, y} scale {s} pixspace {ps} spacing {sp} {fname} colour {color}'
    got = mon.after(what)

    def draw(b, low):
        for c, cx, cy in layout(text, way, order, x, y, s, font[0], sp):
            g = list(font[ord(c) * font[0] + 1:(ord(c) + 1) * font[0] + 1])
            paint(b, cells(style, g, cx, cy, s), s, ps, color, dots, low)
            ctx.count('characters')
    compare(ctx, what, got, mon.raw, draw)


def st_pattern(ctx, rng):
    name = rng.choice(sorted(PAT))
    style, dots = PAT[name]
    pat = [rng.randrange(256) for _ in range(gen.upto(rng, 1, 16, 40))]
    s, ps = scale(rng)
    bits = rng.choice(model.BITS)
    img = gen.image(rng, bits=bits, w=rng.randint(1, 90), h=rng.randint(1, 90), style=rng.choice(('flat', 'ramp')))
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    x, y = rng.randint(-4, img.w), rng.randint(-4, img.h)
    if rng.random() < .1:
        x, y = rng.randint(-70, img.w + 9), rng.randint(-70, img.h + 9)
    color = pens(rng, bits, style)
    call(ctx, getattr(L, name), buf, x, y, pat, s, ps, color)
    ctx.observe(name, tuple(pat), s, ps, x, y, img.w, img.h, bits, color)
    what = f'{name} {pat} at {x, y} scale {s} pixspace {ps} colour {color}'
    compare(ctx, what, mon.after(what), mon.raw, lambda b, low: paint(b, cells(style, pat, x, y, s), s, ps, color, dots, low))


def textsize(text):
    lines = text.replace('\t', '    ').split('\n')
    return max(map(len, lines)), len(lines)


def st_file(ctx, rng):
    name = rng.choice(sorted(FILE))
    style, dots, way, order = FILE[name]
    fname, font = rng.choice(FONTS)
    s, ps = scale(rng)
    text, sp = words(rng), rng.choice((0, 0, 1, 3, rng.randint(3, 30)))
    bits = rng.choice(model.BITS)
    color = pens(rng, bits, style)
    bg = rng.choice((0, gen.color(rng, bits)))
    d = tempfile.mkdtemp(prefix='vfp19')
    try:
        p = os.path.join(d, 't.bmp')
        opt = (bg, bits)
        if bits == 24 and rng.random() < .4:
            opt = (bg,) if bg else ()
        call(ctx, getattr(L, name), p, text, s, ps, sp, color, font, *opt, mutates=())
        with open(p, 'rb') as f:
            got = model.decode(f.read())
        left = sorted(os.listdir(d))
    finally:
        shutil.rmtree(d)
    ctx.observe(name, text, fname, s, ps, sp, bits, bg, color)
    what = f'{name} {text!r} scale {s} pixspace {ps} spacing {sp} {fname} colour {color} on {bg} at {bits} bits'
    ctx.eq(left, ['t.bmp'], 'files', what)
    cols, rows = textsize(text)
    if way == 'v':
        cols, rows = rows, cols
    w, h = cols * (s * 8 + (sp or 1)) + 2 * s, rows * (s * font[0] + (sp or 1)) + 2 * s
    if 'italic' in style:
        w += font[0] * (s >> 1) if s > 1 else font[0] >> 1
    ctx.eq((got.w, got.h, got.bits), (w, h, bits), 'file-size', what)
    raw = bytes(model.encode(model.Img(w, h, bits, got.pal, [[bg if bits < 24 else bg] * w for _ in range(h)])))
    if bits == 4 and bg:      # the background is a filled rectangle
        b = model.encode(model.Img(w, h, bits, got.pal))
        L.filledrect(b, 0, 0, w - 1, h - 1, bg)
        raw = bytes(b)

    def draw(b, low):
        for c, cx, cy in layout(text, way, order, s, s, s, font[0], sp):
            g = list(font[ord(c) * font[0] + 1:(ord(c) + 1) * font[0] + 1])
            paint(b, cells(style, g, cx, cy, s), s, ps, color, dots, low)
    compare(ctx, what, got, raw, draw)


def st_number(ctx, rng):
    """numbers along a list of points"""
    bits = rng.choice(model.BITS)
    img = model.Img(rng.randint(20, 160), rng.randint(20, 90), bits, gen.palette(rng, bits))
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    fname, font = rng.choice(FONTS)
    n = gen.upto(rng, 1, 5, 14, .1)
    pts = [[rng.randint(0, img.w), rng.randint(0, img.h)] for _ in range(n)]
    if rng.random() < .3:
        pts.append(list(pts[0]))
    xa, ya = rng.randint(-9, 9), rng.randint(-9, 9)
    s = rng.choice((1, 1, 2))
    v0, dv = rng.choice(((0, 1), (5, 10), (-3, 1), (.5, .25), (100, -50)))
    nz, nl, rj = (rng.random() < .4 for _ in 'abc')
    c = gen.color(rng, bits)
    call(ctx, L.numbervert, buf, pts, xa, ya, s, v0, dv, 0, 0, c, font, nz, nl, rj)
    ctx.observe('number', str(pts), xa, ya, s, v0, dv, nz, nl, rj, fname)
    what = f'numbervert {pts} {xa, ya} scale {s} from {v0} by {dv} {nz, nl, rj}'
    got = mon.after(what)

    def draw(b, low):
        for i, (x, y) in enumerate(pts):
            if (i == 0 and nz) or (i == len(pts) - 1 and nl):
                continue
            t = str(v0 + i * dv)
            for ch, cx, cy in layout(t, 'h', 1, x + xa - (8 * (len(t) - 1) if rj else 0), y + ya, s, font[0], 0):
                paint(b, cells('', list(font[ord(ch) * font[0] + 1:(ord(ch) + 1) * font[0] + 1]), cx, cy, s), s, 0, c, 0, low)
    compare(ctx, what, got, mon.raw, draw)


def st_print(ctx, rng):
    k = rng.randrange(5)
    if k == 0:
        v = rng.randrange(256)
        _, out = call(ctx, TG.plotbitsastext, v)
        ctx.observe('bits', v)
        ctx.eq(out, f'{v:08b}'.replace('0', ' ').replace('1', '*'), 'bits-as-text', str(v))
    elif k == 1:
        pat = [rng.randrange(256) for _ in range(rng.randint(0, 14))]
        a, b = rng.choice((('*', ' '), ('#', '.'), ('ab', 'c')))
        got, _ = call(ctx, TG.plot8bitpatternastext, pat, a, b)
        ctx.observe('pattern', tuple(pat), a)
        ctx.eq(got, ''.join(''.join(a if v >> i & 1 else b for i in range(7, -1, -1)) + '\n' for v in pat), 'pattern-as-text', str(pat))
    elif k == 2:
        t = words(rng) + words(rng)
        ctx.observe('size', t)
        ctx.eq(tuple(TG.computetextrowandcolcnt(t)), textsize(t), 'text-size', repr(t))
        ctx.eq(list(CT.enumletters(t)), list(t), 'letters', repr(t))
        ctx.eq(list(CT.enumreverseletters(t)), list(t[::-1]), 'letters', repr(t))
        ctx.eq(CT.char2int(t), sum(ord(c) << 8 * i for i, c in enumerate(t)), 'char2int', repr(t))
    elif k == 3:
        fname, font = rng.choice(FONTS)
        c = chr(rng.randrange(256))
        h = font[0]
        ctx.observe('font', fname, c)
        ctx.eq(len(font), 1 + 256 * h, 'font', f'{fname} length')
        got, _ = call(ctx, F.getcharfont, font, c, mutates=())
        ctx.eq(got, list(font)[1 + h * ord(c):1 + h * ord(c) + h], 'font', f'{fname} {c!r}')
    else:
        img = gen.image(rng, bits=rng.choice((1, 4, 8)), big=20)
        if img.bits == 8:
            img.px = [[32 + v % 90 for v in r] for r in img.px]
        buf = gen.buf(rng, img, canary=False)
        raw = bytes(buf)
        _, out = call(ctx, L.plotbmpastext, buf, mutates=())
        ctx.observe('image', img.key())
        ctx.check(bytes(buf) == raw, 'image-changed', 'plotbmpastext')
        lines = out.split('\n')[:-1] if img.bits < 8 else [out[i:i + model.rowbytes(img.w, 8)] for i in range(0, len(out), model.rowbytes(img.w, 8) + 1)]
        f = {1: lambda v: ' *'[v], 4: lambda v: chr(97 + v), 8: chr}[img.bits]
        ctx.eq([t[:img.w] for t in lines], [''.join(map(f, r)) for r in img.px], 'image-as-text', f'{img.w}x{img.h}x{img.bits}')


STAGES = [Stage('string', st_string, 150), Stage('pattern', st_pattern, 150), Stage('file', st_file, 60), Stage('number', st_number, 40),
          Stage('print', st_print, 100)]
