"""P26 fractal images and files."""
import cmath
import math
import os
from pythonbmp import BITMAPlib as L
from pythonbmp import fractals as F
from pythonbmp import primitives2D as PR
from .. import model, gen, draw
from ..core import Stage, Violation
from ..monitor import call, InPlace
from . import p25
from .p18 import Dir, listing, rd

PID = 'P26'
RULE = ('one case = one fractal drawn into an image or written to a file; every pixel is compared with the color the independently computed iteration value stands for '
        '(curves: with the pixels of their lines), everything else with the image before; distinct = distinct functions, parameters, images and rectangles')
ASSUMPTIONS = p25.ASSUMPTIONS + ['at most 255 steps; as many factor lists as roots', 'palettes of new images are judged by P14']

# plot function: (value function, parameter kinds, fixed parameters)
PLOT = {'mandelbrot': ('multibrot', '', (2,)), 'tricorn': ('multicorn', '', (2,)), 'julia': ('multijulia', 'c', (2,)), 'astroidfractal': ('astroid', 'r', ()),
        'lemniscatefractal': ('lemniscate', 'r', ()), 'xorfractal': ('xorfn', 't', ()), 'xordivfractal': ('xordivfn', 't', ()), 'tetrationfractal': ('tetrationfn', 't', ()),
        'lambdafractal': ('lambdafn', 'c', ()), 'ngonfractal': ('ngonfunc', 'fe', ())}
for _k, _v in p25.FN.items():
    if hasattr(L, _k):
        PLOT[_k] = (_k, _v[1], ())
SAVE = {'savelambdafractal2file': 'lambdafractal', 'savetetrationfractal2file': 'tetrationfractal', 'savexorfractal2file': 'xorfractal', 'savexordivfractal2file': 'xordivfractal',
        'savesinjulia2file': 'sinjulia', 'savespiraljulia2file': 'spiraljulia', 'savecosjulia2file': 'cosjulia', 'savemandelbrotfractal2file': 'mandelbrot',
        'savemultibrotfractal2file': 'multibrot', 'savemulticirclefractal2file': 'multicircle', 'savemultihyperbolafractal2file': 'multihyperbola',
        'savemultisuperellipsefractal2file': 'multisuperellipse', 'saveastroidfractal2file': 'astroidfractal', 'savelemniscatefractal2file': 'lemniscatefractal',
        'savetricornfractal2file': 'tricorn', 'savemulticornfractal2file': 'multicorn', 'savebarnsleytreefractal2file': 'barnsleytree', 'savemarekdragon2file': 'marekdragon',
        'savejuliafractal2file': 'julia', 'savemultijuliafractal2file': 'multijulia', 'savengonfractal2file': 'ngonfractal'}
for _k in PLOT:
    if 'biomorph' in _k:
        SAVE[f'save{_k}fractal2file'] = _k
WRAP = 'savefractal2file', 'savemultifractal2file', 'savefractalwithparam2file', 'savefractalwith2param2file'


def params(rng, kinds):
    """parameters for the plot function and for the value function"""
    par, opar = [], []
    for k in kinds:
        if k == 'u':
            v = rng.choice((.25, .1, rng.random()))
            par.append(v)
            opar.append(cmath.exp(2j * math.pi * v))
        else:
            v = p25.param(rng, k)
            par.append(v)
            opar.append(v)
    return par, opar


def mix(c, f):
    """24 bit colors of value c"""
    lum = (255 - c) * 20 % 256
    s = [()]
    for q in f:
        s = [t + (k,) for t in s for k in {int(max(0, q * lum + e)) for e in (-1e-6, 1e-6)}]
    return {r << 16 | g << 8 | b for r, g, b in s}


def colors(bits, fac, ok, n):
    """pixels that value(s) may become; None: undecided"""
    if any(isinstance(v, float) for v in ok):
        if max(ok) - min(ok) > 1e-3:
            return None
        if len({int(v + e) % n for v in ok for e in (-2e-3, 2e-3)}) > 1:
            return None
        if bits == 24:
            a = [min(q * ((255 - v) * 20 % 256) for v in ok) for q in fac]
            b = [max(q * ((255 - v) * 20 % 256) for v in ok) for q in fac]
            if any(int(p + .05) != int(q - .05) or q - p > .1 for p, q in zip(a, b)):
                return None
            return {int(a[0]) << 16 | int(a[1]) << 8 | int(a[2])}
        ok = {int(v) for v in ok}
    if len(ok) > 1:
        return None
    c, = ok
    m = 1 << bits
    if bits == 24:
        return mix(c, fac)
    if bits == 1:
        return {c % 2}
    if len(fac) == 3:
        return {c % m}
    return {(m - 1 - c) % m}


def factors(rng, bits):
    if bits < 24 and rng.random() < .4:
        return [gen.color(rng, 24), gen.color(rng, 24)]
    return [rng.choice((0, .25, .5, 1, rng.random())) for _ in 'rgb']


def expect(ctx, name, opar, fixed, rect, dom, n, w, h):
    """{(x, y): possible values}; None when the values cannot be computed"""
    r = {}
    try:
        for x, y, P, Q in p25.places(rect, dom):
            if 0 <= x < w and 0 <= y < h:
                r[x, y] = p25.values(name, P, Q, [*opar, *fixed], n)
    except (OverflowError, ZeroDivisionError, ValueError):
        ctx.count('skipped')
        return None
    return r


def judge(ctx, px, ok, bits, fac, n, what):
    for (x, y), v in ok.items():
        c = colors(bits, fac, v, n)
        if c is None:
            ctx.count('undecided')
        elif px[y][x] not in c:
            raise Violation('color', f'{what}: {x, y} is {px[y][x]:#x}, wanted {sorted(map(hex, c))} for value {v}')


def untouched(img, now, ok, what):
    for y in range(img.h):
        for x in range(img.w):
            if (x, y) not in ok and img.px[y][x] != now.px[y][x]:
                raise Violation('outside', f'{what}: {x, y} changed from {img.px[y][x]:#x} to {now.px[y][x]:#x}')


def fit(name, par, dom):
    if name in ('multihyperbola', 'multisuperellipse') and not isinstance(par[0], int):
        return [abs(v) for v in dom]
    return dom


def st_plot(ctx, rng):
    fn = list(PLOT)[rng.index % len(PLOT)]
    name, kinds, fixed = PLOT[fn]
    img = gen.image(rng, big=14)
    buf = gen.buf(rng, img)
    par, opar = params(rng, kinds)
    _, _, dom = p25.grid(rng, name in p25.WIDE)
    dom = fit(name, par, dom)
    n = rng.choice((1, 8, 30, 255, rng.randint(1, 300)))
    x1, y1 = rng.randint(-3, img.w - 1), rng.randint(-3, img.h - 1)
    if rng.random() < .6:
        x1, y1 = max(x1, 0), max(y1, 0)
    x2, y2 = x1 + rng.randint(1, 12), y1 + rng.randint(1, 12)
    if rng.random() < .6:
        x2, y2 = max(x1 + 1, min(x2, img.w)), max(y1 + 1, min(y2, img.h))
    if rng.random() < .05:
        x1, y1 = x1 - rng.randint(0, 90), y1 - rng.choice((0, 0, rng.randint(0, 90)))
    r = (x1, y1, x2, y2)
    pos = rng.choice((r, r, (x2, y1, x1, y2), (x1, y2, x2, y1), (x2, y2, x1, y1)))
    fac = factors(rng, img.bits)
    ok = expect(ctx, name, opar, fixed, r, dom, n, img.w, img.h)
    if ok is None:
        return
    ctx.observe(fn, img.key(), pos, par, dom, n, fac)
    what = f'{fn} on {pos} of {img.w}x{img.h}x{img.bits}, {par} over {dom} up to {n} colors {fac}'
    mon = InPlace(ctx, buf)
    if rng.random() < .1 and len(par) + len(fixed) < 3:
        p = [*par, *fixed]
        g, it = (L.plotmultifractalcomplexpar, p25.FN[name][2]) if len(p) == 2 else (L.plotmultifractal, p25.FN[name][2])
        call(ctx, g, buf, *pos, *p, getattr(F, it), dom, fac, n)
    else:
        call(ctx, getattr(L, fn), buf, *pos, *par, dom, fac, n)
    now = mon.after(what)
    judge(ctx, now.px, ok, img.bits, fac, n, what)
    untouched(img, now, ok, what)


def fromroots(zs):
    def f(z):
        r = 1
        for v in zs:
            r *= z - v
        return r

    def g(z):
        r = 0
        for i in range(len(zs)):
            t = 1
            for j, v in enumerate(zs):
                if i != j:
                    t *= z - v
            r += t
        return r
    return f, g


def st_newton(ctx, rng):
    img = gen.image(rng, big=10)
    buf = gen.buf(rng, img)
    k = rng.choice(list(p25.POLY))
    f, g = p25.poly(k)
    _, _, dom = p25.grid(rng)
    n = rng.choice((3, 10, 40, 255, rng.randint(3, 300)))
    r = (0, 0, img.w, img.h)
    if rng.random() < .5:
        x1, y1 = rng.randrange(img.w), rng.randrange(img.h)
        r = (x1, y1, rng.randint(x1 + 1, img.w), rng.randint(y1 + 1, img.h))
    fac = [[rng.choice((0, 1, rng.random())) for _ in 'rgb'] for _ in range(7)]
    pair = F.funcparamdict()[k]
    if rng.random() < .35:
        zs = [complex(rng.uniform(-1.5, 1.5), rng.uniform(-1.5, 1.5)) for _ in range(rng.randint(1, 4))]
        if rng.random() < .6:
            zs.append(zs[0] + rng.uniform(.03, .2) * rng.choice((1, -1, 1j, -1j, 1 + 1j)))
        k = f'roots {zs}'
        pair = f, g = fromroots(zs)
    tofile = rng.random() < .3
    if tofile:
        r, fac = (0, 0, img.w, img.h), fac if img.bits == 24 else factors(rng, img.bits)
    ctx.observe('newton', k, img.key(), r, dom, n)
    what = f'newton {k} on {r} of {img.w}x{img.h}x{img.bits} over {dom} up to {n} colors {fac if img.bits == 24 else ""}'
    if tofile:
        with Dir() as d:
            p = os.path.join(d, 'n.bmp')
            roots, _ = call(ctx, L.savenewtonsfractal2file, p, img.w, img.h, pair, dom, fac, img.bits, n)
            ctx.check(os.listdir(d) == ['n.bmp'], 'file', f'{what}: left {os.listdir(d)}')
            now = model.decode(rd(p))
        ctx.eq((now.w, now.h, now.bits), (img.w, img.h, img.bits), 'file', what)
        img = model.Img(img.w, img.h, img.bits, now.pal, [[0] * img.w for _ in range(img.h)])
    else:
        mon = InPlace(ctx, buf)
        roots = call(ctx, L.newtonsfractal, buf, *r, pair, dom, fac, n)[0]
        now = mon.after(what)
    for i, z in enumerate(roots):
        ctx.check(abs(f(z)) < .05 and all(abs(z - y) >= .0099 for y in roots[:i]), 'roots', f'{what}: roots {roots}')
    top = (1 << img.bits) - 1
    ok, found = {}, set()
    for x, y, P, Q in p25.places(r, dom):
        vs = [p25.newton(complex(P * (1 + e), Q * (1 + h)), f, g, n) for e, h in p25.NUDGE]
        ok[x, y] = 1
        if len({i for _, i in vs}) > 1 or vs[0][0] is not None and any(abs(w - vs[0][0]) > 1e-6 for w, _ in vs):
            ctx.count('undecided')
            continue
        w, i = vs[0]
        got = now.px[y][x]
        if w is None:
            want = {img.px[y][x]}
        else:
            near = [j for j, z in enumerate(roots) if abs(z - w) < .01]
            if not near:
                raise Violation('roots', f'{what}: root {w} of {x, y} is not among {roots}')
            if len(near) > 1:
                ctx.count('undecided')
                continue
            found.add(near[0])
            want = mix(i, fac[near[0]]) if img.bits == 24 else {top - i % (top + 1)}
        if got not in want:
            raise Violation('color', f'{what}: {x, y} is {got:#x}, wanted {sorted(map(hex, want))}: root {w} after {i}')
    untouched(img, now, ok, what)


def st_file(ctx, rng):
    names = [*SAVE, *WRAP]
    fn = names[rng.index % len(names)]
    if fn in SAVE:
        plot = SAVE[fn]
    else:
        k = WRAP.index(fn)
        plot = rng.choice([p for p, v in PLOT.items() if len(v[1]) == (0, 1, 1, 2)[k]])
    name, kinds, fixed = PLOT[plot]
    w, h, bits = gen.upto(rng, 1, 12, 60, .03), gen.upto(rng, 1, 12, 60, .03), rng.choice(model.BITS)
    par, opar = params(rng, kinds)
    _, _, dom = p25.grid(rng, name in p25.WIDE)
    dom = fit(name, par, dom)
    n = rng.choice((1, 8, 30, 255, 255, rng.randint(1, 300)))
    fac = factors(rng, bits)
    ok = expect(ctx, name, opar, fixed, (0, 0, w, h), dom, n, w, h)
    if ok is None:
        return
    ctx.observe(fn, plot, w, h, bits, par, dom, n, fac)
    what = f'{fn} {plot} {w}x{h}x{bits}, {par} over {dom} up to {n} colors {fac}'
    with Dir() as d:
        p = os.path.join(d, 'out.bmp')
        if rng.random() < .3:
            with open(p, 'wb') as f:
                f.write(b'x' * rng.choice((3, 9000)))
        with open(os.path.join(d, 'other'), 'wb') as f:
            f.write(b'keep')
        keep = listing(d)
        a = [p, w, h] + ([getattr(L, plot)] if fn in WRAP else []) + par + [dom, fac, bits] + ([] if n == 255 and rng.random() < .5 else [n])
        call(ctx, getattr(L, fn), *a)
        now = listing(d)
        keep.pop('out.bmp', None)
        now.pop('out.bmp', None)
        ctx.eq(now, keep, 'file', f'{what}: other files')
        img = model.decode(rd(p))
    ctx.eq((img.w, img.h, img.bits), (w, h, bits), 'file', what)
    judge(ctx, img.px, ok, bits, fac, n, what)
    ref = L.newBMP(1, 1, bits)
    if bits < 24:
        if len(fac) == 3:
            L.setBMP2invshiftedmonochrome(ref, fac)
        else:
            L.setBMP2dichromaticpal(ref, *fac)
    ctx.eq(img.pal, model.decode(ref).pal, 'palette', what)


def hilbert(n, z, a, b):
    """middle points of the cells of the curve from z to z + b"""
    if not n:
        return [z + (a + b) / 2]
    a, b = a / 2, b / 2
    return hilbert(n - 1, z, b, a) + hilbert(n - 1, z + a, a, b) + hilbert(n - 1, z + a + b, a, b) + hilbert(n - 1, z + a + 2 * b, -b, -a)


def new_image(ctx, fn, args, size, bits, what):
    with Dir() as d:
        p = os.path.join(d, 'c.bmp')
        call(ctx, fn, p, *args)
        ctx.eq(os.listdir(d), ['c.bmp'], 'file', what)
        img = model.decode(rd(p))
    ctx.eq((img.w, img.h, img.bits), (*size, bits), 'file', what)
    ctx.eq(img.pal, model.decode(L.newBMP(1, 1, bits)).pal, 'palette', what)
    return img


def curve_args(rng):
    bits = rng.choice(model.BITS)
    m = (1 << bits) - 1
    bg = rng.choice((0, 0, rng.randint(0, m)))
    c = rng.choice([v for v in (1, m, rng.randint(0, m), 0) if v != bg])
    pen = rng.choice((1, 1, 1, 0, 2, 3))
    if bits == 4:
        # spans on 4 bit images may leave out their last pixel (judged by P05, P06)
        c, pen = c or (bg + 1) % 15 + 1, min(pen, 1)
        c = c if c != bg else c % 15 + 1
    return bits, c, bg, pen


def painted(ctx, img, c, bg, what):
    s = set()
    for y in range(img.h):
        for x in range(img.w):
            v = img.px[y][x]
            if v == c:
                s.add((x, y))
            elif v != bg:
                # 4 bit spans may leave out the last pixel
                if img.bits == 4 and x == img.w - 1 and v == 0:
                    continue
                raise Violation('color', f'{what}: {x, y} is {v:#x}')
    return s


def st_hilbert(ctx, rng):
    bits, c, bg, pen = curve_args(rng)
    n = rng.randint(0, 4)
    o = rng.choice((0, 0, 1))
    w, h = gen.upto(rng, 2, 70, 260), gen.upto(rng, 2, 70, 260)
    sx, sy = w - 1, h - 1
    pts = hilbert(n, 0j, *((complex(0, sx), complex(sy, 0)) if o == 1 else (complex(sx, 0), complex(0, sy))))
    if o == 1 and w != h:
        h = w
        pts = hilbert(n, 0j, complex(0, sx), complex(sx, 0))
    if any((v * 2) % 2 == 1 for p in pts for v in (p.real, p.imag)):
        ctx.count('skipped')
        return
    ctx.observe('hilbert', w, h, n, bits, c, bg, pen, o)
    what = f'hilbert curve {w}x{h} order {n} bits {bits} color {c:#x} on {bg:#x} pen {pen} orientation {o}'
    args = (w, h, n, bits, c, bg, pen, o)
    if (bits, c, bg, pen, o) == (1, 1, 0, 1, 0) and rng.random() < .5:
        args = args[:3]
    img = new_image(ctx, L.savehilbertcurve2file, args, (w, h), bits, what)
    got = painted(ctx, img, c, bg, what)
    z = [(round(p.real), round(p.imag)) for p in pts]
    path = []
    for (a, b), (p, q) in zip(z, z[1:]):
        path += [(x, y) for x in range(min(a, p), max(a, p) + 1) for y in range(min(b, q), max(b, q) + 1)]
    if pen <= 1:
        path = set(path)
        if bits == 4:
            path -= {(max(a, p), b) for (a, b), (p, q) in zip(z, z[1:]) if b == q} - got
        draw.expect_set(ctx, got, path, w, h, what)
    else:
        draw.expect_span_list(ctx, got, draw.disc_spans(ctx, rng, set(path), pen), w, h, bits, what, '')


def st_koch(ctx, rng):
    bits, c, bg, pen = curve_args(rng)
    r, n, ang = gen.upto(rng, 0, 40, 160), rng.randint(0, 3), rng.choice((0, 30, 90, rng.uniform(-360, 360)))
    w = 2 * r + 2 * pen + 2
    ctx.observe('koch', r, n, ang, bits, c, bg, pen)
    what = f'snowflake radius {r} order {n} turned {ang} bits {bits} color {c:#x} on {bg:#x} pen {pen}'
    args = (r, n, ang, bits, c, bg, pen)
    if (bits, c, bg, pen) == (1, 1, 0, 1) and rng.random() < .5:
        args = args[:3]
    img = new_image(ctx, L.savekochsnowflake2file, args, (w, w), bits, what)
    got = painted(ctx, img, c, bg, what)
    m = (w - 1) // 2
    t = [complex(*p) for p in PR.regpolygonvert(m, m, r, 3, ang)]
    pts = [p for a, b in zip(t, t[1:] + t[:1]) for p in p25.flake(a, b, n)]
    pts.append(pts[0])
    rad = max(pen, 1) - 1 if pen <= 1 else pen
    todo = set(got)
    for a, b in zip(pts, pts[1:]):
        d = abs(b - a)
        k = max(1, math.ceil(d))
        for i in range(k + 1):
            z = a + (b - a) * i / k
            x, y = round(z.real), round(z.imag)
            if not any((x + dx, y + dy) in got for dx in (-1, 0, 1) for dy in (-1, 0, 1)):
                raise Violation('gap', f'{what}: nothing painted near {z}')
            e = int(rad + 2)
            for dx in range(-e, e + 1):
                for dy in range(-e, e + 1):
                    if (x + dx, y + dy) in todo and abs(complex(x + dx, y + dy) - z) <= rad + 1.75:
                        todo.discard((x + dx, y + dy))
    ctx.check(not todo, 'extra', lambda: f'{what}: painted {sorted(todo)[:5]} far from the curve')
    if pen >= 2:
        dd = draw.disc(ctx, rng, pen)
        for p in pts:
            x, y = round(p.real), round(p.imag)
            if abs(p.real - x) < .49 and abs(p.imag - y) < .49:
                for dy, (a, b) in dd.items():
                    for v in range(max(0, x + a), min(w - 1, x + b) + (bits != 4)):
                        if 0 <= y + dy < w and (v, y + dy) not in got:
                            raise Violation('pen', f'{what}: {v, y + dy} not painted around {x, y}')


def st_ifs(ctx, rng):
    w, h = rng.randint(20, 70), rng.randint(30, 110)
    img = gen.image(rng, w=w, h=h, bits=rng.choice(model.BITS))
    c = gen.color(rng, img.bits)
    buf = gen.buf(rng, img)
    kind = rng.choice(('fern', 'fern', 'IFS', 'fern2file'))
    x1, y1 = rng.randint(0, w // 3), rng.randint(0, h // 3)
    x2, y2 = rng.randint(x1 + 10, w - 1), rng.randint(y1 + 10, h - 1)
    bad = rng.random() < .12 and kind == 'fern'
    if bad:
        x2 = w + rng.randint(0, 5)
    pos = rng.choice(((x1, y1, x2, y2), (x2, y2, x1, y1), (x2, y1, x1, y2)))
    name = 'fern'
    s, t = (y2 - y1) // 10, (y2 - y1) // 10
    xo, yo = (x2 - x1) // 2, 0
    if kind == 'IFS':
        name = rng.choice(list(F.getIFSparams()))
        s, t, xo, yo = rng.randint(3, 20), rng.randint(3, 20), rng.randint(0, 9), rng.randint(-5, 5)
    par = F.getIFSparams()[name]
    res = min(max(s, t, 1), 5 if name == 'fern' else 20)
    ref = p25.cloud(*par, res)
    if not ref:
        ctx.count('skipped')
        return
    ctx.observe(kind, name, img.key(), pos, c, s, t, xo, yo)
    what = f'{kind} {name} on {pos} of {w}x{h}x{img.bits} scale {s, t} moved {xo, yo}'
    mon = InPlace(ctx, buf)
    if kind == 'fern2file':
        with Dir() as d:
            a, b = os.path.join(d, 'a.bmp'), os.path.join(d, 'b.bmp')
            with open(a, 'wb') as f:
                f.write(bytes(buf))
            call(ctx, L.fern2file, a, b, *pos, c)
            ctx.check(sorted(os.listdir(d)) == ['a.bmp', 'b.bmp'] and rd(a) == bytes(buf), 'file', f'{what}: input or directory changed')
            now = model.decode(rd(b))
            ctx.eq((now.w, now.h, now.bits, now.pal), (w, h, img.bits, img.pal), 'file', what)
    else:
        out = call(ctx, L.fern, buf, *pos, c)[1] if kind == 'fern' else call(ctx, L.IFS, buf, par, *pos, s, t, xo, yo, c, 30000)[1]
        now = mon.after(what)
        if bad:
            ctx.check(now.px == img.px and out.strip(), 'refused', f'{what}: painted or silent')
            return
    ref = {(a / res, b / res) for a, b in ref}
    want = {(round(x1 + xo + a * s), round(y2 + yo - b * t)) for a, b in ref}
    near = {(x + i, y + j) for x, y in want for i in range(-3, 4) for j in range(-3, 4)}
    got = 0
    for y in range(h):
        for x in range(w):
            if now.px[y][x] != img.px[y][x]:
                ctx.check(now.px[y][x] == c and (x, y) in near and x1 < x < x2 and y1 < y < y2, 'ifs', f'{what}: {x, y} became {now.px[y][x]:#x}')
    inner = {p for p in want if x1 < p[0] < x2 and y1 < p[1] < y2}
    miss = [p for p in inner if not any(now.px[p[1] + j][p[0] + i] == c for i in (-2, -1, 0, 1, 2) for j in (-2, -1, 0, 1, 2)
                                        if 0 <= p[0] + i < w and 0 <= p[1] + j < h)]
    tip = min((p[1] for p in want), default=0)
    tips = [p for p in inner if p[1] <= tip + 1]
    if kind != 'IFS' and tips:
        ctx.check(not all(p in miss for p in tips), 'ifs-extent', f'{what}: nothing near the tip {tips[0]}')
    ctx.check(len(miss) <= .3 * len(inner) + 3, 'ifs', lambda: f'{what}: {len(miss)} of {len(inner)} places not painted, such as {miss[:4]}')


STAGES = [Stage('plot', st_plot, 100), Stage('newton', st_newton, 15), Stage('file', st_file, 100), Stage('hilbert', st_hilbert, 20),
          Stage('koch', st_koch, 12), Stage('ifs', st_ifs, 3)]
