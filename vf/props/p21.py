"""P21 colour values, their forms and their names."""
import json
import math
import os
from array import array
from fractions import Fraction as Fr
from pythonbmp import colors as C
from pythonbmp import colordict, X11colordict, XKCDcolordict
from ..core import Stage, Violation, VERIF
from ..monitor import call

PID = 'P21'
RULE = ('one case = one block of 1024 colours converted between all forms and back, one set of mixing parameters, or one colour name in one of the '
        'three tables; distinct = distinct blocks, parameters, names')
ASSUMPTIONS = ['the named colours are those of the X11 table, of the XKCD survey as shipped, and of the basic list as shipped (recorded in vf/colors.json)',
               'a value half way between two integers may be rounded either way, and truncated values may be off by the last float digit']
with open(os.path.join(VERIF, 'vf', 'colors.json')) as f:
    NAMES = json.load(f)
with open(os.path.join(VERIF, 'vf', 'stdpal.json')) as f:
    STD = {int(k): v for k, v in json.load(f).items()}
TABLES = {'basic': (colordict.getcolorname2RGBdict, colordict.getcolorname2HSLdict, colordict.getRGBfactors),
          'x11': (X11colordict.getX11colorname2RGBdict, X11colordict.getX11colorname2HSLdict, X11colordict.getX11RGBfactors),
          'xkcd': (XKCDcolordict.getXKCDcolorname2RGBdict, XKCDcolordict.getXKCDcolorname2HSLdict, XKCDcolordict.getXKCDRGBfactors)}
RANGES = {'maxdesc': (255, 0), 'maxasc': (0, 255), 'middesc': (192, 64), 'midasc': (64, 192), 'upperdesc': (255, 128),
          'upperasc': (128, 255), 'lowerdesc': (128, 0), 'lowerasc': (0, 128)}
NBLK, BLK = 16384, 1024


def near(got, want, tol=.5 + 1e-6):
    return isinstance(got, int) and abs(got - want) <= tol


def trunc(got, want):
    return isinstance(got, int) and want - 1 - 1e-9 < got <= want + 1e-9


def hsl(r, g, b):
    """exact hue in degrees, saturation and lightness in percent"""
    hi, lo = max(r, g, b), min(r, g, b)
    lum = Fr(hi + lo, 510)
    if hi == lo:
        return 0, 0, lum * 100
    c = hi - lo
    sat = Fr(c, 255) / (1 - abs(2 * lum - 1))
    if hi == r:
        hue = Fr(g - b, c) % 6
    elif hi == g:
        hue = Fr(b - r, c) + 2
    else:
        hue = Fr(r - g, c) + 4
    return hue * 60, sat * 100, lum * 100


def st_block(ctx, rng):
    k = rng.index * 2654435761 % NBLK
    ctx.observe('block', k)
    ctx.count('colours', BLK)
    for v in range(k * BLK, k * BLK + BLK):
        r, g, b = v // 65536, v // 256 % 256, v % 256
        if not (tuple(C.int2RGB(v)) == tuple(C.int2RGBlist(v)) == (r, g, b)):
            raise Violation('int2rgb', f'{v:#x} became {C.int2RGB(v)} {C.int2RGBlist(v)}')
        x, y, z = C.int2BGRarr(v), C.int2RGBarr(v), C.RGB2BGRarr(r, g, b)
        if not (x == z == array('B', [b, g, r]) and y == array('B', [r, g, b])):
            raise Violation('int2bytes', f'{v:#x} became {x} {y} {z}')
        if C.RGB2int(r, g, b) != v:
            raise Violation('rgb2int', f'{r, g, b} became {C.RGB2int(r, g, b):#x}')
        if v % 7 == 0:
            w, got = hsl(r, g, b), C.RGB2HSL(r, g, b)
            if len(got) != 3 or not all(near(p, q) for p, q in zip(got, w)):
                raise Violation('hsl', f'{r, g, b} became {got}, is {[float(q) for q in w]}')
        if v % 5 == 0:
            got = C.matchRGBtodefault4bitpal([r, g, b])
            want = (r >= 64) + 2 * (g >= 64) + 4 * (b >= 64) + 8 * (max(r, g, b) >= 128)
            if got != want:
                raise Violation('match4', f'{r, g, b} matched to entry {got} {STD[4][got]}, not {want} {STD[4][want]}')


def st_hsl(ctx, rng):
    r, g, b = (rng.choice((0, 255, 128, rng.randrange(256))) for _ in 'rgb')
    if rng.random() < .4:
        g = r
    if rng.random() < .3:
        b = g
    got, _ = call(ctx, C.RGB2HSL, r, g, b, mutates=())
    ctx.observe('hsl', r, g, b)
    w = hsl(r, g, b)
    ctx.check(len(got) == 3 and all(near(p, q) for p, q in zip(got, w)), 'hsl', f'{r, g, b} became {got}, is {[float(q) for q in w]}')


def st_mix(ctx, rng):
    f = [rng.choice((0, 1, .5, rng.random(), rng.random())) for _ in 'rgb']
    lum = rng.choice((0, 255, rng.randrange(256)))
    ctx.observe('mix', f, lum)
    got, _ = call(ctx, C.colormix, lum, f, mutates=())
    rgb = (got >> 16, got >> 8 & 255, got & 255)
    ctx.check(all(trunc(p, q * lum) for p, q in zip(rgb, f)), 'colormix', f'brightness {lum} of {f}: {got:#x}')
    got, _ = call(ctx, C.RGBfactors2RGB, f, lum, mutates=())
    ctx.check(len(got) == 3 and all(near(p, q * lum) for p, q in zip(got, f)), 'factors2rgb', f'brightness {lum} of {f}: {got}')
    rgb = [rng.choice((0, 255, rng.randrange(256))) for _ in 'rgb']
    if rng.random() < .1:
        rgb = [0, 0, 0]
    got, _ = call(ctx, C.RGBtoRGBfactorsandlum, rgb, mutates=())
    m = max(rgb) or 1
    ctx.check(len(got) == 2 and got[1] == m and len(got[0]) == 3 and all(abs(p * m - q) < 1e-9 for p, q in zip(got[0], rgb)), 'factors',
              f'{rgb}: factors and brightness {got}')
    lr = [rng.randrange(256), rng.randrange(256)]
    (base, rg), _ = call(ctx, C.RGBfactorstoBaseandRange, lr, f, mutates=())
    ctx.check(len(base) == len(rg) == 3 and all(near(p, q * lr[0]) for p, q in zip(base, f)) and
              all(abs(p + d - q * lr[1]) < 1e-9 for p, d, q in zip(base, rg, f)), 'base-range', f'{lr} {f}: {base} {rg}')
    gm = rng.choice((.2, .5, 1, 1, 2, 3.3, 1 + rng.random()))
    got, _ = call(ctx, C.gammacorrectbyte, lum, gm, mutates=())
    ctx.check(trunc(got, (lum / 255) ** gm * 255), 'gamma', f'gamma {gm} of {lum}: {got}')
    a, b = [rng.randrange(256) for _ in 'rgb'], [rng.randrange(256) for _ in 'rgb']
    v = rng.random()
    fn = rng.choice((lambda p, q, t: p + (q - p) * t, lambda p, q, t: p if t < .5 else q, lambda p, q, t: p * 2 + q - t))
    got, _ = call(ctx, C.interpolateRGB, fn, a[0], b[0], a[1], b[1], a[2], b[2], v, mutates=())
    ctx.check(len(got) == 3 and all(near(p, fn(x, y, v)) for p, x, y in zip(got, a, b)), 'interpolate', f'{a} to {b} at {v}: {got}')


def st_buffers(ctx, rng):
    n = rng.choice((1, 2, 3, rng.randint(1, 40)))
    d = [[rng.randrange(256) for _ in range(n)] for _ in 'bgr']
    buf, _ = call(ctx, C.makeBGRbuf, *(array('B', c) for c in d), mutates=())
    ctx.observe('buffers', tuple(map(tuple, d)))
    want = array('B', [v for t in zip(*d) for v in t])
    ctx.check(type(buf) is array and buf.typecode == 'B' and buf == want, 'make', f'blue, green, red {d}: {buf}')
    keep = array('B', buf)
    call(ctx, C.RGB2BGRbuf, buf, mutates=(0,))
    ctx.check(buf == array('B', [v for t in zip(*d[::-1]) for v in t]), 'swap', f'{keep} became {buf}')
    call(ctx, C.RGB2BGRbuf, buf, mutates=(0,))
    ctx.check(buf == keep, 'swap', f'swapped twice: {keep} became {buf}')


def st_palette(ctx, rng):
    bits = rng.choice((1, 4, 8))
    f = [rng.choice((0, 1, .5, rng.random())) for _ in 'rgb']
    ctx.observe('palette', bits, f)
    got, _ = call(ctx, C.monochromepal, bits, f, mutates=())
    n = 1 << bits
    ctx.eq(len(got), n, 'monochrome', f'{bits} bits')
    for i, c in enumerate(got):
        if len(c) != 3 or not all(near(p, q * i * 255 / (n - 1)) for p, q in zip(c, f)):
            raise Violation('monochrome', f'{bits} bits, {f}: entry {i} is {c}')
    for b in range(-2, 40):
        ctx.eq(bool(C.isvalidcolorbit(b)), b in (1, 4, 8, 24), 'valid-depth', f'{b} bits')
    ctx.eq([list(c) for c in C.getdefaultbitpal(bits)], STD[bits], 'default-palette', f'{bits} bits')
    ctx.eq({k: tuple(v) for k, v in C.getdefaultlumrange().items()}, RANGES, 'ranges')


def st_random4(ctx, rng):
    """random reduction to the default palette: only components above half are ever set, the brighter the more often"""
    rgb = [rng.choice((0, 100, 127, 128, 129, 190, 255)) for _ in 'rgb']
    n = 400
    got = [C.probplotRGBto4bitpal(rgb) for _ in range(n)]
    ctx.count('calls_monitored', n)
    ctx.observe('random4', rgb)
    for i, c in enumerate(rgb):
        k = sum(v >> i & 1 for v in got)
        p = max(c - 128, 0) / (c + 1)
        ctx.check(abs(k - n * p) <= 7 * math.sqrt(n * p * (1 - p)), 'random4', f'{rgb}: bit {i} set {k} times of {n}, expected about {n * p:.0f}')
    ctx.check({v >> 3 for v in got} == {int(max(rgb) >= 128)}, 'random4', f'{rgb}: bright bit of {sorted(set(got))}')


def st_names(ctx, rng):
    t = list(TABLES)[rng.index % 3]
    want = NAMES[t]
    rgb, hs, fac = (f() for f in TABLES[t])
    ctx.observe('names', t)
    ctx.count('names', len(want))
    for what, d in (('RGB', rgb), ('HSL', hs), ('factors', fac)):
        ctx.check(set(want) <= set(d), 'names', lambda: f'{t} {what}: missing {sorted(set(want) - set(d))[:5]}')
        ctx.check(set(d) <= set(rgb), 'names', lambda: f'{t} {what}: only here {sorted(set(d) - set(rgb))[:5]}')
    for k, v in rgb.items():
        w = want.get(k, v)
        c = (v >> 16, v >> 8 & 255, v & 255)
        if v != w:
            if t == 'x11' and k == 'aquamarine' and v == 0xffff and ctx.finding('P21-aquamarine'):
                ctx.saw_known('P21-aquamarine', f'{v:#08x}')
            else:
                raise Violation('name', f'{t} {k} is {v:#08x}, not {w:#08x}')
        if len(hs[k]) != 3 or not all(near(p, q) for p, q in zip(hs[k], hsl(*c))):
            raise Violation('name-hsl', f'{t} {k} {c}: hue, saturation, lightness {hs[k]}, is {[float(q) for q in hsl(*c)]}')
        if len(fac[k]) != 3 or not all(abs(p - q / 255) < 1e-5 for p, q in zip(fac[k], c)):
            raise Violation('name-factors', f'{t} {k} {c}: factors {fac[k]}')
    k = rng.choice(list(rgb))
    fn = rng.choice(TABLES[t])
    d = fn()
    d[k] = None
    d.pop(rng.choice([j for j in d if j != k]))
    ctx.check(fn()[k] is not None and len(fn()) == len(rgb), 'names-shared', f'{t}: changing a table changed the next one')


STAGES = [Stage('block', st_block, 8, thorough=NBLK), Stage('hsl', st_hsl, 100), Stage('mix', st_mix, 150), Stage('buffers', st_buffers, 60),
          Stage('palette', st_palette, 30), Stage('random4', st_random4, 15), Stage('names', st_names, 3, thorough=48)]
