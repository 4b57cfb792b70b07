"""Workload generators."""
import json
import os
from array import array
from . import model
from .model import Img

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'stdpal.json')) as _f:
    STD = json.load(_f)
EDGE_W = (1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33)


def upto(rng, lo, hi, far, p=.04):
    """lo..hi, now and then up to far"""
    return rng.randint(hi, far) if rng.random() < p else rng.randint(lo, hi)


def size(rng, big=24, lo=1):
    while True:
        k = rng.random()
        if k < .35:
            w, h = rng.randint(lo, 9), rng.randint(lo, 9)
        elif k < .8:
            w, h = rng.randint(lo, big), rng.randint(lo, big)
        elif k < .95:
            w, h = rng.choice(EDGE_W), rng.choice(EDGE_W)
        elif k < .985:
            w, h = rng.choice(((257, 3), (2, 259), (300, 4), (5, 270), (64, 65), (rng.randint(257, 800), rng.randint(1, 5)),
                               (rng.randint(1, 5), rng.randint(257, 800))))
        else:
            w, h = rng.randint(65, 220), rng.randint(65, 220)
        if w >= lo and h >= lo:
            return w, h


def giant(rng):
    """an image size that needs more than two bytes, thin enough to be cheap"""
    n = rng.choice((65535, 65536, 65537, 65600, rng.randint(65538, 70000)))
    k = rng.randint(1, 4)
    return (n, k) if rng.random() < .4 else (k, n)


def default_palette(bits):
    return [tuple(c) for c in STD[str(bits)]]


def touched_palette(rng, pal):
    """one or a few entries (or one channel of one) changed, or entries exchanged"""
    pal = list(pal)
    for _ in range(rng.choice((1, 1, 1, 2, 3)) if pal else 0):
        i = rng.choice((0, len(pal) - 1, rng.randrange(len(pal)), rng.randrange(len(pal)), rng.randrange(len(pal))))
        k = rng.random()
        if k < .4:
            c = list(pal[i])
            j = rng.randrange(3)
            c[j] = (c[j] + rng.choice((1, 255, rng.randrange(256)))) % 256
            pal[i] = tuple(c)
        elif k < .7:
            pal[i] = tuple(rng.randrange(256) for _ in range(3))
        else:
            j = rng.randrange(len(pal))
            pal[i], pal[j] = pal[j], pal[i]
    return pal


def related(rng, img):
    """another image of the same size and depth that shares much with img"""
    b = img.copy()
    w, h, m = b.w, b.h, 1 << b.bits
    k = rng.randrange(10)
    if k == 0:
        b.px = b.px[::-1]
    elif k == 1:
        b.px = [r[::-1] for r in b.px]
    elif k == 2:      # two pixels, neighbors or not, exchanged
        x, y = rng.randrange(w), rng.randrange(h)
        p, q = (rng.randrange(w), rng.randrange(h)) if rng.random() < .5 else (min(w - 1, x + 1), y)
        b.px[y][x], b.px[q][p] = b.px[q][p], b.px[y][x]
    elif k == 3:
        x, y = rng.choice(((0, 0), (w - 1, 0), (0, h - 1), (w - 1, h - 1), (rng.randrange(w), rng.randrange(h))))
        b.px[y][x] = (b.px[y][x] + rng.choice((1, m - 1, m // 2))) % m
    elif k == 4:
        i, j = rng.randrange(h), rng.randrange(h)
        b.px[i], b.px[j] = b.px[j], b.px[i]
    elif k == 5:
        b.px = [r[1:] + r[:1] for r in b.px]
    elif k == 6:
        b.px = b.px[1:] + b.px[:1]
    elif k == 7:
        b.px = [[m - 1 - v for v in r] for r in b.px]
    elif k == 8:
        b.pal = touched_palette(rng, b.pal)
    else:
        i = rng.randrange(h)
        b.px[i] = [rng.randrange(m) for _ in range(w)]
    return b


def palette(rng, bits):
    n = model.PALN[bits]
    k = rng.random()
    if bits < 24 and k < .06:
        return default_palette(bits)
    if bits < 24 and k < .16:
        return touched_palette(rng, default_palette(bits))
    k = rng.random()
    if k < .5:
        return [tuple(rng.randrange(256) for _ in range(3)) for _ in range(n)]
    if k < .75:      # duplicates and near misses
        few = [tuple(rng.choice((0, 1, 127, 128, 254, 255)) for _ in range(3))
               for _ in range(max(2, n // 3))]
        return [rng.choice(few) for _ in range(n)]
    return [(i * 255 // max(1, n - 1),) * 3 for i in range(n)]


def distinct_palette(rng, bits):
    n = model.PALN[bits]
    s = set()
    while len(s) < n:
        s.add(tuple(rng.randrange(256) for _ in range(3)))
    s = list(s)
    s.sort()
    rng.shuffle(s)
    return s


def image(rng, bits=None, w=None, h=None, pal=None, big=24, lo=1, style=None):
    if bits is None:
        bits = rng.choice(model.BITS)
    if w is None:
        w, h = size(rng, big, lo)
    pal = palette(rng, bits) if pal is None else pal
    m = 1 << bits
    style = style or rng.choice(('rand', 'rand', 'rand', 'few', 'flat', 'ramp'))
    if style == 'rand':
        px = [[rng.randrange(m) for _ in range(w)] for _ in range(h)]
    elif style == 'few':
        c = [rng.randrange(m) for _ in range(3)]
        px = [[rng.choice(c) for _ in range(w)] for _ in range(h)]
    elif style in ('flat', 'white'):
        c = rng.randrange(m) if style == 'flat' else m - 1
        px = [[c] * w for _ in range(h)]
    else:
        k = rng.randrange(1, 9)
        px = [[(x * k + y * 31 + 1) % m if bits < 24 else
               ((x * 7 + 1) % 256) << 16 | ((y * 5 + 2) % 256) << 8 | (x * y + k) % 256
               for x in range(w)] for y in range(h)]
    return Img(w, h, bits, pal, px)


def buf(rng, img, canary=True):
    return model.encode(img, rng, canary)


def rect(rng, w, h, allow_line=True):
    """Corner pair inside w x h, any order of nothing: x1<=x2, y1<=y2."""
    x1, x2 = sorted((rng.randrange(w), rng.randrange(w)))
    y1, y2 = sorted((rng.randrange(h), rng.randrange(h)))
    k = rng.random()
    if k < .12:
        x1, y1, x2, y2 = 0, 0, w - 1, h - 1
    elif k < .2:
        x1, x2 = 0, w - 1
    elif k < .28:
        y1, y2 = 0, h - 1
    return x1, y1, x2, y2


def color(rng, bits):
    m = 1 << bits
    return rng.choice((0, m - 1, rng.randrange(m), rng.randrange(m), rng.randrange(m)))
