"""P20 comparing two images, reducing the colour depth."""
import math
import os
import shutil
import tempfile
from pythonbmp import BITMAPlib as L
from pythonbmp import colors as C
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, compare_px

PID = 'P20'
RULE = ('one case = one comparison of two image files (equal, nearly equal, unrelated, of other size, depth or palette) or one reduction of a '
        '24 bit image file to 1, 4 or 8 bits; the written file is judged pixel by pixel; distinct = distinct (operation, images, parameters)')
ASSUMPTIONS = ['the palette made from the colours of an image is judged by P13, the monochrome palette by P14',
               'among equally near palette entries any may be taken']


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vfp20')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def wr(p, b):
    with open(p, 'wb') as f:
        f.write(b)


def st_compare(ctx, rng):
    a = gen.image(rng, big=20)
    k = rng.choice(('same', 'few', 'few', 'other', 'other', 'size', 'depth', 'missing'))
    if k in ('same', 'few'):
        b = a.copy()
        if k == 'few' and rng.random() < .5:
            b = gen.related(rng, a)
        elif k == 'few':
            for _ in range(rng.randint(1, 4)):
                b.px[rng.randrange(a.h)][rng.randrange(a.w)] = gen.color(rng, a.bits)
    elif k == 'depth':
        b = gen.image(rng, bits=rng.choice([v for v in model.BITS if v != a.bits]), w=a.w, h=a.h)
    elif k == 'size':
        b = gen.image(rng, bits=a.bits, w=a.w + rng.choice((0, 1)), h=a.h + 1)
        if rng.random() < .5:
            b = gen.image(rng, bits=a.bits, w=a.w + rng.randint(1, 9), h=a.h)
    else:
        b = gen.image(rng, bits=a.bits, w=a.w, h=a.h, pal=a.pal if rng.random() < .5 else None)
    name = rng.choice(('imagediff', 'showsimilarparts'))
    with Dir() as d:
        p1, p2, po = (os.path.join(d, f) for f in ('a.bmp', 'b.bmp', 'o.bmp'))
        ra, rb = bytes(gen.buf(rng, a)), bytes(gen.buf(rng, b))
        wr(p1, ra)
        wr(p2, rb)
        gone = None
        if k == 'missing':
            gone = rng.choice((p1, p2))
            os.remove(gone)
        _, out = call(ctx, getattr(L, name), p1, p2, po, mutates=())
        ctx.observe(name, k, a.key(), b.key())
        what = f'{name} ({k}) {a.w}x{a.h}x{a.bits} and {b.w}x{b.h}x{b.bits}'
        for p, r in ((p1, ra), (p2, rb)):
            if p != gone:
                ctx.check(rd(p) == r, 'input-changed', f'{what}: {os.path.basename(p)} changed')
        if k in ('size', 'depth', 'missing'):
            ctx.check(not os.path.exists(po), 'refused-output', f'{what}: wrote a result')
            ctx.check('rror' in out, 'no-message', f'{what}: printed {out!r}')
            return
        got = model.decode(rd(po))
        f = (lambda u, v: u ^ v) if name == 'imagediff' else (lambda u, v: u & v)
        want = model.Img(a.w, a.h, a.bits, list(a.pal), [[f(u, v) for u, v in zip(r, s)] for r, s in zip(a.px, b.px)])
        compare_px(what, got, want, 'compare')
        if a.bits < 24:
            ctx.check(('palette' in out) == (a.pal != b.pal), 'palette-message', f'{what}: palettes equal {a.pal == b.pal}, printed {out!r}')
        if k == 'same' and name == 'imagediff':
            ctx.check(not any(map(any, got.px)), 'compare', f'{what}: equal images differ')


def check_near(ctx, v, c, pal, what):
    """v is the entry of pal for colour c: exact if there, else the nearest that is not black (black: entry 0)"""
    if not 0 <= v < len(pal):
        raise Violation('nearest', f'{what}: entry {v} of {len(pal)}')
    if c in pal:
        ok = pal[v] == c
    elif c == (0, 0, 0):
        ok = v == 0
    else:
        d = [math.dist(p, c) for p in pal if p != (0, 0, 0)]
        ok = not d or abs(math.dist(pal[v], c) - min(d)) < 1e-9 and pal[v] != (0, 0, 0)
    if not ok:
        raise Violation('nearest', f'{what}: colour {c} became entry {v} {pal[v]} of {pal[:20]}')


def st_reduce(ctx, rng):
    img = gen.image(rng, bits=24, big=14, style=rng.choice(('few', 'few', 'rand', 'ramp')))
    bits = rng.choice((4, 4, 8))
    mono = rng.random() < .4
    thr = rng.choice((0, 1, 30, 100, rng.uniform(0, 300)))
    f = [rng.choice((0, .5, 1, rng.random())) for _ in 'rgb']
    with Dir() as d:
        p, po = os.path.join(d, 'a.bmp'), os.path.join(d, 'o.bmp')
        raw = bytes(gen.buf(rng, img))
        wr(p, raw)
        src, ref = model.array('B', raw), L.newBMP(img.w, img.h, bits)
        if mono:
            pal = L.setBMP2monochrome(ref, f)
            call(ctx, L.reduce24bitimagebits, p, po, bits, thr, True, f, mutates=())
        else:
            pal = L.setnewpalfromsourcebmp(src, ref, thr)
            if rng.random() < .5:
                call(ctx, L.reduce24bitimagebits, p, po, bits, thr, False, mutates=())
            else:
                call(ctx, L.reduce24bitimagebits, p, po, bits, thr, False, f, mutates=())
        ctx.observe('reduce', img.key(), bits, mono, thr, f)
        what = f'{img.w}x{img.h} reduced to {bits} bits {"mono " + str(f) if mono else f"threshold {thr}"}'
        ctx.check(rd(p) == raw, 'input-changed', what)
        got = model.decode(rd(po))
    ctx.eq((got.w, got.h, got.bits), (img.w, img.h, bits), 'size', what)
    ctx.eq(got.pal, model.decode(ref).pal, 'palette', what)
    pal = [tuple(c) for c in pal]
    for y in range(img.h):
        for x in range(img.w):
            check_near(ctx, got.px[y][x], img.rgb(x, y), pal, f'{what}: {x, y}')
    ctx.count('pixels_matched', img.w * img.h)


def st_mono(ctx, rng):
    """1 bit: black stays, brighter areas set more points"""
    n = 42
    cols = [(0, 0, 0), tuple(rng.randrange(60) for _ in 'rgb'), (115, 115, 115), (160, 160, 160), (255, 255, 255)]
    img = model.Img(n * 5, n, 24, [], [[(c[0] << 16 | c[1] << 8 | c[2]) for c in cols for _ in range(n)] for _ in range(n)])
    with Dir() as d:
        p, po = os.path.join(d, 'a.bmp'), os.path.join(d, 'o.bmp')
        wr(p, bytes(gen.buf(rng, img)))
        call(ctx, L.reduce24bitimagebits, p, po, 1, 0, rng.random() < .5, mutates=())
        got = model.decode(rd(po))
    ctx.observe('mono', cols[1])
    ctx.eq((got.w, got.h, got.bits), (img.w, img.h, 1), 'size', 'reduced to 1 bit')
    cnt = [sum(sum(r[n * i:n * i + n]) for r in got.px) for i in range(5)]
    ctx.check(cnt[0] == cnt[1] == 0 and 0 < cnt[2] < cnt[3] < cnt[4] and cnt[4] > n * n / 2, 'mono',
              f'points set of {n * n} for colours {cols}: {cnt}')


def st_match(ctx, rng):
    n = rng.choice((1, 2, 16, 16, 256))
    pal = [tuple(rng.choice((0, 64, 128, 255, rng.randrange(256))) for _ in 'rgb') for _ in range(n)]
    if rng.random() < .7:
        pal[0] = (0, 0, 0)
    c = rng.choice(pal) if rng.random() < .3 else tuple(rng.choice((0, 255, rng.randrange(256))) for _ in 'rgb')
    got, _ = call(ctx, C.matchRGBtopal, rng.choice((list, tuple))(c), [list(p) for p in pal], mutates=())
    ctx.observe('match', c, tuple(pal))
    check_near(ctx, got, c, pal, f'matchRGBtopal {c}')


def st_refuse(ctx, rng):
    img = gen.image(rng, bits=rng.choice((1, 4, 8, 24)), big=9)
    with Dir() as d:
        p, po = os.path.join(d, 'a.bmp'), os.path.join(d, 'o.bmp')
        raw = bytes(gen.buf(rng, img))
        if img.bits < 24:
            wr(p, raw)
        _, out = call(ctx, L.reduce24bitimagebits, p, po, rng.choice((1, 4, 8)), 10, False, mutates=())
        ctx.observe('refuse', img.key())
        ctx.check(not os.path.exists(po), 'refused-output', f'{img.bits} bit image reduced: wrote a result')
        ctx.check('rror' in out, 'no-message', f'{img.bits} bit image reduced: printed {out!r}')


STAGES = [Stage('compare', st_compare, 150), Stage('reduce', st_reduce, 40), Stage('mono', st_mono, 2, thorough=60), Stage('match', st_match, 100),
          Stage('refuse', st_refuse, 20)]
