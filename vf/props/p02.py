"""P02 saving and loading files."""
import hashlib
import os
import shutil
import tempfile
from array import array
from pythonbmp import BITMAPlib as L
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call

PID = 'P02'
RULE = ('one case = one save/load history on real files in a scratch directory: random images of '
        'all depths with canary padding and header fields, overwrites of longer and shorter files, '
        'missing / foreign / truncated / trailing-data files; distinct = distinct file contents')
ASSUMPTIONS = ['the file system of the sandbox stores what it is told to store']


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vfp02')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def st_round(ctx, rng):
    with Dir() as d:
        name = rng.choice(('a.bmp', 'with space.bmp', 'noext', 'ünï.bmp', 'A.BMP', 'x.y.z'))
        p = os.path.join(d, name)
        for step in range(rng.randint(1, 4)):
            if step and rng.random() < .5:      # close to the one before
                img = gen.related(rng, img)
                buf = gen.buf(rng, img, canary=False)
            else:
                img = gen.image(rng, big=40)
                buf = gen.buf(rng, img, canary=rng.random() < .6)
            if rng.random() < .3:      # reserved header field in use by other software
                i = rng.randrange(6, 10)
                buf[i] = rng.randrange(1, 256)
            if rng.random() < .3:
                buf[26] = 1
            for j in range(57, model.HDR[img.bits], 4):
                if rng.random() < .2:
                    buf[j] = rng.randrange(256)
            raw = bytes(buf)
            ctx.observe('round', hashlib.md5(raw).hexdigest())
            call(ctx, L.saveBMP, p, buf, mutates=())
            ctx.eq(bytes(buf), raw, 'save-changed-image')
            ctx.eq(rd(p), raw, 'file-content', f'{img.w}x{img.h}x{img.bits} saved over {step} earlier')
            got, _ = call(ctx, L.loadBMP, p, mutates=())
            if not isinstance(got, array) or got.typecode != 'B':
                raise Violation('load-type', f'loadBMP returned {type(got)}')
            ctx.eq(bytes(got), raw, 'load-content', f'{img.w}x{img.h}x{img.bits}')
            ctx.eq(rd(p), raw, 'load-changed-file')
            # two loads are independent images
            got[-1] ^= 255
            again = L.loadBMP(p)
            ctx.eq(bytes(again), raw, 'load-shared')
            ctx.eq(os.listdir(d), [name], 'stray-files')


def st_new(ctx, rng):
    with Dir() as d:
        p = os.path.join(d, 'n.bmp')
        w, h = rng.choice((gen.size(rng, 60), (rng.randint(200, 300), rng.randint(60, 90)),
                           (rng.randint(1, 3), rng.randint(400, 600))))
        bits = rng.choice(model.BITS)
        b = L.newBMP(w, h, bits)
        x, y = rng.randrange(w), rng.randrange(h)
        c = rng.randrange(1 << bits)
        L.plotxybit(b, x, y, c)
        L.saveBMP(p, b)
        ctx.observe('new', w, h, bits, x, y, c)
        img = model.decode(rd(p))
        ctx.eq(img.px[y][x], c, 'saved-pixel')
        b2 = L.loadBMP(p)
        ctx.eq(bytes(b2), bytes(b), 'new-roundtrip')
        ctx.eq(L.getxybit(b2, x, y), c, 'loaded-pixel')


def st_bad(ctx, rng):
    with Dir() as d:
        p = os.path.join(d, 'f.bmp')
        k = rng.randrange(5)
        if k == 0:
            ctx.observe('missing', rng.index % 3)
            got, out = call(ctx, L.loadBMP, os.path.join(d, 'nothere.bmp'), mutates=())
            ctx.eq(got, None, 'missing-file')
            ctx.check(out.strip(), 'no-message', 'missing file: nothing printed')
            ctx.eq(os.listdir(d), [], 'file-created')
        elif k == 1:
            ctx.observe('dir')
            os.mkdir(os.path.join(d, 'sub.bmp'))
            got, out = call(ctx, L.loadBMP, os.path.join(d, 'sub.bmp'), mutates=())
            ctx.eq(got, None, 'directory')
            ctx.check(out.strip(), 'no-message', 'directory: nothing printed')
        elif k in (2, 3):
            raw = bytearray(bytes(gen.buf(rng, gen.image(rng))))
            raw[:2] = rng.choice((b'PK', b'MB', b'Bm', b'bM', b'\0\0', b'B\0', b'\0M', b'BA', b'CI'))
            with open(p, 'wb') as f:
                f.write(raw)
            ctx.observe('foreign', bytes(raw[:2]), len(raw))
            got, out = call(ctx, L.loadBMP, p, mutates=())
            ctx.eq(len(got), 0, 'foreign-file', f'magic {bytes(raw[:2])}')
            ctx.check(out.strip(), 'no-message', 'foreign file: nothing printed')
            ctx.eq(rd(p), bytes(raw), 'load-changed-file')
        else:
            raw = rng.choice((b'', b'B', b'BM', b'BM\0\0\0\0', b'BM6\0\0\0' + b'\0' * 9))
            with open(p, 'wb') as f:
                f.write(raw)
            ctx.observe('stub', raw)
            got, out = call(ctx, L.loadBMP, p, mutates=())
            ctx.eq(len(got), 0, 'stub-file', repr(raw))
            ctx.check(out.strip(), 'no-message', f'{raw!r}: nothing printed')


def st_trailing(ctx, rng):
    """data after the declared size is not part of the image."""
    with Dir() as d:
        p = os.path.join(d, 'f.bmp')
        raw = bytes(gen.buf(rng, gen.image(rng)))
        extra = bytes(rng.randrange(256) for _ in range(rng.randint(1, 40)))
        with open(p, 'wb') as f:
            f.write(raw + extra)
        ctx.observe('trailing', len(raw), len(extra))
        got, _ = call(ctx, L.loadBMP, p, mutates=())
        ctx.eq(bytes(got), raw, 'trailing-data')


def st_large(ctx, rng):
    """file sizes that use the 3rd and 4th byte of the size field."""
    with Dir() as d:
        p = os.path.join(d, 'big.bmp')
        w, h, bits = rng.choice(((700, 33, 24), (70000, 1, 8), (1, 20000, 4), (2600, 2200, 24)))
        b = L.newBMP(w, h, bits)
        for i in range(200):
            L.plotxybit(b, rng.randrange(w), rng.randrange(h), rng.randrange(1 << bits))
        L.saveBMP(p, b)
        ctx.observe('large', w, h, bits)
        ctx.eq(rd(p) == bytes(b), True, 'large-file')
        ctx.eq(bytes(L.loadBMP(p)) == bytes(b), True, 'large-load')


STAGES = [Stage('round', st_round, 260), Stage('new', st_new, 120), Stage('bad', st_bad, 200),
          Stage('trailing', st_trailing, 60), Stage('large', st_large, 8, 40)]
