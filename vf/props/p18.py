"""P18 file-to-file versions of the image operations."""
import hashlib
import os
import shutil
import tempfile
from pythonbmp import BITMAPlib as L
from pythonbmp import colors as C
from pythonbmp import mathlib as ML
from .. import model, gen
from ..core import Stage, Violation
from ..monitor import call, compare_px

PID = 'P18'
RULE = ('one case = one call of a file-to-file operation on real files in a scratch directory; the written file is decoded and compared '
        'with the result of the in-memory operation on the decoded input, every other file of the directory is watched; distinct = '
        'distinct (operation, image, parameters, kind of output path)')
ASSUMPTIONS = ['what the in-memory operations do is judged by P04..P17',
               'an operation that refuses its parameters may write the unchanged image or nothing']


class Dir:
    def __enter__(self):
        self.home = os.getcwd()
        self.d = tempfile.mkdtemp(prefix='vfp18')
        return self.d

    def __exit__(self, *a):
        os.chdir(self.home)
        shutil.rmtree(self.d)


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def wr(p, b):
    with open(p, 'wb') as f:
        f.write(b)


def listing(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = hashlib.md5(rd(p)).hexdigest()
    return out


# parameter generators ------------------------------------------------
def g_none(rng, img):
    return ()


def g_rect(rng, img):
    x1, y1, x2, y2 = gen.rect(rng, img.w, img.h)
    if rng.random() < .3:
        x1, x2 = x2, x1
    if rng.random() < .3:
        y1, y2 = y2, y1
    if rng.random() < .12:
        k = rng.randrange(4)
        c = [x1, y1, x2, y2]
        c[k] = rng.choice((-1, img.w + img.h))
        x1, y1, x2, y2 = c
    return x1, y1, x2, y2


def g_circ(rng, img):
    w, h = img.w, img.h
    if rng.random() < .75:
        r = rng.randint(0, min(gen.upto(rng, 9, 9, 70, .2), (w - 1) // 2, (h - 1) // 2))
        return rng.randint(r, w - 1 - r), rng.randint(r, h - 1 - r), r
    return rng.randint(-2, w + 2), rng.randint(-2, h + 2), gen.upto(rng, 1, 8, 60)


def g_pct(rng, img):
    return (rng.choice((-100, -40, 0, 35, 80, 220, rng.randint(-130, 400), rng.uniform(-100, 150))),)


def g_lum(rng, img):
    return (sorted((rng.randrange(256), rng.randrange(256))),)


def g_rgb(rng, img):
    return ([rng.choice((0, .25, .5, 1, 1.5, rng.random())) for _ in 'rgb'],)


def g_gamma(rng, img):
    return (rng.choice((.4, .8, 1, 1.7, 3, rng.uniform(.1, 5))),)


def g_n(rng, img):
    return (rng.randint(1, max(1, min(5, img.w, img.h))),)


def g_n2(rng, img):
    return (gen.upto(rng, 2, 5, 30),)


def g_color(rng, img):
    return (gen.color(rng, img.bits),)


def g_fn(rng):
    return rng.choice(((), (), (ML.lerp,), (ML.smoothsteplerp,), (ML.smoothersteplerp,)))


def g_fac(rng, img):
    return ([rng.choice((0, .25, 1, rng.random())) for _ in 'rgb'],)


def g_grad(rng, img):
    return ([rng.randrange(256), rng.randrange(256)], g_fac(rng, img)[0], rng.randrange(2)) + g_fn(rng)


def g_digrad(rng, img):
    return (gen.color(rng, 24), gen.color(rng, 24), rng.randrange(2)) + g_fn(rng)


def g_sphere(rng, img):
    p = g_fac(rng, img)[0] if rng.random() < .5 else [gen.color(rng, 24), gen.color(rng, 24)]
    return (p,) + g_fn(rng)


def g_shift(rng, img):
    return rng.choice(((), (rng.randint(-3, 20),), (rng.randint(-300, 300),)))


def g_mag(rng, img):
    return (gen.upto(rng, 1, 4, 20),)


def g_newxy(rng, img):
    return ([rng.randrange(img.w), rng.randrange(img.h)],)


def palop(fn24, fn):
    """colour adjustment: of the pixels at 24 bits, else of the palette"""
    def op(buf, *par):
        if buf[28] == 24:
            fn24(buf, *par)
        else:
            L.setbmppal(buf, [fn(c, *par) for c in L.getallRGBpal(buf)])
    return op


def o_crop1(buf, bnd):
    (x1, y1), (x2, y2) = bnd
    img = model.decode(buf)
    return L.crop(buf, x1, y1, min(x2 + 1, img.w - 1), min(y2 + 1, img.h - 1))


def o_auto(buf, thr):
    e = L.getimagedgevert(buf, thr)
    xs, ys = [p[0] for p in e], [p[1] for p in e]
    return o_crop1(buf, ((min(xs), min(ys)), (max(xs), max(ys))))


def g_bnd(rng, img):
    x1, y1, x2, y2 = gen.rect(rng, img.w, img.h)
    return (((x1, y1), (x2, y2)),)


def g_thr(rng, img):
    return (rng.choice((0, 20, 100, rng.uniform(0, 90))),)


def o_imgregion(buf, rad, color, rgb, thr, only):
    e = L.getimageregionbyRGB(buf, rgb, thr)
    if only:
        img = model.decode(buf)
        buf = model.encode(model.Img(img.w, img.h, img.bits, img.pal))
    L.plotxypointlist(buf, e, rad, color)
    return buf


def g_region(rng, img):
    x, y = rng.randrange(img.w), rng.randrange(img.h)
    return (rng.choice((0, 0, 1, 2, rng.randint(3, 12 if img.w * img.h < 900 else 3))), gen.color(rng, img.bits), list(img.rgb(x, y)), rng.choice((.5, 30, 120, rng.uniform(.5, 250))), rng.random() < .5)


# name: (in-memory operation, parameters, depths (None: any))
NEED24 = (24,)
PIX = {}
for _n in ('flipvertical fliphorizontal mirrortop mirrorbottom mirrorleft mirrorright mirrortopleft mirrortopright '
           'mirrorbottomleft mirrorbottomright flipXY outline upgradeto24bitimage').split():
    PIX[_n + '2file'] = (_n, g_none, None)
for _n in ('flipverticalregion fliphorizontalregion mirrorleftinregion mirrorrightinregion mirrortopinregion mirrorbottominregion '
           'mirrortopleftinregion mirrortoprightinregion mirrorbottomleftinregion mirrorbottomrightinregion invertregion '
           'outlineregion').split():
    PIX[_n + '2file'] = (_n, (g_rect,), None)
for _n in ('flipvertcircregion fliphoricircregion mirrortopincircregion mirrorbottomincircregion mirrorleftincircregion '
           'mirrorrightincircregion mirrortopleftincircregion mirrorbottomleftincircregion mirrortoprightincircregion '
           'mirrorbottomrightincircregion flipXYcircregion outlinecircregion invertbitsincircregion').split():
    PIX[_n + '2file'] = (_n, (g_circ,), None)
PIX.update({
    'cropBMPandsave': ('crop', (g_rect,), None),
    'cropBMPandsaveusingrectbnd': (o_crop1, g_bnd, None),
    'autocropimg2file': (o_auto, g_thr, None),
    'imgregionbyRGB2file': (o_imgregion, g_region, None),
    'invertbits2file': ('invertimagebits', g_none, None),
    'palshift2file': ('palshift', g_shift, None),
    'eraseeverynthhoriline2file': ('eraseeverynthhorizontalline', g_n, None),
    'eraseeverynthhorilineinregion2file': ('eraseeverynthhorilineinregion', (g_rect, g_n2), None),
    'eraseeverynthhorilineinccircregion2file': ('eraseeverynthhorizontallineinccircregion', (g_circ, g_n2), None),
    'rectangle2file': ('rectangle', (g_rect, g_color), None),
    'filledrect2file': ('filledrect', (g_rect, g_color), None),
    'filledgradrect2file': ('filledgradrect', (g_rect, g_grad), None),
    'filleddichromaticgradrect2file': ('filleddichromaticgradrect', (g_rect, g_digrad), None),
    'filledcircle2file': ('filledcircle', (g_circ, g_color), None),
    'circle2file': ('circle', (g_circ, g_color), None),
    'magnifyNtimescircregion2file': ('magnifyNtimescircregion', (g_circ, g_mag), None),
    'pixelizenxncircregion2file': ('pixelizenxncircregion', (g_circ, g_mag), None),
    'copycircregion2file': ('copycircregion', (g_circ, g_newxy), None),
    'adjustbrightness2file': (palop(L.brightnesseadjto24bitimage, C.brightnessadjust), g_pct, None),
    'thresholdadjust2file': (palop(L.thresholdadjto24bitimage, C.thresholdadjust), g_lum, None),
    'colorfilter2file': (palop(L.colorfilterto24bitimage, C.colorfilter), g_rgb, None),
    'gammaadj2file': (palop(L.gammaadjto24bitimage, C.gammacorrect), g_gamma, None),
    'monochrome2file': (palop(L.monofilterto24bitimage, C.monochrome), g_none, None),
    'adjustbrightnessinregion2file': ('brightnesseadjto24bitregion', (g_rect, g_pct), NEED24),
    'adjustthresholdinregion2file': ('thresholdadjto24bitregion', (g_rect, g_lum), NEED24),
    'colorfilterinregion2file': ('colorfilterto24bitregion', (g_rect, g_rgb), NEED24),
    'monofilterinregion2file': ('monofilterto24bitregion', (g_rect,), NEED24),
    'gammaadjtoregion2file': ('gammaadjto24bitregion', (g_rect, g_gamma), NEED24),
    'horizontalbrightnessgradregion2file': ('horizontalbrightnessgradto24bitregion', (g_rect, g_lum), NEED24),
    'verticalbrightnessgradregion2file': ('verticalbrightnessgradto24bitregion', (g_rect, g_lum), NEED24),
    'horizontalbrightnessgrad2file': ('horizontalbrightnessgradto24bitimage', g_lum, NEED24),
    'verticalbrightnessgrad2file': ('verticalbrightnessgradto24bitimage', g_lum, NEED24),
    'pixelizenxntofile': ('pixelizenxn', g_n, NEED24),
    'resizeNtimessmaller2file': ('resizeNtimessmaller', g_n, NEED24),
    'resizeNtimesbigger2file': ('resizeNtimesbigger', g_n, NEED24),
    'monochromecircregion2file': ('monocircle', (g_circ,), NEED24),
    'colorfiltercircregion2file': ('colorfiltercircregion', (g_circ, g_rgb), NEED24),
    'thresholdadjcircregion2file': ('thresholdadjcircregion', (g_circ, g_lum), NEED24),
    'gammacorrectcircregion2file': ('gammacorrectcircregion', (g_circ, g_gamma), NEED24),
    'brightnessadjcircregion2file': ('brightnessadjcircregion', (g_circ, g_pct), NEED24),
    'vertbrightnessgrad2circregion2file': ('vertbrightnessgrad2circregion', (g_circ, g_lum), NEED24),
    'horibrightnessgrad2circregion2file': ('horibrightnessgrad2circregion', (g_circ, g_lum), NEED24),
    'sphere2file': ('sphere', (g_circ, g_sphere), NEED24),
    'thickencirclearea2file': ('thickencirclearea', (g_circ, g_fac), NEED24),
})
NAMES = sorted(PIX)


def params(rng, img, spec):
    if callable(spec):
        spec = (spec,)
    return tuple(v for g in spec for v in g(rng, img))


def st_op(ctx, rng):
    name = NAMES[rng.index % len(NAMES)]
    op, spec, depths = PIX[name]
    if isinstance(op, str):
        op = getattr(L, op)
    fn = getattr(L, name)
    img = gen.image(rng, bits=24 if depths and rng.random() < .8 else None, big=rng.choice((20, 20, 20, 20, 20, 20, 20, 20, 20, 120)), lo=3)
    if name == 'filleddichromaticgradrect2file' and img.bits < 24:
        img = gen.image(rng, bits=24, big=20, lo=3)
    if name == 'autocropimg2file':      # a picture with at least one edge
        img.px[0][0], img.px[0][1] = 0, 1
        if img.bits < 24:
            img.pal[0], img.pal[1] = (0, 0, 0), (255, 255, 255)
        else:
            img.px[0][1] = 0xffffff
    par = params(rng, img, spec)
    with Dir() as d:
        os.chdir(d)
        src = os.path.join(d, 'in.bmp')
        raw = bytes(gen.buf(rng, img))
        wr(src, raw)
        wr(os.path.join(d, 'by.bmp'), b'bystander')
        kind = rng.choice(('new', 'new', 'old', 'same', 'relative'))
        dst = {'new': os.path.join(d, 'out.bmp'), 'old': os.path.join(d, 'out.bmp'), 'same': src, 'relative': 'out.bmp'}[kind]
        if kind == 'old':      # an output already there, longer or shorter
            wr(dst, rng.choice((b'x', b'x' * (len(raw) + 999), raw, raw[:-1] + bytes([raw[-1] ^ 1]))))
        if rng.random() < .15:      # the same call before, on another picture in the same files
            st = os.stat(src)
            wr(src, bytes(gen.buf(rng, gen.related(rng, img))))
            os.utime(src, ns=(st.st_atime_ns, st.st_mtime_ns))
            try:
                fn(src, os.path.join(d, 'out.bmp') if kind == 'same' else dst, *par)
            except Exception:
                pass        # judged on its own in other cases
            for f in ('in.bmp', 'out.bmp'):
                if os.path.exists(f) and rng.random() < .5:
                    os.remove(f)
            wr(src, raw)
            os.utime(src, ns=(st.st_atime_ns, st.st_mtime_ns))
            ctx.count('second_calls')
        before = listing(d)
        buf = model.array('B', raw)
        refused = depths and img.bits not in depths
        if not refused:
            res = op(buf, *par)
            want = res if isinstance(res, model.array) else buf
            none = op in (L.crop,) and res is None
        _, out = call(ctx, fn, src, dst, *par, mutates=())
        ctx.observe(name, img.key(), repr([p if not callable(p) else p.__name__ for p in par]), kind)
        what = f'{name} {[p if not callable(p) else p.__name__ for p in par]} of {img.w}x{img.h}x{img.bits}, output {kind}'
        after = listing(d)
        on = os.path.basename(dst)
        if kind != 'same' and rd(src) != raw:
            raise Violation('input-changed', f'{what}: the input file changed')
        for f in set(before) | set(after):
            if f != on and before.get(f) != after.get(f):
                raise Violation('other-file', f'{what}: file {f} {"changed" if f in before else "appeared"}')
        if refused:
            ctx.check(after == before, 'refused-output', f'{what}: refused, but the output was written')
            ctx.check('rror' in out, 'no-message', f'{what}: printed {out!r}')
            return
        if none:
            if on in after and after[on] != before.get(on) and rd(dst) != raw:
                raise Violation('refused-output', f'{what}: refused, but something else was written')
            ctx.check('rror' in out, 'no-message', f'{what}: printed {out!r}')
            return
        ctx.check(on in after, 'no-output', f'{what}: no output file; printed {out!r}')
        try:
            got = model.decode(rd(dst))
        except model.Bad as e:
            raise Violation('output', f'{what}: {e}')
        compare_px(what, got, model.decode(want), 'output')
        ctx.check(src in out and dst in out, 'report', f'{what}: printed {out!r}')


def st_missing(ctx, rng):
    """a missing input is reported, nothing is written"""
    name = NAMES[rng.index % len(NAMES)]
    img = gen.image(rng, bits=24, big=12, lo=3)
    par = params(rng, img, PIX[name][1])
    with Dir() as d:
        src = os.path.join(d, 'nothere.bmp')
        if rng.random() < .3:
            src = d      # a directory
        dst = os.path.join(d, 'out.bmp')
        _, out = call(ctx, getattr(L, name), src, dst, *par, mutates=())
        ctx.observe('missing', name, src == d)
        ctx.check(not listing(d), 'missing', f'{name} of a missing file wrote {listing(d)}')
        ctx.check('rror' in out, 'no-message', f'{name} of a missing file printed {out!r}')


def st_cycle(ctx, rng):
    img = gen.image(rng, bits=rng.choice((4, 4, 8)), big=8)
    with Dir() as d:
        os.chdir(d)
        src = os.path.join(d, 'in.bmp')
        raw = bytes(gen.buf(rng, img))
        wr(src, raw)
        sub = rng.choice(('cyc', os.path.join(d, 'cyc')))
        old = rng.random() < .4
        over = rng.random() < .6
        if old:
            os.mkdir(sub)
            wr(os.path.join(sub, '3.bmp'), b'x' * 9999)
        ctx.observe('cycle', img.key(), sub == 'cyc', old, over)
        what = f'colorcycle2dir {img.w}x{img.h}x{img.bits} to {"existing" if old else "new"} {sub}, overwrite {over}'
        try:
            L.colorcycle2dir(src, sub, *((over,) if over or rng.random() < .5 else ()))
            ctx.check(not old or over, 'cycle-overwrite', f'{what}: wrote into an existing directory')
        except FileExistsError:
            ctx.check(old and not over, 'cycle', f'{what}: refused')
            ctx.eq(sorted(listing(d)), ['cyc/3.bmp', 'in.bmp'], 'cycle-files', what)
            ctx.eq(rd(os.path.join(sub, '3.bmp')), b'x' * 9999, 'cycle-files', what)
            return
        finally:
            ctx.eq(rd(src), raw, 'input-changed', what)
        n = 1 << img.bits
        ctx.eq(sorted(listing(d)), sorted(['in.bmp'] + [f'cyc/{i}.bmp' for i in range(n)]), 'cycle-files', what)
        for i, b in enumerate(L.itercolorcycle(model.array('B', raw))):
            compare_px(f'{what}: picture {i}', model.decode(rd(os.path.join(sub, f'{i}.bmp'))), model.decode(b), 'cycle')


STAGES = [Stage('op', st_op, 240), Stage('missing', st_missing, 20), Stage('cycle', st_cycle, 6)]
