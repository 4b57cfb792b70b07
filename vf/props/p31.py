"""P31 operations refuse what lies outside their limits and take all that lies within."""
from pythonbmp import BITMAPlib as L
from pythonbmp.messages import sysmsg
from .. import gen, model
from ..core import Stage
from ..monitor import call, InPlace

PID = 'P31'
RULE = ('one case = one guarded operation called with one set of limits: a region or circle inside, touching, crossing or off the border, whole numbers or not, right depth or not; '
        'distinct = distinct operations, sizes, depths and parameters')
ASSUMPTIONS = ['operations are judged by their message and by the image they leave; what they do when they run is checked by P05 to P17',
               'a call with several faults may report any of them']
FAC, LUM = [1, .5, .2], [20, 200]
RECT = {24: [('brightnesseadjto24bitregion', (50,)), ('colorfilterto24bitregion', (FAC,)), ('gammaadjto24bitregion', (2.,)), ('monofilterto24bitregion', ()),
             ('thresholdadjto24bitregion', (LUM,)), ('horizontalbrightnessgradto24bitregion', (LUM,)), ('verticalbrightnessgradto24bitregion', (LUM,)),
             ('filleddichromaticgradrect', (0x90909, 0xc80909, 0))],
        8: [('filledgradrect', (LUM, FAC, 0))],
        1: [(n, ()) for n in ('copyrect crop fliphorizontalregion flipverticalregion invertregion mirrorleftinregion mirrorrightinregion mirrortopinregion mirrorbottominregion '
                              'mirrortopleftinregion mirrortoprightinregion mirrorbottomleftinregion mirrorbottomrightinregion outlineregion itercopyrect '
                              'itergetcolorfromrectregion').split()] +
           [('filledrect', (1,)), ('fern', (1,)), ('xygrid', ([2, 2], 1)), ('eraseeverynthhorilineinregion', (2,))]}
# circles that have to lie inside
CIRC = {24: [('vertbrightnessgrad2circregion', (LUM,)), ('horibrightnessgrad2circregion', (LUM,)), ('magnifyNtimescircregion', (2,)), ('pixelizenxncircregion', (2,))],
        8: [(n, ()) for n in ('fliphoricircregion', 'mirrorleftincircregion', 'mirrorrightincircregion')],
        1: [(n, ()) for n in ('flipvertcircregion', 'mirrortopincircregion', 'mirrorbottomincircregion', 'flipXYcircregion', 'copycircregion2buf')] +
           [('eraseeverynthhorizontallineinccircregion', (2,))]}
# circles that are clipped
FREE = {24: [('monocircle', ()), ('gammacorrectcircregion', (2.,)), ('brightnessadjcircregion', (50,)), ('thresholdadjcircregion', (LUM,)), ('colorfiltercircregion', (FAC,))],
        1: [('invertbitsincircregion', ()), ('outlinecircregion', ()), ('sphere', (FAC,)), ('thickencirclearea', (FAC,)), ('drawarc', (0, 90, 1, True, 1, False))]}
REFUSALS = [sysmsg[k] for k in ('regionoutofbounds', 'inttypereq', 'not24bit', 'not24or8bit', 'not4or8bit') if sysmsg.get(k)]
DEPTHS = {24: (24,), 8: (8, 24), 1: model.BITS}


def pick(rng, table):
    need = rng.choice(sorted(table))
    name, par = rng.choice(table[need])
    return name, par, DEPTHS[need]


def off(rng, c):
    """not whole numbers"""
    c = list(c)
    i = rng.randrange(len(c))
    c[i] = rng.choice((float(c[i]), c[i] + .5, str(c[i])))
    return c


def judge(ctx, rng, name, par, coords, ok, img, empty):
    buf = gen.buf(rng, img)
    mon = InPlace(ctx, buf)
    fn = getattr(L, name)
    what = f'{name}{tuple(coords) + par} on {img.w}x{img.h}x{img.bits}'
    ctx.observe(name, img.w, img.h, img.bits, str(coords))
    r, out = call(ctx, fn, buf, *coords, *par)
    if ok:
        mon.after(what, pal=name != 'palshift')
        for bad in REFUSALS:
            ctx.check(bad not in out, 'refused', f'{what}: refused with {out!r}')
        ctx.check(not empty or r is not None, 'refused', f'{what}: no result')
        ctx.count('taken')
    else:
        ctx.check(bytes(buf) == mon.raw, 'changed', f'{what}: refused or not, the image changed')
        ctx.check(r is None, 'result', f'{what}: gave {type(r).__name__}')
        ctx.check(out.strip(), 'silent', f'{what}: no message')
        ctx.count('refused')


def st_rect(ctx, rng):
    name, par, depths = pick(rng, RECT)
    img = gen.image(rng, big=24)
    w, h = img.w, img.h
    x1, x2 = sorted((rng.randrange(w), rng.randrange(w)))
    y1, y2 = sorted((rng.randrange(h), rng.randrange(h)))
    if rng.random() < .3:
        x1, y1, x2, y2 = 0, 0, w - 1, h - 1
    c = [x1, y1, x2, y2]
    k = rng.randrange(4)
    inside = True
    if k == 1:
        i = rng.randrange(4)
        c[i] = rng.choice((-1, -rng.randint(1, 50), (w, h)[i % 2], (w, h)[i % 2] + rng.randint(0, 50)))
        inside = False
    elif k == 2:
        c = off(rng, c)
        inside = False
    if k == 3 and rng.random() < .5:
        c = [c[2], c[3], c[0], c[1]]
    ok = inside and img.bits in depths
    if ok and (x1 == x2 or y1 == y2 or name == 'fern'):
        # what is left of a region one pixel wide is for the other checks
        return
    judge(ctx, rng, name, par, c, ok, img, name in ('copyrect', 'crop', 'itercopyrect', 'itergetcolorfromrectregion'))


def st_circle(ctx, rng):
    free = rng.random() < .3
    name, par, depths = pick(rng, FREE if free else CIRC)
    img = gen.image(rng, big=24)
    w, h = img.w, img.h
    k = rng.randrange(4)
    r = rng.randint(1, max(1, (min(w, h) - 1) // 2))
    if k < 2 and min(w, h) > 2 * r:
        # inside, often touching the border
        x = rng.choice((r, w - 1 - r, rng.randint(r, w - 1 - r)))
        y = rng.choice((r, h - 1 - r, rng.randint(r, h - 1 - r)))
    else:
        x, y = rng.randint(-3, w + 3), rng.randint(-3, h + 3)
        if rng.random() < .5:
            x = rng.choice((r - 1, w - r))
    c = [x, y, r]
    inside = x - r >= 0 and y - r >= 0 and x + r < w and y + r < h
    whole = True
    if k == 3:
        c = off(rng, c)
        whole = False
    ok = whole and (inside or free) and img.bits in depths
    judge(ctx, rng, name, par, c, ok, img, name == 'copycircregion2buf')


def st_depth(ctx, rng):
    """whole-image operations of some depths only"""
    img = gen.image(rng, big=16)
    name, par, depths = rng.choice((('palshift', (rng.randint(1, 5),), (4, 8)), ('resizeNtimessmaller', (2,), (24,)), ('graddichromiccircle', (4, 4, 3, [9, 9, 9], [90, 9, 9]), (24,))))
    if img.bits in depths and (name != 'palshift'):
        return
    judge(ctx, rng, name, par, [], img.bits in depths, img, False)


STAGES = [Stage('rect', st_rect, 200), Stage('circle', st_circle, 200), Stage('depth', st_depth, 30)]
