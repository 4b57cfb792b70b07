"""P32 results depend on the arguments alone."""
import importlib
from .. import gen
from ..core import Stage, Violation
from ..monitor import call

PID = 'P32'
RULE = ('one case = one case of another check, run for its calls only: each call is repeated with the same or slightly different arguments in this process, after all calls before it, '
        'and in a pristine process, and results, exceptions and images are compared; results and argument copies are overwritten after use; distinct = distinct cases')
ASSUMPTIONS = ['the random module is given the same seed before both runs of a call; processor time and files are left to P22, P02 and P18',
               'what a call should give is judged by P01..P31']
OWN = ('history', 'argument-changed', 'new-image')
SHARE = {1: 30, 3: 60, 4: 60, 5: 30, 6: 30, 7: 60, 8: 80, 9: 80, 10: 40, 11: 90, 12: 60, 13: 60, 14: 120, 15: 400, 16: 60, 17: 60,
         19: 80, 20: 100, 21: 200, 22: 120, 23: 100, 24: 80, 25: 120, 26: 24, 27: 80, 28: 20, 29: 40, 30: 80, 31: 300}
LEAVE = {'giant', 'wide', 'tall', 'big', 'names', 'block'}


def of(n):
    mod = importlib.import_module(f'vf.props.p{n:02}')
    todo = [s for s in mod.STAGES if s.name not in LEAVE]

    def st(ctx, rng):
        s = todo[rng.index % len(todo)]
        rng.index //= len(todo)
        before = ctx.counters.get('repeated_in_pristine_process', 0)
        try:
            s.func(ctx, rng)
        except Violation as v:
            if v.mech in OWN:
                raise
            ctx.count('left_to_other_checks')
        except Exception:
            ctx.count('left_to_other_checks')
        ctx.observe(n, s.name, rng.index, ctx.counters.get('repeated_in_pristine_process', 0) - before)
    return st


def pt(r, n=60):
    return [r.randint(-9, n), r.randint(-9, n)]


def fl(r, *k):
    return r.choice((0, 1, .5, 2, round(r.uniform(-9, 9), 2), r.uniform(-99, 99), *k))


def vec(r, n=3):
    return [fl(r) for _ in range(n)]


def pic(r, bits=None):
    return gen.buf(r, gen.image(r, bits, big=9))


def box(r):
    return pt(r) + pt(r)


def byte(r):
    return r.choice((0, 255, 1, 127, r.randrange(256), r.randrange(256)))


def rgb(r):
    return [byte(r) for _ in 'rgb']


def color(r):
    return r.randrange(1 << 24)


def bits(r):
    return r.choice((1, 4, 8))


def rows(n):
    """a palette picture and as many entries of n bytes as it has"""
    def a(r):
        b = pic(r, bits(r))
        return b, [[byte(r) for _ in range(n)] for _ in range(1 << b[28])]
    return a


# modules, names and arguments of functions that other checks rarely call through the monitor
PLAIN = [
    ('BITMAPlib', 'getmaxx getmaxy getmaxxy bottomrightcoord centercoord getmaxcolors getmaxxyandbits isdefaultpal', lambda r: [pic(r)]),
    ('BITMAPlib', 'iterimageRGB iterimagecolor', lambda r: [pic(r), '', '', '']),
    ('BITMAPlib', 'isinBMPrectbnd', lambda r: [pic(r), *pt(r, 12)]),
    ('BITMAPlib', 'listinBMPrecbnd', lambda r: [pic(r), [pt(r, 12) for _ in range(r.randint(1, 4))]]),
    ('BITMAPlib', 'setbmppal', rows(3)), ('BITMAPlib', 'setbmppalwithBGRlist', rows(3)), ('BITMAPlib', 'setbmppalwithBGRAlist', rows(4)),
    ('BITMAPlib', 'getallRGBpal itercolorcycle', lambda r: [pic(r, bits(r))]),
    ('BITMAPlib', 'getRGBpal', lambda r: [pic(r, 4), r.randrange(16)]),
    ('BITMAPlib', 'setRGBpal', lambda r: [pic(r, 4), r.randrange(16), *rgb(r)]),
    ('BITMAPlib', 'newBMP', lambda r: [r.randint(1, 9), r.randint(1, 9), r.choice((1, 4, 8, 24))]),
    ('BITMAPlib', 'iterimagedgevert', lambda r: [pic(r, 24), r.randint(0, 300)]),
    ('BITMAPlib', 'iterimageregionvertbyRGB', lambda r: [pic(r, 24), rgb(r), r.randint(0, 300)]),
    ('BITMAPlib', 'mirrortop mirrorleft mirrorbottom mirrorright outline', lambda r: [pic(r)]),
    ('X11colordict', 'getX11colorname2HSLdict getX11colorname2RGBdict getX11RGBfactors', lambda r: []),
    ('XKCDcolordict', 'getXKCDcolorname2HSLdict getXKCDcolorname2RGBdict getXKCDRGBfactors', lambda r: []),
    ('colordict', 'getcolorname2HSLdict getcolorname2RGBdict getRGBfactors', lambda r: []),
    ('solids3D', 'getshapesidedict', lambda r: []), ('colors', 'getdefaultlumrange', lambda r: []),
    ('fractals', 'getIFSparams fractaldomainparamdict', lambda r: []),
    ('colors', 'getdefaultbitpal', lambda r: [bits(r)]),
    ('colors', 'isvalidcolorbit', lambda r: [r.randrange(33)]),
    ('colors', 'int2RGB int2RGBlist int2BGRarr int2RGBarr', lambda r: [color(r)]),
    ('colors', 'RGB2BGRarr RGB2int', rgb), ('colors', 'matchRGBtodefault4bitpal probplotRGBto4bitpal', lambda r: [rgb(r)]),
    ('colors', 'probplotRGBto1bit', lambda r: [rgb(r), r.randint(0, 255)]),
    ('colors', 'RGB2BGRAlist', lambda r: [[rgb(r) for _ in range(3)]]),
    ('chartools', 'enumletters enumreverseletters', lambda r: [''.join(r.choice('ab \n\xe9') for _ in range(r.randint(0, 9)))]),
    ('conditionaltools', 'iif', lambda r: [r.random() < .5, vec(r), fl(r)]),
    ('conditionaltools', 'swapif', lambda r: [vec(r), fl(r), r.random() < .5]),
    ('solids3D', 'tetrahedravert cubevert hexahedravert octahedravert decahedvertandsurface icosahedvertandsurface', lambda r: [r.choice((1, 30, 45.5, r.uniform(1, 99)))]),
    ('solids3D', 'spherevert spherevertandsurface', lambda r: [vec(r), r.uniform(1, 50), r.choice((30, 45, 60))]),
    ('solids3D', 'cylindervertandsurface conevertandsurface', lambda r: [vec(r), r.uniform(1, 50), r.uniform(1, 50), r.choice((30, 45, 60))]),
    ('solids3D', 'surfacetest', lambda r: [vec(r), vec(r), vec(r)]),
    ('solids3D', 'polyboundary', lambda r: [[pt(r) for _ in range(r.randint(3, 5))]]),
    ('primitives2D', 'itercirclepart itercirclepartlineedge itercirclepartvertlineedge', lambda r: [r.randint(0, 40)]),
    ('primitives2D', 'iterline lineseg', lambda r: [pt(r), pt(r)]), ('primitives2D', 'iterparallelogram', lambda r: [pt(r), pt(r), pt(r)]),
    ('primitives2D', 'iterellipsepart', lambda r: [r.randint(0, 30), r.randint(0, 30)]),
    ('primitives2D', 'iterellipse ellipsevert', lambda r: [*pt(r), r.randint(0, 30), r.randint(0, 30)]),
    ('primitives2D', 'iterellipserot', lambda r: [*pt(r), r.randint(0, 30), r.randint(0, 30), fl(r, 30, 90)]),
    ('primitives2D', 'itercircle circlevert squirclevert', lambda r: [*pt(r), r.randint(0, 30)]),
    ('primitives2D', 'recvert sortrecpoints', box),
    ('primitives2D', 'horizontalvert verticalvert', lambda r: [r.randint(0, 9), *sorted(pt(r)), r.randint(1, 5)]),
    ('primitives2D', 'arcvert', lambda r: [*pt(r), r.randint(0, 30), *sorted(r.randint(0, 360) for _ in 'ab')]),
    ('primitives2D', 'itergetneighbors getneighborlist', lambda r: [pt(r, 9), 9, 8, r.random() < .5]),
    ('primitives2D', 'isinrectbnd', lambda r: [*pt(r), *box(r)]), ('primitives2D', 'listinrecbnd', lambda r: [[pt(r), pt(r)], *box(r)]),
    ('primitives2D', 'entirecircleisinboundary', lambda r: [*pt(r), -1, 50, -1, 50, r.randint(0, 20)]),
    ('primitives2D', 'entireellipseisinboundary', lambda r: [*pt(r), -1, 50, -1, 50, r.randint(0, 20), r.randint(0, 20)]),
    ('primitives2D', 'iterflower flowervert', lambda r: [*pt(r), r.randint(1, 40), r.randint(1, 9), fl(r)]),
    ('primitives2D', 'superellipsevert', lambda r: [*pt(r), r.randint(1, 40), r.randint(1, 40), r.uniform(.5, 4), r.uniform(.5, 4)]),
    ('primitives2D', 'cornuspiralvert heartcurvevert', lambda r: [*pt(r), r.randint(1, 40)]),
    ('primitives2D', 'eggcurvevert', lambda r: [*pt(r), r.randint(1, 40), r.randint(1, 40)]),
    ('primitives2D', 'iterdrawvec', lambda r: [pt(r), pt(r), r.randint(1, 9)]),
    ('primitives2D', 'rectboundarycoords', lambda r: [[pt(r) for _ in range(r.randint(1, 6))]]),
    ('mathlib', 'roundvect vectiszero getdomainbounds', lambda r: [vec(r)]), ('mathlib', 'roundvectlist', lambda r: [[vec(r), vec(r)]]),
    ('mathlib', 'intscalarmulvect', lambda r: [vec(r), fl(r)]), ('mathlib', 'isinrange', vec), ('mathlib', 'sign', lambda r: [fl(r)]),
    ('mathlib', 'isorthogonal', lambda r: [vec(r), vec(r)]), ('mathlib', 'rotatebits enumbits', lambda r: [byte(r)]),
    ('mathlib', 'centerpoint', box), ('mathlib', 'initmatrix', lambda r: [r.randint(1, 6), r.randint(1, 6)]),
    ('fractals', 'koch', lambda r: [pt(r), pt(r)]), ('fractals', 'kochcurvevert', lambda r: [pt(r), pt(r), r.randint(0, 3)]),
    ('fractals', 'kochsnowflakevert', lambda r: [*pt(r), r.randint(1, 90), fl(r), r.randint(0, 3)]),
    ('fractals', 'ikedaattractorlist', lambda r: [.85, .9, .4, fl(r, 7.7), r.randint(1, 40)]),
    ('fractals', 'fractaldreamattractorlist', lambda r: [fl(r), fl(r), fl(r), fl(r), r.randint(1, 40)]),
]
PLAIN = [(m, n, a) for m, ns, a in PLAIN for n in ns.split()]


def st_plain(ctx, rng):
    mod, name, args = PLAIN[rng.index % len(PLAIN)]
    fn = getattr(importlib.import_module('pythonbmp.' + mod), name, None)
    if fn is None:
        ctx.count('no_such_function')
        return
    ctx.history.force = True
    for _ in range(2):
        a = list(args(rng))
        ctx.observe(name, [bytes(x) if hasattr(x, 'tobytes') else x for x in a])
        try:
            call(ctx, fn, *a, mutates=(0,) if a and hasattr(a[0], 'tobytes') else ())
        except Violation:
            raise
        except Exception:
            ctx.count('left_to_other_checks')


STAGES = [Stage(f'p{n:02}', of(n), max(1, k // 8)) for n, k in SHARE.items()] + [Stage('plain', st_plain, 14)]
