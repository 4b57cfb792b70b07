"""P29 solids are drawn as they are seen."""
import math
from pythonbmp import BITMAPlib as L
from pythonbmp import solids3D as S
from .. import gen, model
from ..core import Stage, Violation
from ..monitor import call, InPlace, compare_px
from .p28 import cross, dot, mag, sub, basic, center, DIV

PID = 'P29'
RULE = ('one case = one solid seen from one side; vertices are turned and projected by an independent matrix, hidden sides found by looking along rays, images compared with the '
        'visible sides painted one by one in their own shade; distinct = distinct solids, turns and places')
ASSUMPTIONS = ['the whole solid lies before the eye', 'filled polygons and lines are those plotpolyfill and plotpoly draw (checked by P04 and P05)',
               'sides seen exactly edge on and shades or corners within 1e-6 of the next whole number may go either way']


def turn(rv, dv, d, v):
    """mirrored in x, turned about y by yaw, about z by -roll, about x by -pitch, moved, seen from the origin"""
    roll, pitch, yaw = (math.radians(a) for a in rv)
    x, y, z = -v[0], v[1], v[2]
    x, z = x * math.cos(yaw) - z * math.sin(yaw), x * math.sin(yaw) + z * math.cos(yaw)
    x, y = x * math.cos(roll) + y * math.sin(roll), y * math.cos(roll) - x * math.sin(roll)
    y, z = y * math.cos(pitch) + z * math.sin(pitch), z * math.cos(pitch) - y * math.sin(pitch)
    x, y, z = x + dv[0], y + dv[1], z + dv[2]
    return [x, y, z], [-d * x / z, -d * y / z]


def view(rng, size):
    rv = [rng.choice((0, 90, 180, rng.randint(-360, 360), rng.uniform(-180, 180))) for _ in 'rpy']
    dv = [rng.uniform(-size, size), rng.uniform(-size, size), size * rng.uniform(4, 9)]
    if rng.random() < .4:
        dv = [0, 0, round(dv[2]) + 1]
    return rv, dv


def close(a, b, tol):
    return len(a) == len(b) and all(abs(p - q) <= tol for p, q in zip(a, b))


def st_perspective(ctx, rng):
    n = rng.randint(1, 20)
    vs = [[rng.choice((rng.randint(-40, 40), rng.uniform(-40, 40))) for _ in 'xyz'] for _ in range(n)]
    rv, dv = view(rng, 70)
    d = rng.choice((200, rng.randint(1, 500), rng.uniform(1, 900)))
    rot, _ = call(ctx, L.rotvec3D, *rv)
    (a, b), _ = call(ctx, L.perspective, vs, rot, dv, d)
    what = f'perspective of {vs[0]} turned {rv} moved {dv} from {d}'
    ctx.observe('perspective', str(vs), str(rv), str(dv), d)
    ctx.eq((len(a), len(b)), (n, n), 'count', what)
    for v, p, q in zip(vs, a, b):
        wp, wq = turn(rv, dv, d, v)
        ctx.check(close(p, wp, 1e-8), 'turned', lambda: f'{what}: {v} turned to {p}, wanted {wp}')
        ctx.check(close(q, wq, 1e-6), 'projected', lambda: f'{what}: {v} seen at {q}, wanted {wq}')
    # turning keeps distances
    for _ in range(3):
        i, j = rng.randrange(n), rng.randrange(n)
        ctx.check(abs(mag(sub(vs[i], vs[j])) - mag(sub(a[i], a[j]))) < 1e-8, 'distance', what)


def solid(ctx, rng):
    x = rng.choice((rng.randint(10, 60), rng.uniform(5, 60)))
    k = rng.random()
    if k < .6:
        name, v, f, _ = basic(rng, x)
    elif k < .75:
        name = 'sphere'
        v, f = L.spherevertandsurface([rng.uniform(-5, 5) for _ in 'xyz'], x / 2, rng.choice([d for d in DIV if d >= 20] + [50, 70]))
    else:
        name = 'cone' if k > .88 else 'cylinder'
        v, f = (L.conevertandsurface if name == 'cone' else L.cylindervertandsurface)([rng.uniform(-5, 5) for _ in 'xyz'], x / 2, rng.uniform(5, 50), rng.choice([d for d in DIV if d >= 20]))
    return name, v, f, max(x, 50)


def uniq(f, vs):
    out = []
    for i in f:
        if all(mag(sub(vs[i], vs[j])) > 1e-7 for j in out):
            out.append(i)
    return out


def st_hidden(ctx, rng):
    """gensides keeps the sides the eye sees, in order, moved on the screen"""
    name, vs, faces, size = solid(ctx, rng)
    rv, dv = view(rng, size)
    d = rng.randint(50, 500)
    cen = [rng.randint(0, 400), rng.uniform(0, 400)]
    what = f'{name} turned {rv} moved {dv}'
    ctx.observe('hidden', name, str(rv), str(dv), len(faces))
    pl = L.perspective(vs, L.rotvec3D(*rv), dv, d)
    (polys, norms), _ = call(ctx, L.gensides, pl, cen, faces)
    ctx.eq(len(polys), len(norms), 'count', what)
    pts = [turn(rv, dv, d, v) for v in vs]
    rot, scr = [p for p, _ in pts], [q for _, q in pts]
    mid = [sum(p[k] for p in rot) / len(rot) for k in range(3)]
    want, maybe = [], []
    for f in faces:
        g = uniq(f, rot)
        nv = cross(sub(rot[g[1]], rot[g[0]]), sub(rot[g[2]], rot[g[0]]))
        # outward: away from the middle of the solid
        if dot(nv, sub(rot[g[0]], mid)) < 0:
            nv = [-c for c in nv]
        s = dot(nv, rot[g[0]]) / mag(nv) / mag(rot[g[0]])
        sees = s < 0
        want.append((f, sees, abs(s) < 1e-6))
    it = iter(zip(polys, norms))
    cur = next(it, None)
    for f, sees, edge in want:
        p = [[scr[i][0] + cen[0], scr[i][1] + cen[1]] for i in f]
        hit = cur is not None and len(cur[0]) == len(p) and all(close(a, b, 1e-5) for a, b in zip(cur[0], p))
        if sees and not edge:
            ctx.check(hit, 'seen-side', f'{what}: side {f} faces the eye and is left out (or out of order, or elsewhere)')
        if hit:
            ctx.check(sees or edge, 'hidden-side', f'{what}: side {f} faces away and is kept')
            nv = cross(sub(rot[f[1]], rot[f[0]]), sub(rot[f[2]], rot[f[0]]))
            ctx.check(close(cur[1], nv, 1e-6 * (1 + mag(nv))), 'normal', f'{what}: normal of {f} is {cur[1]}, wanted {nv}')
            ctx.count('seen')
            cur = next(it, None)
    ctx.check(cur is None, 'hidden-side', f'{what}: an extra side {cur}')


def shade(bits, pal, nv, factors):
    """the colors a side may have"""
    if nv == [0, 0, 0]:
        lums = {127}
    else:
        c = nv[2] / mag(nv) * 128
        lums = {int(c - 1e-6) + 127, int(c + 1e-6) + 127, int(c) + 127}
    out = set()
    for v in lums:
        col = L.colormix(v, factors)
        out.add(col if bits == 24 else L.matchRGBtopal(L.int2RGBarr(col), [list(p) for p in pal]))
    return out


def st_draw(ctx, rng):
    """plot3Dsolid = the sides the eye sees, each filled in its shade, then the outlines"""
    name, vs, faces, size = solid(ctx, rng)
    if rng.random() < .2:
        name = 'surface'
        a = rng.uniform(-4, 4)
        vs, faces = L.surfplot3Dvertandsurface(-30, -30, 30, 30, rng.choice((10, 12, 15, 20, 25, rng.randint(7, 32))), lambda x, y: a * math.sin(x / 9) + math.cos(y / 7) * 3)
        size = 60
    rv, dv = view(rng, size)
    bits = rng.choice(model.BITS[1:])
    w, h = rng.randint(40, 120), rng.randint(40, 120)
    d = rng.randint(40, 250)
    cen = rng.choice(([w // 2, h // 2], [rng.randint(0, w), rng.randint(0, h)]))
    fac = [rng.choice((0, 1, rng.random())) for _ in 'rgb']
    solidp, outl = rng.choice(((True, False), (True, True), (False, True), (False, False)))
    c = gen.color(rng, bits)
    img = model.Img(w, h, bits, gen.palette(rng, bits))
    buf = gen.buf(rng, img)
    pts = [turn(rv, dv, d, v) for v in vs]
    rot, scr = [p for p, _ in pts], [q for _, q in pts]
    # keep away from ties
    for x, y in scr:
        for q in (x + cen[0], y + cen[1]):
            if abs(q % 1 - .5) < 1e-6:
                return
    ref = gen.buf(rng, model.decode(buf))
    mon = InPlace(ctx, buf)
    mine = []
    for f in faces:
        nv = cross(sub(rot[f[1]], rot[f[0]]), sub(rot[f[2]], rot[f[0]]))
        s = dot(nv, rot[f[0]])
        m = mag(nv) * mag(rot[f[0]])
        if m and abs(s) / m < 1e-9:
            return
        if s >= 0:
            if len({*shade(bits, img.pal, nv, fac)}) > 1:
                return
            mine.append(([[scr[i][0] + cen[0], scr[i][1] + cen[1]] for i in f], nv))
    how = rng.randrange(3)
    if how == 2:
        # the sides come from the library
        sides = L.gensides(L.perspective(vs, L.rotvec3D(*rv), dv, d), cen, faces)
        call(ctx, L.plot3d, buf, sides, solidp, fac, outl, c)
    else:
        call(ctx, L.plot3Dsolid, buf, (vs, faces), solidp, fac, outl, c, L.rotvec3D(*rv), dv, d, cen)
    what = f'{name} turned {rv} moved {dv} from {d} at {cen} {w}x{h}x{bits} solid {solidp} outline {outl}'
    ctx.observe('draw', name, str(rv), str(dv), d, bits, solidp, outl)
    got = mon.after(what)
    if solidp:
        for p, nv in mine:
            call(ctx, L.plotpolyfill, ref, p, shade(bits, img.pal, nv, fac).pop())
    if outl:
        for p, nv in mine:
            call(ctx, L.plotpoly, ref, p, c)
    compare_px(what, got, model.decode(ref), 'drawn')
    ctx.count('sides', len(mine))


STAGES = [Stage('perspective', st_perspective, 60), Stage('hidden', st_hidden, 60), Stage('draw', st_draw, 25)]
