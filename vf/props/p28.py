"""P28 solids are closed, consistently wound surfaces of the exact shape."""
import math
from collections import Counter
from pythonbmp import BITMAPlib as L
from pythonbmp import solids3D as S
from ..core import Stage, Violation
from ..monitor import call

PID = 'P28'
RULE = ('one case = one solid or surface plot of a random size and place; the oracle looks at geometry alone: edge lengths, distances from the center, planes that support the whole '
        'solid and the sum of all directed edges; distinct = distinct solids and sizes')
ASSUMPTIONS = ['sphere steps of 4 to 120 degrees, cylinder and cone steps that divide 360', 'surfaces judged after points that coincide are merged']
EDGE = {'tetrahedra': 6, 'cube': 12, 'hexahedra': 9, 'octahedra': 12, 'deca': 15, 'ico': 30}
COUNT = {'tetrahedra': (4, 4), 'cube': (8, 6), 'hexahedra': (5, 6), 'octahedra': (6, 8), 'deca': (7, 10), 'ico': (12, 20)}


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def mag(a):
    return math.sqrt(dot(a, a))


def merge(vs, eps):
    """index of the first vertex at the same place, per vertex"""
    out = []
    grid = {}
    for i, v in enumerate(vs):
        k = tuple(round(c / (eps * 8)) for c in v)
        hit = None
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                for dz in (-1, 0, 1):
                    for j in grid.get((k[0] + dx, k[1] + dy, k[2] + dz), ()):
                        if hit is None and max(abs(a - b) for a, b in zip(v, vs[j])) < eps:
                            hit = j
        if hit is None:
            grid.setdefault(k, []).append(i)
            hit = i
        out.append(hit)
    return out


def boundary(ids, faces):
    c = Counter()
    for f in faces:
        for a, b in zip(f, list(f[1:]) + [f[0]]):
            a, b = ids[a], ids[b]
            if a != b:
                c[a, b] += 1
                c[b, a] -= 1
    return {k: v for k, v in c.items() if v}


def convex(ctx, what, vs, faces, size):
    """the faces are the boundary of the convex hull of the vertices, wound alike (seen from outside: positive volume)"""
    eps = size * 1e-7
    n = len(vs)
    for f in faces:
        ctx.check(len(f) >= 3 and all(isinstance(i, int) and 0 <= i < n for i in f), 'face', f'{what}: face {f} of {n} vertices')
    ids = merge(vs, eps)
    used = {ids[i] for f in faces for i in f}
    ctx.eq(used, set(ids), 'vertices', f'{what}: vertices that are in no face')
    left = boundary(ids, faces)
    ctx.check(not left, 'open', lambda: f'{what}: the surface is not closed or not wound one way at edges {list(left.items())[:4]}')
    seen = set()
    for f in faces:
        g = []
        for i in f:
            if not g or (ids[i] != g[-1] and ids[i] not in g):
                g.append(ids[i])
        ctx.check(len(g) >= 3, 'face', f'{what}: face {f} is a line')
        nv = cross(sub(vs[g[1]], vs[g[0]]), sub(vs[g[2]], vs[g[0]]))
        m = mag(nv)
        ctx.check(m > eps * eps, 'face', f'{what}: face {f} has no area')
        nv = [c / m for c in nv]
        tol = eps * 20 * max(1, size * size / m)
        d0 = dot(nv, vs[g[0]])
        for i in g:
            ctx.check(abs(dot(nv, vs[i]) - d0) < tol, 'flat', f'{what}: face {f} is not flat')
        top = max(dot(nv, vs[i]) - d0 for i in used)
        ctx.check(top < tol, 'outside', f'{what}: face {f} faces inward or cuts the solid (a vertex is {top} before it)')
        k = frozenset(g)
        ctx.check(k not in seen, 'face', f'{what}: face {f} twice')
        seen.add(k)
    ctx.count('faces', len(faces))
    return ids


def regular(ctx, name, what, vs, faces, edge, size):
    ctx.eq((len(vs), len(faces)), COUNT[name], 'count', what)
    es = {frozenset(p) for f in faces for p in zip(f, list(f[1:]) + [f[0]])}
    ctx.eq(len(es), EDGE[name], 'count', what + ' edges')
    for e in es:
        a, b = e
        ln = mag(sub(vs[a], vs[b]))
        ctx.check(abs(ln - edge) < size * 1e-9, 'edge', f'{what}: edge {a}-{b} is {ln} long, wanted {edge}')


def basic(rng, x):
    """one of the six solids: (name, vertices, faces, edge)"""
    name = rng.choice(sorted(COUNT))
    if name == 'deca':
        v, f = L.decahedvertandsurface(x)
        return name, v, f, 2 * x * math.sin(math.pi / 5)
    if name == 'ico':
        v, f = L.icosahedvertandsurface(x)
        return name, v, f, x / math.sin(2 * math.pi / 5)
    fn = {'tetrahedra': L.tetrahedravert, 'cube': L.cubevert, 'hexahedra': L.hexahedravert, 'octahedra': L.octahedravert}[name]
    return name, fn(x), L.getshapesidedict()[name], x


def st_basic(ctx, rng):
    x = rng.choice((rng.randint(1, 200), rng.uniform(.05, 300)))
    name, vs, faces, edge = basic(rng, x)
    what = f'{name} of {x}'
    ctx.observe('basic', name, x)
    vs = [list(map(float, v)) for v in vs]
    regular(ctx, name, what, vs, faces, edge, x)
    convex(ctx, what, vs, faces, x)
    if name == 'cube':
        sides = [len(f) for f in faces]
        ctx.eq(sides, [4] * 6, 'face', what)
    if name in ('deca', 'ico'):
        c = [sum(v[k] for v in vs) / len(vs) for k in range(3)]
        far = max(mag(sub(v, c)) for v in vs)
        ctx.check(abs(far - x) < x * 1e-9, 'radius', f'{what}: the sphere around it has radius {far}')
        if name == 'ico':
            ctx.check(min(mag(sub(v, c)) for v in vs) > x * (1 - 1e-9), 'radius', f'{what}: vertices at different distances')


DIV = [d for d in range(3, 121) if 360 % d == 0]


def center(rng):
    return rng.choice(([0, 0, 0], [rng.randint(-90, 90) for _ in 'xyz'], [rng.uniform(-50, 50) for _ in 'xyz']))


def st_sphere(ctx, rng):
    c = center(rng)
    r = rng.choice((rng.randint(1, 90), rng.uniform(.5, 60)))
    step = rng.choice((rng.choice([d for d in DIV if d > 9]), rng.randint(10, 119)))
    if rng.random() < .01:
        step = rng.randint(4, 9)
    (vs, faces), _ = call(ctx, L.spherevertandsurface, c, r, step)
    what = f'sphere at {c} of radius {r} step {step}'
    ctx.observe('sphere', str(c), r, step)
    for v in vs:
        ctx.check(abs(mag(sub(v, c)) - r) < 1e-9 * (r + 90), 'sphere', f'{what}: {v} is {mag(sub(v, c))} from the center')
    th, ph = len(range(0, 360, step)), len(range(step, 180, step))
    ctx.eq((len(vs), len(faces)), (th * ph + 2, th * (ph + 1)), 'count', what)
    # all vertices of the grid of angles
    want = [[c[0], c[1], c[2] + r], [c[0], c[1], c[2] - r]]
    for t in range(0, 360, step):
        for p in range(step, 180, step):
            a, b = math.radians(t), math.radians(p)
            want.append([c[0] + r * math.sin(b) * math.cos(a), c[1] + r * math.sin(b) * math.sin(a), c[2] + r * math.cos(b)])
    ids = merge(want + vs, 1e-7 * (r + 90))
    ctx.eq(sorted(ids[len(want):]), list(range(len(want))), 'sphere-grid', what)
    convex(ctx, what, vs, faces, r)


def st_round(ctx, rng):
    """cylinders and cones"""
    c = center(rng)
    r, z = rng.choice(((rng.randint(1, 90), rng.randint(1, 90)), (rng.uniform(.5, 60), rng.uniform(.5, 60))))
    step = rng.choice(DIV)
    cone = rng.random() < .5
    (vs, faces), _ = call(ctx, L.conevertandsurface if cone else L.cylindervertandsurface, c, r, z, step)
    what = f'{"cone" if cone else "cylinder"} at {c} radius {r} length {z} step {step}'
    ctx.observe('round', cone, str(c), r, z, step)
    n = 360 // step
    tol = 1e-7 * (r + z + 90)
    ends = (1,) if cone else (-1, 1)
    want = [[c[0] + r * math.cos(math.radians(t)), c[1] + r * math.sin(math.radians(t)), c[2] + s * z / 2] for s in ends for t in range(0, 360, step)]
    if cone:
        want.append([c[0], c[1], c[2] - z / 2])
    ids = merge(want + vs, tol)
    ctx.eq(set(ids[len(want):]), set(range(len(want))), 'round-grid', what)
    ctx.eq(len(faces), n + len(ends), 'count', what)
    convex(ctx, what, vs, faces, max(r, z))


def st_surface(ctx, rng):
    x1, y1 = rng.randint(-40, 40), rng.randint(-40, 40)
    x2, y2 = x1 + rng.randint(1, 30), y1 + rng.randint(1, 30)
    step = rng.choice((1, 2, 3, 5, rng.randint(1, 12)))
    a, b, d = (rng.uniform(-3, 3) for _ in 'abd')
    calls = []

    def fn(x, y):
        calls.append((x, y))
        return a * x * y + b * math.sin(x) + d
    (vs, faces), _ = call(ctx, L.surfplot3Dvertandsurface, x1, y1, x2, y2, step, fn)
    what = f'surface {x1, y1, x2, y2} step {step}'
    ctx.observe('surface', x1, y1, x2, y2, step)
    xs, ys = list(range(x1, x2, step)), list(range(y1, y2, step))
    ctx.eq(sorted(map(tuple, vs)), sorted((x, y, a * x * y + b * math.sin(x) + d) for x in xs for y in ys), 'surface-points', what)
    got = []
    for f in faces:
        ctx.eq(len(f), 4, 'surface-face', what)
        p = [tuple(vs[i][:2]) for i in f]
        k = p.index(min(p))
        got.append(tuple(p[k:] + p[:k]))
    want = [((x, y), (x, y + step), (x + step, y + step), (x + step, y)) for x in xs[:-1] for y in ys[:-1]]
    ctx.eq(sorted(got), sorted(want), 'surface-faces', what)


def st_parts(ctx, rng):
    """the helpers by themselves"""
    n = rng.randint(1, 30)
    zs = [rng.choice((rng.randint(-3, 3), rng.uniform(-1, 1))) for _ in range(rng.randint(1, 5))]
    vs = [[i, rng.randint(-3, 3), rng.choice(zs)] for i in range(n)]
    got, _ = call(ctx, L.zlevelcoords if hasattr(L, 'zlevelcoords') else S.zlevelcoords, vs)
    ctx.observe('levels', n, tuple(zs))
    order = list(dict.fromkeys(v[2] for v in vs))
    ctx.eq(list(got[0]), order, 'levels', str(vs))
    ctx.eq(dict(got[1]), {z: [i for i, v in enumerate(vs) if v[2] == z] for z in order}, 'levels', str(vs))
    ps = [[rng.uniform(-9, 9) for _ in 'xyz'] for _ in range(3)]
    t = S.surfacetest(*ps)
    want = -dot(ps[0], cross(ps[1], ps[2]))
    ctx.check(abs(t - want) < 1e-9, 'surfacetest', f'{ps}: {t}, wanted {want}')


STAGES = [Stage('basic', st_basic, 60), Stage('sphere', st_sphere, 25), Stage('round', st_round, 30), Stage('surface', st_surface, 40), Stage('parts', st_parts, 60)]
