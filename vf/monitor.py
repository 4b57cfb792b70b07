"""API-boundary monitors.

call(): runs one library call with stdout captured and watches that no
argument other than the image is changed.  InPlace: snapshot of an image
before a call and the comparison afterwards: buffer length, header, palette,
padding canaries, pixels."""
import copy
import time
from array import array
from . import model
from .core import Violation, quiet, short


ATOM = (int, float, complex, bool, str, bytes, type(None))


def twin(o, memo):
    """an independent copy; what was shared inside stays shared"""
    t = type(o)
    if t in ATOM:
        return o
    k = id(o)
    if k in memo:
        return memo[k][0]
    if t is list:
        c = []
        memo[k] = (c, o)
        c += [x if type(x) in ATOM else twin(x, memo) for x in o]
    elif t is array:
        c = o[:]
    elif t is tuple:
        c = tuple([x if type(x) in ATOM else twin(x, memo) for x in o])
    elif t is dict:
        c = {x: twin(y, memo) for x, y in o.items()}
    elif callable(o):
        c = o
    else:
        c = copy.deepcopy(o)
    memo[k] = (c, o)
    return c


def spoil(o, sparing):
    """overwrites every list, array and dict in o: whoever still uses them will show"""
    t = type(o)
    if t in ATOM or id(o) in sparing:
        return
    sparing[id(o)] = o
    if t is tuple:
        for x in o:
            spoil(x, sparing)
    elif t is list:
        for x in o:
            if type(x) not in ATOM:
                spoil(x, sparing)
        o[:] = [-77] * (len(o) + 1)
    elif t is array:
        for i in range(len(o)):
            o[i] = 0x5a
        o.append(0x5a)
    elif t is dict:
        for x in o.values():
            spoil(x, sparing)
        o.clear()


def alike(a, b):
    return a == b or repr(a) == repr(b)


def call(ctx, fn, *args, mutates=(0,), **kw):
    """Runs one call of the library.  Returns (result, printed text).

    Arguments that the call may change (mutates) are passed as they are, of all others the
    library gets a copy which must come back unchanged.  In every other case the copies and
    the result are overwritten once the result is copied, so an object that the library
    keeps or hands out twice shows in a later call."""
    memo, rev = {}, {}
    use = list(args)
    for i, a in enumerate(args):
        if i not in mutates and type(a) in (list, tuple, array, dict):
            use[i] = twin(a, memo)
            rev[id(use[i])] = a
    h = ctx.history
    old = h.before(fn, use, kw, mutates) if h else None
    took = time.perf_counter()
    with quiet() as out:
        res = fn(*use, **kw)
    took = time.perf_counter() - took
    ctx.count('calls_monitored')
    ctx.count(f'call.{getattr(fn, "__name__", "?")}')
    for i, a in enumerate(args):
        if use[i] is not a and not alike(use[i], a):
            raise Violation('argument-changed',
                            f'{fn.__name__} changed argument {i}: {short(a)} -> {short(use[i])}')
    if id(res) in rev:
        return rev[id(res)], out.getvalue()
    if type(res) in (list, tuple, array, dict) and (h is None or h.dirty):
        sparing = {id(a): a for i, a in enumerate(args) if use[i] is a}
        keep = twin(res, {k: (a, a) for k, a in sparing.items()})
        spoil(res, sparing)
        for i, a in enumerate(args):
            if use[i] is not a:
                spoil(use[i], sparing)
        res = keep
        ctx.count('results_overwritten')
    if old is not None:
        h.after(fn, old, kw, mutates, took)
    return res, out.getvalue()


def argdesc(fn, args):
    return f'{fn.__name__}{short(tuple("<img>" if isinstance(a, type(model.array("B"))) else a for a in args), 260)}'


class InPlace:
    def __init__(self, ctx, buf):
        self.ctx, self.buf = ctx, buf
        self.raw = bytes(buf)
        self.img = model.decode(buf)
        self.hdr, self.palb, self.pads = model.parts(buf)

    def after(self, what, header=True, pal=True, pads=True):
        ctx, buf = self.ctx, self.buf
        ctx.count('snapshots')
        if len(buf) != len(self.raw):
            raise Violation('buffer-length', f'{what}: buffer {len(self.raw)} -> {len(buf)} bytes '
                            f'({self.img.w}x{self.img.h}x{self.img.bits})')
        h, p, d = bytes(buf[:54]), None, None
        if header and h != self.hdr:
            raise Violation('header', f'{what}: header changed {self.hdr.hex()} -> {h.hex()}')
        try:
            now = model.decode(buf)
        except model.Bad as e:
            raise Violation('layout', f'{what}: {e}')
        h, p, d = model.parts(buf)
        if pal and p != self.palb:
            i = next(i for i in range(len(p)) if p[i] != self.palb[i])
            raise Violation('palette', f'{what}: palette byte {i} changed '
                            f'{self.palb[i]} -> {p[i]}')
        if pads and d != self.pads:
            r = next(i for i in range(len(d)) if d[i] != self.pads[i])
            raise Violation('padding', f'{what}: padding of stored row {r} changed '
                            f'{self.pads[r].hex()} -> {d[r].hex()} '
                            f'({self.img.w}x{self.img.h}x{self.img.bits})')
        return now


def changed(before, after):
    return {(x, y) for y in range(before.h) for x in range(before.w)
            if before.px[y][x] != after.px[y][x]}


def compare_px(what, got, want, mech='pixels'):
    if (got.w, got.h, got.bits) != (want.w, want.h, want.bits):
        raise Violation(mech, f'{what}: got {got.w}x{got.h}x{got.bits} '
                        f'want {want.w}x{want.h}x{want.bits}')
    if got.px != want.px:
        bad = [(x, y, got.px[y][x], want.px[y][x]) for y in range(got.h)
               for x in range(got.w) if got.px[y][x] != want.px[y][x]]
        raise Violation(mech, f'{what} on {got.w}x{got.h}x{got.bits}: {len(bad)} pixels wrong, '
                        f'first (x,y,got,want) {bad[:6]}')
    if got.pal != want.pal:
        i = next(i for i in range(len(got.pal)) if got.pal[i] != want.pal[i])
        raise Violation(mech + '-palette', f'{what}: palette entry {i} got {got.pal[i]} '
                        f'want {want.pal[i]}')
