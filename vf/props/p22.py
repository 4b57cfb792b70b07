"""P22 byte, bit, buffer, list, string and timing helpers."""
import inspect
import re
import time
from array import array
from pythonbmp import (inttools, buffersplit, bufferflip, bufresize, conditionaltools, dicttools, chartools, textgraphics, funcmeta,
                       proctimer, mathlib as M, fonts)
from .. import gen
from ..core import Stage
from ..monitor import call

PID = 'P22'
RULE = ('one case = one helper on one generated buffer, number, list or string; the result is compared with the definition worked out byte by byte; '
        'distinct = distinct (helper, input)')
ASSUMPTIONS = ['the incomplete last group of a buffer whose length is no multiple of the number of channels is left out',
               'packed rows whose pixels fill their bytes']


def barr(rng, n):
    return array('B', [rng.choice((0, 255, rng.randrange(256), rng.randrange(256))) for _ in range(n)])


def unpack(b, bits):
    if bits == 24:
        return [tuple(b[i:i + 3]) for i in range(0, len(b), 3)]
    n = 8 // bits
    return [v >> (8 - bits * (k + 1)) & ((1 << bits) - 1) for v in b for k in range(n)]


def st_int(ctx, rng):
    n = rng.choice((1, 2, 3, 4, 4, 8, rng.randint(1, 16)))
    v = rng.choice((0, 256 ** n - 1, rng.randrange(256 ** n), rng.randrange(256 ** n)))
    buf = barr(rng, rng.randint(n, 20))
    o = rng.randint(0, len(buf) - n)
    ctx.observe('int', n, v, o, bytes(buf))
    want = v.to_bytes(n, 'little')
    before = bytes(buf)
    big = v + 256 ** n * rng.choice((0, 0, 1, 77))
    call(ctx, inttools.writeint, o, n, buf, big, mutates=(2,))
    ctx.eq(bytes(buf), before[:o] + want + before[o + n:], 'write', f'{big:#x} as {n} bytes at {o}')
    ctx.eq(call(ctx, inttools.readint, o, n, buf, mutates=())[0], v, 'read', f'{n} bytes at {o} of {bytes(buf).hex()}')
    got = call(ctx, inttools.int2buf, n, big, mutates=())[0]
    ctx.check(type(got) is array and got.typecode == 'B' and bytes(got) == want, 'int2buf', f'{big:#x} as {n} bytes: {got}')
    ctx.eq(call(ctx, inttools.buf2int, array('B', want), mutates=())[0], v, 'buf2int', want.hex())
    s = ''.join(chr(rng.choice((0, 65, 255, rng.randrange(256)))) for _ in range(n))
    ctx.eq(call(ctx, chartools.char2int, s, mutates=())[0], int.from_bytes(s.encode('latin1'), 'little'), 'char2int', repr(s))


def st_split(ctx, rng):
    n = rng.choice((2, 2, 3, 3, 4, 5, 7, rng.randint(2, 40)))
    k = rng.choice((0, 1, 2, rng.randint(1, 30)))
    m = n * k + (rng.randrange(n) if rng.random() < .3 else 0)
    b = barr(rng, m)
    if rng.random() < .3:
        b = [[v] for v in b]
    ctx.observe('split', n, repr(b))
    want = [[b[g * n + c] for g in range(k)] for c in range(n)]
    fns = [(buffersplit.altsplitbufnway, (b, n))]
    if n == 2:
        fns.append((buffersplit.altsplitbuf, (b,)))
    if n == 3:
        fns.append((buffersplit.altsplitbuf3way, (b,)))
    for fn, a in fns:
        if k == 0 and m:
            continue
        got = call(ctx, fn, *a, mutates=())[0]
        ctx.eq([list(c) for c in got], want, 'split', f'{fn.__name__} {n} ways of {b}')


def st_flip(ctx, rng):
    bits = rng.choice((1, 4, 8, 24))
    b = barr(rng, gen.upto(rng, 1, 12, 90) * (3 if bits == 24 else 1))
    keep = array('B', b)
    ctx.observe('flip', bits, bytes(b))
    got = call(ctx, bufferflip.flipbuf, b, bits)[0]
    ctx.eq(unpack(got, bits), unpack(keep, bits)[::-1], 'flip', f'{bits} bit row {keep.tobytes().hex()}')
    ctx.check(type(got) is array and got.typecode == 'B', 'flip', f'{type(got)}')
    if bits == 24:
        ctx.eq(list(call(ctx, bufferflip.flip24bitbuf, array('B', keep))[0]), list(got), 'flip', '24 bit row')
    ctx.eq([unpack([v], 1) for v in call(ctx, bufferflip.rotatebitsinbuf, keep, mutates=())[0]], [unpack([v], 1)[::-1] for v in keep], 'bits',
           f'bits of {keep.tobytes().hex()}')
    ctx.eq([unpack([v], 4) for v in call(ctx, bufferflip.flipnibbleinbuf, keep, mutates=())[0]], [unpack([v], 4)[::-1] for v in keep], 'nibbles',
           f'nibbles of {keep.tobytes().hex()}')


def st_size(ctx, rng):
    bits = rng.choice((1, 4, 8, 24))
    b = barr(rng, gen.upto(rng, 1, 9, 90) * (3 if bits == 24 else 1))
    n = gen.upto(rng, 1, 6, 20)
    ctx.observe('size', bits, n, bytes(b))
    got = call(ctx, bufresize.resizebufNtimesbigger, b, n, bits, mutates=())[0]
    ctx.check(type(got) is array and got.typecode == 'B', 'bigger', f'{type(got)}')
    ctx.eq(unpack(got, bits), [p for p in unpack(b, bits) for _ in range(n)], 'bigger', f'{bits} bit row {bytes(b).hex()} {n} times')
    f = {1: bufresize.resize1bitbufNtimesbigger, 4: bufresize.resize4bitbufNtimesbigger, 8: bufresize.resize8bitbufNtimesbigger,
         24: bufresize.resize24bitbufNtimesbigger}[bits]
    ctx.eq(list(call(ctx, f, b, n, mutates=())[0]), list(got), 'bigger', f.__name__)
    ctx.eq(list(call(ctx, bufresize.unpack4bitbuf, b, mutates=())[0]), unpack(b, 4), 'unpack4', bytes(b).hex())
    ctx.eq(list(call(ctx, bufresize.pack4bitbuf, unpack(b, 4), mutates=())[0]), list(b), 'pack4', bytes(b).hex())
    ctx.eq(list(call(ctx, bufresize.unpack4bitbufresizeNtimesbigger, b, n, mutates=())[0]), [v for v in unpack(b, 4) for _ in range(n)], 'unpack4',
           f'{bytes(b).hex()} {n} times')
    ctx.eq(list(call(ctx, bufresize.packbitlisttobuf, unpack(b, 1), mutates=())[0]), list(b), 'pack1', bytes(b).hex())
    ctx.eq(list(call(ctx, bufresize.resizebitpattenNtimesbigger, b[0], n, mutates=())[0]), [v for v in unpack(b[:1], 1) for _ in range(n)], 'pattern',
           f'{b[0]:08b} {n} times')
    ctx.eq(list(M.enumbits(b[0])), unpack(b[:1], 1), 'enumbits', f'{b[0]:08b}')
    w = rng.choice((0, 1, 7, 8, 9, rng.randrange(5000)))
    ctx.eq(call(ctx, bufresize.adjustbufsize, w, bits, mutates=())[0], -(-w * bits // 8), 'row-bytes', f'{w} pixels of {bits} bits')
    x1 = rng.randrange(100)
    hdr = array('B', [0] * 54)
    hdr[28] = bits
    ctx.eq(call(ctx, bufresize.adjustxbufsize, hdr, x1, x1 + w, mutates=())[0], -(-(w + 1) * bits // 8), 'row-bytes', f'columns {x1} to {x1 + w} of {bits} bits')
    rows = [barr(rng, 3 * n * 4) for _ in range(n)]
    got = call(ctx, bufresize.resizesmaller24bitbuf, rows, mutates=())[0]
    ctx.check(len(got) == 12, 'smaller', f'{len(got)} bytes')
    for i in range(4):
        for c in range(3):
            s = sum(r[3 * (n * i + j) + c] for r in rows for j in range(n))
            ctx.check(abs(got[3 * i + c] - s / n ** 2) <= .5 + 1e-9, 'smaller', f'{n} rows {rows}: pixel {i} channel {c} is {got[3 * i + c]}, mean {s / n ** 2}')


def st_list(ctx, rng):
    a = [rng.randrange(256) for _ in range(gen.upto(rng, 1, 12, 300))]
    b = [rng.randrange(256) for _ in a]
    m = rng.randrange(256)
    ctx.observe('list', a, b, m)
    for f, w in ((M.xorvect, [x ^ y for x, y in zip(a, b)]), (M.andvect, [x & y for x, y in zip(a, b)]), (M.orvect, [x | y for x, y in zip(a, b)])):
        ctx.eq(list(call(ctx, f, a, b, mutates=())[0]), w, f.__name__, f'{a} {b}')
    ctx.eq(list(call(ctx, M.bitmaskvect, a, m, mutates=())[0]), [x & m for x in a], 'mask', f'{a} {m}')
    c = rng.random() < .5
    ctx.eq(conditionaltools.iif(c, a, b), a if c else b, 'iif', f'{c}')
    ctx.eq(tuple(conditionaltools.swapif(a, b, c)), (b, a) if c else (a, b), 'swapif', f'{c}')
    d = {k: v % 4 for k, v in zip(b, a)}
    ctx.eq([list(e) for e in call(ctx, dicttools.dict2descorderlist, d, mutates=())[0]], sorted(([v, k] for k, v in d.items()), reverse=True), 'dict', d)
    v = [[rng.randrange(9) for _ in range(gen.upto(rng, 0, 4, 12))] for _ in range(gen.upto(rng, 0, 4, 12))]
    ctx.eq(list(call(ctx, M.ravel2D, v, mutates=())[0]), [i for s in v for i in s], 'ravel', v)
    r, k = rng.randint(1, 4), rng.randint(1, 4)
    v = [[rng.randrange(99) for _ in range(k)] for _ in range(r)]
    ctx.eq([list(q) for q in call(ctx, M.pivotlist, v, mutates=())[0]], [[v[i][j] for i in range(r)] for j in range(k)], 'pivot', v)
    x = M.initmatrix(k, r, m)
    ctx.eq(x, [[m] * k for _ in range(r)], 'matrix', (k, r))
    x[0][0] = None
    ctx.check(sum(q is None for w in x for q in w) == 1, 'matrix', 'rows share their elements')


def st_text(ctx, rng):
    s = ''.join(rng.choice('ab\t\nX \xe9' if rng.index % 3 else 'ab\t\nX\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029\0') for _ in range(rng.choice((0, 1, 2, gen.upto(rng, 1, 30, 300)))))
    ctx.observe('text', s)
    ctx.eq(list(chartools.enumletters(s)), list(s), 'letters', repr(s))
    ctx.eq(list(chartools.enumreverseletters(s)), list(s)[::-1], 'reverse', repr(s))
    ls = s.replace('\t', '    ').split('\n')
    ctx.eq(list(call(ctx, textgraphics.computetextrowandcolcnt, s, mutates=())[0]), [max(map(len, ls)), len(ls)], 'text-size', repr(s))
    n = rng.randint(1, 14)
    font = [n] + [rng.randrange(256) for _ in range(n * 256)]
    if rng.random() < .3:
        font = rng.choice((fonts.font8x8, fonts.font8x14))
    h, c = font[0], rng.randrange(256)
    for f in (fonts.itergetcharfromfontbuf, fonts.getcharfont):
        ctx.eq(list(call(ctx, f, font, chr(c), mutates=())[0]), list(font[1 + c * h:1 + c * h + h]), 'font', f'letter {c}, {h} rows')


def st_time(ctx, rng):
    t = rng.choice((0, rng.randrange(10 ** 9), rng.randrange(10 ** 11), rng.randrange(10 ** 13), 3600 * 10 ** 9 * rng.randint(1, 120)))
    ctx.observe('time', t)
    s = proctimer.hhmmsselaspedtime(time.process_time_ns() - t)
    m = re.fullmatch(r'(\d\d+):(\d\d):(\d\d)\.(\d{9})', s)
    ctx.check(m is not None, 'time', f'{t} ns is {s!r}')
    h, mi, se, ns = map(int, m.groups())
    got = ((h * 60 + mi) * 60 + se) * 10 ** 9 + ns
    ctx.check(mi < 60 and se < 60 and 0 <= got - t < 5 * 10 ** 9, 'time', f'{t} ns is {s!r}')
    e = proctimer.elaspedtimeinseconds(time.process_time_ns() - t)
    ctx.check(0 <= e - t / 1e9 < 5, 'time', f'{t} ns is {e} seconds')

    def sample(a, b=2, *c, d: int = 4, **k):
        """Some text."""
        if d == 5:
            raise KeyError(a)
        print('inside')
        return [a, b, c, d, k]
    f = proctimer.functimer(sample)
    r, out = call(ctx, f, 1, 3, 7, d=9, z=t, mutates=())
    ctx.eq(r, [1, 3, (7,), 9, {'z': t}], 'timer', 'result')
    ctx.check(f.__name__ == 'sample' and f.__doc__ == 'Some text.', 'timer', 'name and text of the function')
    ls = out.splitlines()
    ctx.check(len(ls) == 3 and 'sample' in ls[0] and ls[1] == 'inside' and re.search(r'00:00:0\d\.\d{9}$', ls[2]), 'timer', repr(out))
    try:
        call(ctx, f, t, d=5, mutates=())
    except KeyError as e:
        ctx.eq(e.args, (t,), 'timer', 'exception')
    else:
        ctx.check(False, 'timer', 'exception lost')
    fn = rng.choice((sample, M.lerp, M.newtonmethod, fonts.itergetcharfromfontbuf))
    ctx.eq(call(ctx, funcmeta.getfuncmetastr, fn, mutates=())[0], f'def {fn.__name__}{inspect.signature(fn)}:\n    """{fn.__doc__}"""\n', 'meta', fn.__name__)


STAGES = [Stage('int', st_int, 60), Stage('split', st_split, 60), Stage('flip', st_flip, 60), Stage('size', st_size, 60), Stage('list', st_list, 60),
          Stage('text', st_text, 60), Stage('time', st_time, 20)]
