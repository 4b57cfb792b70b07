"""Independent reference model of the images: a decoder / encoder of the file
layout written from the BMP format, and images as plain rows of pixel values.
Nothing here calls the library."""
import struct
from array import array

BITS = (1, 4, 8, 24)
PALN = {1: 2, 4: 16, 8: 256, 24: 0}
HDR = {b: 54 + 4 * n for b, n in PALN.items()}


def rowbytes(w, bits):
    return ((w * bits + 31) // 32) * 4


def usedbits(w, bits):
    return w * bits


class Img:
    """px[y][x], y counted from the top; 24 bit pixels are 0xRRGGBB."""
    __slots__ = ('w', 'h', 'bits', 'pal', 'px')

    def __init__(self, w, h, bits, pal=None, px=None):
        self.w, self.h, self.bits = w, h, bits
        self.pal = pal if pal is not None else [(0, 0, 0)] * PALN[bits]
        self.px = px if px is not None else [[0] * w for _ in range(h)]

    def copy(self):
        return Img(self.w, self.h, self.bits, list(self.pal), [r[:] for r in self.px])

    def same(self, o):
        return (self.w, self.h, self.bits, self.pal, self.px) == \
            (o.w, o.h, o.bits, o.pal, o.px)

    def rgb(self, x, y):
        v = self.px[y][x]
        if self.bits == 24:
            return (v >> 16, (v >> 8) & 255, v & 255)
        return self.pal[v]

    def key(self):
        return (self.w, self.h, self.bits, tuple(map(tuple, self.px)))


class Bad(Exception):
    pass


def decode(buf):
    b = bytes(buf)
    if len(b) < 54:
        raise Bad(f'only {len(b)} bytes')
    if b[:2] != b'BM':
        raise Bad(f'magic {b[:2]!r}')
    fsize, _, off = struct.unpack_from('<III', b, 2)
    bisz, w, h, planes, bits, comp = struct.unpack_from('<IiiHHI', b, 14)
    if bits not in BITS:
        raise Bad(f'bit depth {bits}')
    if bisz != 40:
        raise Bad(f'info header size {bisz}')
    if comp != 0:
        raise Bad(f'compression {comp}')
    if off != HDR[bits]:
        raise Bad(f'data offset {off} want {HDR[bits]}')
    if w < 1 or h < 1:
        raise Bad(f'dimensions {w}x{h}')
    rb = rowbytes(w, bits)
    if fsize != off + rb * h:
        raise Bad(f'file size field {fsize} want {off + rb * h}')
    if len(b) != fsize:
        raise Bad(f'length {len(b)} want {fsize} ({w}x{h}x{bits})')
    pal = [(b[54 + 4 * i + 2], b[54 + 4 * i + 1], b[54 + 4 * i])
           for i in range(PALN[bits])]
    px = []
    for y in range(h):
        o = off + (h - 1 - y) * rb
        row = b[o:o + rb]
        if bits == 24:
            px.append([row[3 * x] | row[3 * x + 1] << 8 | row[3 * x + 2] << 16
                       for x in range(w)])
        elif bits == 8:
            px.append(list(row[:w]))
        elif bits == 4:
            px.append([(row[x >> 1] >> (0 if x & 1 else 4)) & 15 for x in range(w)])
        else:
            px.append([(row[x >> 3] >> (7 - (x & 7))) & 1 for x in range(w)])
    return Img(w, h, bits, pal, px)


def padmask_rows(w, bits):
    """bytes mask of one row: bits set where the row stores no pixel."""
    rb = rowbytes(w, bits)
    m = bytearray(b'\xff' * rb)
    n = w * bits
    for i in range(n // 8):
        m[i] = 0
    if n % 8:
        m[n // 8] = 0xff >> (n % 8)
    return bytes(m)


def encode(img, rng=None, canary=True):
    """The file image of img.  With rng, padding and the unused header fields
    hold random canary values (legal in the format)."""
    w, h, bits = img.w, img.h, img.bits
    rb = rowbytes(w, bits)
    off = HDR[bits]
    out = bytearray(off + rb * h)
    out[:2] = b'BM'
    struct.pack_into('<III', out, 2, len(out), 0, off)
    struct.pack_into('<IiiHHI', out, 14, 40, w, h, 0, bits, 0)
    for i, (r, g, b) in enumerate(img.pal):
        out[54 + 4 * i:54 + 4 * i + 3] = bytes((b, g, r))
    for y in range(h):
        o = off + (h - 1 - y) * rb
        row = img.px[y]
        if bits == 24:
            for x, v in enumerate(row):
                out[o + 3 * x:o + 3 * x + 3] = bytes((v & 255, (v >> 8) & 255, v >> 16))
        elif bits == 8:
            out[o:o + w] = bytes(row)
        elif bits == 4:
            for x, v in enumerate(row):
                out[o + (x >> 1)] |= v << (0 if x & 1 else 4)
        else:
            for x, v in enumerate(row):
                out[o + (x >> 3)] |= v << (7 - (x & 7))
    if rng is not None and canary:
        mask = padmask_rows(w, bits)
        for y in range(h):
            o = off + y * rb
            for i, m in enumerate(mask):
                if m:
                    out[o + i] |= rng.randrange(256) & m
        for i in range(38, 46):      # resolution fields
            out[i] = rng.randrange(256)
        k = rng.randrange(4)        # what other programs write: planes 1, the size of the pixel data
        if k:
            out[26] = 1
        if k > 1:
            struct.pack_into('<I', out, 34, rb * h)
    return array('B', bytes(out))


def parts(buf):
    """header bytes, palette bytes, padding bits (one bytes per row)."""
    b = bytes(buf)
    bits = b[28]
    w, h = struct.unpack_from('<II', b, 18)
    off = HDR[bits]
    rb = rowbytes(w, bits)
    mask = padmask_rows(w, bits)
    pads = [bytes(v & m for v, m in zip(b[off + y * rb:off + (y + 1) * rb], mask) if m)
            for y in range(h)]
    return b[:54], b[54:off], pads
