"""Images for the workloads: encoders for several file formats (written here,
independently of the tool's decoders), generators of pictures and animations
whose decoded pixels are known by construction, and the model of the VMU's
formats."""
import struct
import zlib
from fractions import Fraction

CLEAR = (0, 0, 0, 0)


class Picture:
    """An encoded image with what it decodes to: frames are [delay, rows], the
    delay a Fraction in ms or None for no animation."""

    def __init__(self, ext, data, frames, how):
        self.ext, self.data, self.frames, self.how = ext, data, frames, how

    @property
    def rows(self):
        return [rows for _, rows in self.frames]

    @property
    def size(self):
        rows = self.frames[0][1]
        return len(rows[0]), len(rows)

    def key(self):
        return self.data


# --- PNG ----------------------------------------------------------------

def _chunk(kind, data):
    return struct.pack('>I', len(data)) + kind + data + struct.pack('>I', zlib.crc32(kind + data))


def _paeth(a, b, c):
    p = a + b - c
    pa, pb, pc = abs(p - a), abs(p - b), abs(p - c)
    return a if pa <= pb and pa <= pc else b if pb <= pc else c


def _filtered(lines, bpp, filters):
    body = bytearray()
    prev = bytes(len(lines[0])) if lines else b''
    for y, line in enumerate(lines):
        f = filters[y % len(filters)]
        body.append(f)
        if f == 0:
            body += line
        else:
            for i, v in enumerate(line):
                a = line[i - bpp] if i >= bpp else 0
                b = prev[i]
                c = prev[i - bpp] if i >= bpp else 0
                body.append((v - (a, b, (a + b) >> 1, _paeth(a, b, c))[f - 1]) & 255)
        prev = line
    return bytes(body)


def _bits(values, depth):
    out, acc, n = bytearray(), 0, 0
    for v in values:
        acc, n = (acc << depth) | v, n + depth
        if n == 8:
            out.append(acc)
            acc, n = 0, 0
    if n:
        out.append((acc << (8 - n)) & 255)
    return bytes(out)


ADAM7 = [(0, 0, 8, 8), (4, 0, 8, 8), (0, 4, 4, 8), (2, 0, 4, 4), (0, 2, 2, 4), (1, 0, 2, 2), (0, 1, 1, 2)]


class PngCoder:
    """Encodes pixel rows for one of the modes."""

    def __init__(self, mode, depth=8, colours=None, filters=(0,), level=1):
        self.mode, self.depth, self.filters, self.level = mode, depth, filters, level
        self.colours = colours
        self.index = {c: i for i, c in enumerate(colours)} if colours else None
        self.channels, self.ctype = {'rgba': (4, 6), 'rgb': (3, 2), 'gray': (1, 0), 'graya': (2, 4),
                                     'palette': (1, 3)}[mode]
        self.bpp = max(1, self.channels * depth // 8)

    def line(self, row):
        d = self.depth
        if self.mode == 'palette':
            vals = [self.index[c] for c in row]
            return bytes(vals) if d == 8 else _bits(vals, d)
        if d < 8:
            # gray: the value scaled down exactly
            return _bits([c[0] * ((1 << d) - 1) // 255 for c in row], d)
        pick = {'rgba': lambda c: c, 'rgb': lambda c: c[:3], 'gray': lambda c: c[:1], 'graya': lambda c: (c[0], c[3])}
        flat = [v for c in row for v in pick[self.mode](c)]
        if d == 16:
            return b''.join(struct.pack('>H', v * 257) for v in flat)
        return bytes(flat)

    def data(self, rows, interlace=False):
        if not interlace:
            body = _filtered([self.line(r) for r in rows], self.bpp, self.filters)
        else:
            body = b''
            for x0, y0, dx, dy in ADAM7:
                lines = [r[x0::dx] for r in rows[y0::dy]]
                lines = [self.line(r) for r in lines if r]
                if lines:
                    body += _filtered(lines, self.bpp, self.filters)
        return zlib.compress(body, self.level)

    def header(self, w, h, interlace=False):
        out = b'\x89PNG\r\n\x1a\n' + _chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, self.depth, self.ctype, 0, 0,
                                                                int(interlace)))
        return out

    def palette(self):
        if self.mode != 'palette':
            return b''
        out = _chunk(b'PLTE', b''.join(bytes(c[:3]) for c in self.colours))
        if any(c[3] != 255 for c in self.colours):
            out += _chunk(b'tRNS', bytes(c[3] for c in self.colours))
        return out


def _distinct(frames):
    return list(dict.fromkeys(c for rows in frames for row in rows for c in row))


def png_modes(colours):
    """The PNG colour modes (mode, depth) that hold these colours exactly."""
    modes = [('rgba', 8), ('rgba', 16)]
    opaque = all(c[3] == 255 for c in colours)
    gray = all(c[0] == c[1] == c[2] for c in colours)
    if opaque:
        modes += [('rgb', 8), ('rgb', 16)]
    if gray:
        modes += [('graya', 8), ('graya', 16)]
        if opaque:
            modes += [('gray', 8)] * 2 + [('gray', 16)]
            for d in (1, 2, 4):
                if all(c[0] % (255 // ((1 << d) - 1)) == 0 for c in colours):
                    modes += [('gray', d)] * 3
    if len(colours) <= 256:
        modes += [('palette', 8)] * 3
        for d in (1, 2, 4):
            if len(colours) <= 1 << d:
                modes += [('palette', d)] * 2
    return modes


def png(rng, rows, mode=None):
    h, w = len(rows), len(rows[0])
    colours = _distinct([rows])
    m, d = mode or rng.choice(png_modes(colours))
    interlace = rng.random() < 0.2
    if m == 'palette':
        colours = list(colours)
        # unused entries, in any order
        while len(colours) < min(1 << d, 256) and rng.random() < 0.4:
            c = tuple(rng.randrange(256) for _ in range(4))
            if c not in colours:
                colours.append(c)
        rng.shuffle(colours)
    coder = PngCoder(m, d, colours, [rng.randrange(5) for _ in range(rng.choice([1, 1, 7]))], rng.choice([0, 1, 9]))
    data = coder.data(rows, interlace)
    n = max(1, len(data) // rng.choice([1, 1, 3]) + 1)
    parts = [data[i:i + n] for i in range(0, len(data), n)]
    extra = _chunk(b'tEXt', b'Comment\0some text') if rng.random() < 0.2 else b''
    out = (coder.header(w, h, interlace) + extra + coder.palette() + b''.join(_chunk(b'IDAT', p) for p in parts) +
           _chunk(b'IEND', b''))
    return Picture(rng.choice(['.png'] * 4 + ['.PNG']), out, [(None, rows)], 'png %s %d%s' % (m, d, ' interlaced' * interlace))


def _blank(w, h):
    return [[CLEAR] * w for _ in range(h)]


# numbers of frames
MANY = [10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300]


def apng(rng, w, h, cells, n):
    """An animation of n frames; `cells(w, h)` gives rows of pixels."""
    frames, out, seq = [], [], 0
    canvas = _blank(w, h)
    coder = PngCoder('rgba', 8, None, [rng.randrange(5)], 1)
    thumbnail = rng.random() < 0.2
    if thumbnail:
        out.append(_chunk(b'IDAT', coder.data(cells(w, h))))
    previous_ok = True
    for k in range(n):
        first = k == 0
        if first or rng.random() < 0.4:
            x0, y0, fw, fh = 0, 0, w, h
        else:
            fw, fh = rng.randrange(1, w + 1), rng.randrange(1, h + 1)
            x0, y0 = rng.randrange(w - fw + 1), rng.randrange(h - fh + 1)
        rows = cells(fw, fh)
        over = rng.random() < 0.4 and all(c[3] in (0, 255) for row in rows for c in row)
        full = (fw, fh) == (w, h)
        dispose = rng.choice([0, 0, 1 if full else 0, 2 if previous_ok else 0])
        num, den = (rng.choice([0, 1, 5, 100, 255, 256, 300, 32768, 65535, rng.randrange(65536)]),
                    rng.choice([0, 1, 7, 100, 255, 256, 1000, 65535, rng.randrange(65536)]))
        fctl = struct.pack('>IIIIIHHBB', seq, fw, fh, x0, y0, num, den, dispose, int(over))
        seq += 1
        out.append(_chunk(b'fcTL', fctl))
        data = coder.data(rows)
        if first and not thumbnail:
            out.append(_chunk(b'IDAT', data))
        else:
            out.append(_chunk(b'fdAT', struct.pack('>I', seq) + data))
            seq += 1
        shown = [list(r) for r in canvas]
        for y, row in enumerate(rows):
            for x, c in enumerate(row):
                if not (over and c[3] == 0):
                    shown[y0 + y][x0 + x] = c
        frames.append((Fraction(num * 1000, den or 100), shown))
        if dispose == 0:
            canvas = shown
        elif dispose == 1:
            canvas = _blank(w, h)
        # The decoder keeps no canvas to go back to behind a cleared one.
        previous_ok = dispose != 1
    body = coder.header(w, h) + _chunk(b'acTL', struct.pack('>II', n, 0)) + b''.join(out) + _chunk(b'IEND', b'')
    return Picture(rng.choice(['.png'] * 5 + ['.PNG']), body, frames, 'apng' + ' thumbnail' * thumbnail)


# --- GIF ----------------------------------------------------------------

def _lzw(indices, depth):
    """GIF's LZW, codes packed least significant bit first."""
    clear, end = 1 << depth, (1 << depth) + 1
    out, acc, nbits = bytearray(), 0, 0
    size, table, nxt = depth + 1, {}, end + 1

    def emit(code):
        nonlocal acc, nbits
        acc |= code << nbits
        nbits += size
        while nbits >= 8:
            out.append(acc & 255)
            acc >>= 8
            nbits -= 8

    emit(clear)
    prefix = None
    for i in indices:
        if prefix is None:
            prefix = i
            continue
        key = (prefix, i)
        if key in table:
            prefix = table[key]
            continue
        emit(prefix)
        if nxt < 4096:
            table[key] = nxt
            if nxt == 1 << size and size < 12:
                size += 1
            nxt += 1
        else:
            emit(clear)
            size, table, nxt = depth + 1, {}, end + 1
        prefix = i
    if prefix is not None:
        emit(prefix)
        # the decoder adds an entry behind this code too
        if nxt == 1 << size and size < 12:
            size += 1
    emit(end)
    if nbits:
        out.append(acc & 255)
    blocks = b''.join(bytes([len(out[i:i + 255])]) + bytes(out[i:i + 255]) for i in range(0, len(out), 255))
    return bytes([depth]) + blocks + b'\0'


def gif(rng, w, h, palette, cells, n, ext=None):
    """An animation; `cells(w, h)` gives rows of colours of the palette or CLEAR."""
    opaque = [c for c in palette if c != CLEAR]
    assert len(opaque) <= 255
    out = b'GIF89a'
    glob = rng.random() < 0.6
    colours = list(opaque) or [(1, 2, 3, 255)]
    rng.shuffle(colours)
    transparent = len(colours)
    depth = 1
    while 1 << depth < len(colours) + 1:
        depth += 1
    table = b''.join(bytes(c[:3]) for c in colours) + bytes(3 * ((1 << depth) - len(colours)))
    out += struct.pack('<HHBBB', w, h, (0x80 | (depth - 1)) if glob else 0x70, 0, 0)
    if glob:
        out += table
    if n > 1 and rng.random() < 0.7:
        out += b'\x21\xff\x0bNETSCAPE2.0\x03\x01\0\0\0'
    canvas = _blank(w, h)
    frames = []
    for k in range(n):
        if k == 0 and rng.random() < 0.8 or rng.random() < 0.4:
            x0, y0, fw, fh = 0, 0, w, h
        else:
            fw, fh = rng.randrange(1, w + 1), rng.randrange(1, h + 1)
            x0, y0 = rng.randrange(w - fw + 1), rng.randrange(h - fh + 1)
        rows = cells(fw, fh)
        used = any(c == CLEAR for row in rows for c in row)
        dispose = rng.choice([0, 1, 1, 2, 2, 3])
        delay = rng.choice([0, 1, 10, 255, 256, 65535, rng.randrange(65536)])
        if used or dispose > 1 or delay or rng.random() < 0.5:
            out += b'\x21\xf9\x04' + struct.pack('<BHBB', dispose << 2 | int(used), delay, transparent if used else 0, 0)
        else:
            delay, dispose = 0, 0
        interlaced = rng.random() < 0.2
        local = not glob or rng.random() < 0.3
        out += b'\x2c' + struct.pack('<HHHHB', x0, y0, fw, fh, (0x80 | (depth - 1) if local else 0) | 0x40 * interlaced)
        if local:
            out += table
        order = list(range(fh)) if not interlaced else \
            list(range(0, fh, 8)) + list(range(4, fh, 8)) + list(range(2, fh, 4)) + list(range(1, fh, 2))
        index = {c: i for i, c in enumerate(colours)}
        index[CLEAR] = transparent
        out += _lzw([index[c] for y in order for c in rows[y]], max(2, depth))
        shown = [list(r) for r in canvas]
        for y, row in enumerate(rows):
            for x, c in enumerate(row):
                if c != CLEAR:
                    shown[y0 + y][x0 + x] = c
        frames.append((Fraction(delay * 10), shown))
        if dispose in (0, 1):
            canvas = shown
        elif dispose == 2:
            canvas = [list(r) for r in shown]
            for y in range(fh):
                for x in range(fw):
                    canvas[y0 + y][x0 + x] = CLEAR
    return Picture(ext or rng.choice(['.gif'] * 5 + ['.GIF', '.Gif']), out + b'\x3b', frames, 'gif')


# --- Others -------------------------------------------------------------

def bmp(rng, rows):
    h, w = len(rows), len(rows[0])
    lines = []
    for row in reversed(rows):
        line = b''.join(bytes((c[2], c[1], c[0])) for c in row)
        lines.append(line + bytes(-len(line) % 4))
    body = b''.join(lines)
    return Picture(rng.choice(['.bmp', '.BMP']), b'BM' + struct.pack('<IHHI', 54 + len(body), 0, 0, 54) +
                   struct.pack('<IiiHHIIiiII', 40, w, h, 1, 24, 0, len(body), 0, 0, 0, 0) + body, [(None, rows)], 'bmp')


def ppm(rng, rows):
    h, w = len(rows), len(rows[0])
    return Picture('.ppm', b'P6\n%d %d\n255\n' % (w, h) + b''.join(bytes(c[:3]) for r in rows for c in r),
                   [(None, rows)], 'ppm')


def pgm(rng, rows):
    h, w = len(rows), len(rows[0])
    return Picture('.pgm', b'P5\n%d %d\n255\n' % (w, h) + bytes(c[0] for r in rows for c in r), [(None, rows)], 'pgm')


def tga(rng, rows):
    h, w = len(rows), len(rows[0])
    return Picture('.tga', struct.pack('<BBBHHBHHHHBB', 0, 0, 2, 0, 0, 0, 0, 0, w, h, 32, 0x28) +
                   b''.join(bytes((c[2], c[1], c[0], c[3])) for r in rows for c in r), [(None, rows)], 'tga')


def still(rng, rows):
    colours = _distinct([rows])
    kinds = ['png'] * 8 + ['tga']
    if all(c[3] == 255 for c in colours):
        kinds += ['bmp', 'ppm']
        if all(c[0] == c[1] == c[2] for c in colours):
            kinds += ['pgm']
    if len([c for c in colours if c != CLEAR]) <= 255 and all(c[3] == 255 or c == CLEAR for c in colours):
        kinds += ['gif'] * 3
    k = rng.choice(kinds)
    if k == 'gif':
        return still_gif(rng, rows, colours)
    return {'png': png, 'bmp': bmp, 'ppm': ppm, 'pgm': pgm, 'tga': tga}[k](rng, rows)


def still_gif(rng, rows, colours):
    h, w = len(rows), len(rows[0])
    queue = [rows]

    def cells(fw, fh):
        r = queue[0]
        return [row[:fw] for row in r[:fh]]

    while True:
        p = gif(rng, w, h, colours, cells, 1)
        if p.frames[0][1] == rows:
            return p


# --- Pictures -----------------------------------------------------------

EDGES = sorted({v for k in range(16) for v in (17 * k - 9, 17 * k - 8, 17 * k, 17 * k + 8, 17 * k + 9) if 0 <= v <= 255} |
               {0, 1, 127, 128, 254, 255})


def tie(c):
    """Whether the colour's gray lies exactly between dark and light."""
    return 30 * c[0] + 59 * c[1] + 11 * c[2] == 12750


def colour(rng, alpha):
    style = rng.random()
    if style < 0.4:
        c = [rng.choice(EDGES) for _ in range(3)]
    elif style < 0.8:
        c = [rng.randrange(256) for _ in range(3)]
    elif style < 0.9:
        c = [rng.randrange(120, 136)] * 3
    else:
        c = [rng.choice([0, 127, 128, 255])] * 3
    a = 255
    if alpha == 'any' and rng.random() < 0.6:
        a = rng.choice([0, 1, 126, 127, 128, 129, 254, rng.choice(EDGES), rng.randrange(256)])
    elif alpha == 'binary' and rng.random() < 0.2:
        return CLEAR
    c = tuple(c) + (a,)
    return c if not tie(c) else (255, 255, 255, a)


def q(c):
    """The colour in the VMU's ARGB4444: each channel the nearest of the 16 levels."""
    r, g, b, a = ((v * 30 + 255) // 510 for v in c)
    return a << 12 | r << 8 | g << 4 | b


def colours(rng, count, alpha='any', spread=True):
    """`count` colours of different quantised values, and variants that
    quantise to the same as one of them when not spread."""
    out, seen = [], set()
    tries = 0
    while len(out) < count and tries < 20000:
        tries += 1
        c = colour(rng, alpha)
        if q(c) in seen:
            continue
        seen.add(q(c))
        out.append(c)
    if not spread:
        for c in list(out):
            v = tuple(min(255, max(0, x + rng.randrange(-4, 5))) for x in c)
            if alpha != 'any':
                v = v[:3] + (c[3],)
            if c != CLEAR and q(v) == q(c) and v not in out and not tie(v):
                out.append(v)
    return out


def fill(rng, w, h, palette):
    style = rng.random()
    if style < 0.4:
        return [[rng.choice(palette) for _ in range(w)] for _ in range(h)]
    if style < 0.7:
        # runs
        out, c = [], rng.choice(palette)
        for _ in range(h):
            row = []
            for _ in range(w):
                if rng.random() < 0.15:
                    c = rng.choice(palette)
                row.append(c)
            out.append(row)
        return out
    if style < 0.85:
        # every colour in order, cyclically
        return [[palette[(y * w + x) % len(palette)] for x in range(w)] for y in range(h)]
    # mostly one colour; the others each once, at the very end
    flat = [palette[0]] * (w * h)
    for i, c in enumerate(palette[1:]):
        if i < w * h:
            flat[-1 - i] = c
    return [flat[y * w:(y + 1) * w] for y in range(h)]


def animation(rng, w, h, palette, n):
    """An animated image (or one with a single frame) of the palette's colours."""
    if all(c[3] == 255 or c == CLEAR for c in palette) and len(palette) <= 200 and rng.random() < 0.6:
        return gif(rng, w, h, palette, lambda fw, fh: fill(rng, fw, fh, palette), n)
    return apng(rng, w, h, lambda fw, fh: fill(rng, fw, fh, palette), n)


def late(rng, w, h, palette, n):
    """An animation in which colours appear late: the palette grows."""
    p = rng.randrange(1, n + 1)
    drawn = [0]

    def cells(fw, fh):
        drawn[0] += 1
        return fill(rng, fw, fh, palette[:max(1, len(palette) // 2)] if drawn[0] < p else palette)

    if all(c[3] == 255 or c == CLEAR for c in palette) and len(palette) <= 200 and rng.random() < 0.6:
        return gif(rng, w, h, palette, cells, n)
    return apng(rng, w, h, cells, n)


# --- The VMU's formats --------------------------------------------------

def quantised(frames):
    return [[[q(c) for c in row] for row in rows] for rows in frames]


def sprite(frames, masked, header):
    """The bytes of the frames as a sprite, or None if it can't have a header."""
    out = bytearray()
    for rows in frames:
        h, w = len(rows), len(rows[0])
        if header:
            if w > 255 or h > 255:
                return None
            out += bytes((w, h))
        for fill_bit, bit in ([(1, lambda c: c[3] < 128)] if masked else []) + \
                [(0, lambda c: 2 * (30 * c[0] + 59 * c[1] + 11 * c[2]) < 25500)]:
            for row in rows:
                bits = [int(bit(c)) for c in row]
                bits += [fill_bit] * (-len(bits) % 8)
                out += _bits(bits, 1)
    return bytes(out)


class BadIcon(Exception):
    pass


def check_icon(data, icon, speed, eyecatch):
    """Compares an icon header's bytes with the images; returns what is wrong
    or None. `data` must have the exact length."""
    frames = quantised(icon.rows)
    n = len(frames)
    words = lambda p, k: struct.unpack_from('<%dH' % k, data, p)  # noqa: E731
    want = icon_length(icon, eyecatch)
    if len(data) != want:
        return 'length %d instead of %d' % (len(data), want)
    typ = eyecatch_type(eyecatch)
    head = words(0, 6)
    if head != (n, speed, typ, 0, 0, 0):
        return 'header words %s instead of %s' % (head, (n, speed, typ, 0, 0, 0))
    if any(data[12:32]):
        return 'reserved bytes are not zero'
    palette = words(32, 16)
    p = 64
    for k, rows in enumerate(frames):
        for y, row in enumerate(rows):
            for x, v in enumerate(row):
                i = data[p + x // 2] >> (4 if x % 2 == 0 else 0) & 15
                if palette[i] != v:
                    return 'frame %d, pixel (%d, %d): colour $%04X instead of $%04X' % (k, x, y, palette[i], v)
            p += 16
    if eyecatch is not None:
        rows = quantised(eyecatch.rows[:1])[0]
        if typ == 3:
            palette = words(p, 16)
            p += 32
        elif typ == 2:
            palette = words(p, 256)
            p += 512
        for y, row in enumerate(rows):
            for x, v in enumerate(row):
                if typ == 3:
                    got = palette[data[p + x // 2] >> (4 if x % 2 == 0 else 0) & 15]
                elif typ == 2:
                    got = palette[data[p + x]]
                else:
                    got = words(p + 2 * x, 1)[0]
                if got != v:
                    return 'eyecatch pixel (%d, %d): colour $%04X instead of $%04X' % (x, y, got, v)
            p += {3: 36, 2: 72, 1: 144}[typ]
    return None


def eyecatch_type(eyecatch):
    if eyecatch is None:
        return 0
    n = len({v for row in quantised(eyecatch.rows[:1])[0] for v in row})
    return 3 if n <= 16 else 2 if n <= 256 else 1


def icon_length(icon, eyecatch):
    return 64 + 512 * len(icon.frames) + {0: 0, 3: 32 + 2016, 2: 512 + 4032, 1: 8064}[eyecatch_type(eyecatch)]


def icon_ok(icon, eyecatch):
    """Whether the images make an icon header."""
    used = {v for rows in quantised(icon.rows) for row in rows for v in row}
    return (len(used) <= 16 and icon.size == (32, 32) and (eyecatch is None or eyecatch.size == (72, 56)))
