"""Encoders for the image formats used in the workloads (no dependencies)."""
import struct
import zlib


def _chunk(kind, data):
    return struct.pack('>I', len(data)) + kind + data + struct.pack('>I', zlib.crc32(kind + data))


def encode(w, h, rows, mode='rgba', level=1, filters=None):
    """A PNG of rows of (r, g, b, a) tuples. Modes: rgba, rgb, gray, graya, palette."""
    body = bytearray()
    extra = b''
    if mode == 'palette':
        colours = []
        for row in rows:
            for c in row:
                if c not in colours:
                    colours.append(c)
        assert len(colours) <= 256
        index = {c: i for i, c in enumerate(colours)}
        extra = _chunk(b'PLTE', b''.join(bytes(c[:3]) for c in colours))
        if any(c[3] != 255 for c in colours):
            extra += _chunk(b'tRNS', bytes(c[3] for c in colours))
        bpp, ctype = 1, 3
    else:
        bpp, ctype = {'rgba': (4, 6), 'rgb': (3, 2), 'gray': (1, 0), 'graya': (2, 4)}[mode]
    prev = bytes(w * bpp)
    for y, row in enumerate(rows):
        if mode == 'rgba':
            line = b''.join(bytes(c) for c in row)
        elif mode == 'rgb':
            line = b''.join(bytes(c[:3]) for c in row)
        elif mode == 'gray':
            line = bytes(c[0] for c in row)
        elif mode == 'graya':
            line = b''.join(bytes((c[0], c[3])) for c in row)
        else:
            line = bytes(index[c] for c in row)
        f = filters[y % len(filters)] if filters else 0
        body.append(f)
        if f == 0:
            body += line
        elif f == 1:
            body += bytes((line[i] - (line[i - bpp] if i >= bpp else 0)) & 255 for i in range(len(line)))
        else:
            body += bytes((line[i] - prev[i]) & 255 for i in range(len(line)))
        prev = line
    return (b'\x89PNG\r\n\x1a\n' + _chunk(b'IHDR', struct.pack('>IIBBBBB', w, h, 8, ctype, 0, 0, 0)) + extra +
            _chunk(b'IDAT', zlib.compress(bytes(body), level)) + _chunk(b'IEND', b''))
