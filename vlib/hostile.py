"""Hostile inputs: malformed sources, headers, images, binaries, arguments."""
import struct
import zlib

from vlib import isa, project

NUMBERS = ['0', '1', '-1', '7', '8', '127', '128', '255', '256', '-128', '-129', '511', '512', '4095', '4096', '32767', '32768', '65535', '65536',
           '-32768', '-32769', '2147483647', '2147483648', '-2147483648', '4294967295', '4294967296', '9999999999999999999999', '$FFFFFFFF',
           '$7FFFFFFF', '$80000000', '%11111111111111111111111111111111', '0x', '$', '%', '0b2', "1'000", "'", '00000000000000000000001']
WORDS = (sorted(isa.MNEMONICS) + ['.org', '.byte', '.word', '.text', '.string', '.cnop', '.include', '%macro', '%end', 'equ', '=', 'bytes', 'cpp', 'icon', 'sprite',
                                  'asm', 'eyecatch="e.png"', 'speed="5"', 'type="masked"', 'header="no"', '@R0', '@R3', '@-R2', 'acc', 'psw'])
PUNCTUATION = list('()+-*/<>&|^~!#,:;=%$."\'@\\`?[]{}_') + ['::', '<<', '>>', '.+', '%%', '""', '"\\"', '; c', '*', '\n*', '#<', '#>']
ODD = ['\0', '\r', '\r\n', '\n', '\t', '\x0b', '\x0c', '\x1a', '\x7f', '\ufeff', '\u2028', '\u0085', '\u00a0', 'e\u0301', '\u202e', '日本', '\U0001f600', 'İ', 'ß', 'ſ', 'K']


def piece(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(NUMBERS)
    if k == 1:
        return rng.choice(WORDS)
    if k == 2:
        return rng.choice(PUNCTUATION)
    if k == 3:
        return rng.choice(ODD)
    if k == 4:
        return rng.choice(['a', 'b', '.l', 'x%', '%a', 'foo', 'a.b', '_', 'END', '%p.', '.%', 'ab%cd'])
    return rng.choice(['.text %s "%s"' % (rng.choice(NUMBERS), rng.choice(['', 'a', 'é'])), '.org %s' % rng.choice(NUMBERS),
                       '.cnop %s, %s' % (rng.choice(NUMBERS), rng.choice(NUMBERS)), 'x%: nop', '%macro x %a, %a', '%macro x', '%end', 'x 1, 2',
                       '.byte %s' % rng.choice(NUMBERS), '.word %s' % rng.choice(NUMBERS), 'y equ y', 'z = z + 1', 'k = j\nj = k',
                       '.include "in.s"', '.include bytes "in.s"', '.include cpp "in.s"', '.include "."', '.include ""', '.include sprite "in.s"'])


def split(text):
    """Tokens, roughly."""
    out, cur = [], ''
    for c in text:
        if c.isalnum() or c in '_.':
            cur += c
        else:
            if cur:
                out.append(cur)
                cur = ''
            out.append(c)
    if cur:
        out.append(cur)
    return out


def mutate_text(rng, text, other=''):
    toks = split(text)
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        if not toks:
            toks = [piece(rng)]
        p = rng.randrange(len(toks))
        k = rng.randrange(9)
        if k == 0:
            del toks[p:p + rng.choice([1, 1, 2, 5])]
        elif k == 1:
            toks.insert(p, piece(rng))
        elif k == 2:
            toks[p] = piece(rng)
        elif k == 3:
            q = rng.randrange(len(toks))
            toks[p], toks[q] = toks[q], toks[p]
        elif k == 4:
            toks[p:p] = toks[p:p + rng.randrange(1, 12)]
        elif k == 5:
            del toks[p:]
        elif k == 6:
            numeric = [j for j, t in enumerate(toks) if t.isdigit()]
            if numeric:
                toks[rng.choice(numeric)] = rng.choice(NUMBERS)
        elif k == 7:
            o = split(other)
            q = rng.randrange(len(o) + 1)
            toks[p:p] = o[q:q + rng.randrange(1, 20)]
        else:
            toks[p] = rng.choice([toks[p].upper(), toks[p] * 2, toks[p][:-1], toks[p] + '%', '.' + toks[p], '%' + toks[p], '-' + toks[p]])
    return ''.join(toks)


def soup(rng):
    """Pieces in any order."""
    return ''.join(piece(rng) + rng.choice(['', ' ', ' ', ', ', '\n', '\n ']) for _ in range(rng.choice([1, 3, 10, 40, 200])))


def statements(rng):
    """Well-formed words in statements with strange operands."""
    out = []
    for _ in range(rng.choice([1, 2, 5, 12])):
        w = rng.choice(WORDS)
        args = []
        for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4])):
            a = rng.choice(['', '#', '<', '>', '-', '#<', '@R1', '"', '(', 'l%', '%a', '%'])
            args.append(a + rng.choice(NUMBERS + ['x', '.y', 'lab', '"text"', '(1+2)', '1/0', '5-7*2', 'x%', '%a', '@R0', '', '1 2']))
        sep = rng.choice([', ', ',', ' ', ' , , '])
        line = rng.choice(['', ' ', 'lab:', '.loc: ', 'x ', 'lab: .q: ']) + ' ' + w + ' ' + sep.join(args)
        out.append(line)
    if rng.random() < 0.3:
        p = rng.randrange(len(out) + 1)
        out[p:p] = ['%macro m ' + rng.choice(['', '%a', '%a, %b', '%a %b', 'a', '%a,', '%a, %a'])]
        if rng.random() < 0.8:
            out.insert(rng.randrange(p + 1, len(out) + 1), '%end')
        for _ in range(rng.randrange(3)):
            out.append(' m ' + rng.choice(['', '1', '#1, 2', '@R1, x', '"a"', '1, 2, 3', 'm']))
    return '\n'.join(out) + rng.choice(['\n', '', '\r\n', '\\', ' '])


def mutate_lines(rng, text, other=''):
    """Changes that often leave a program valid."""
    lines = text.split('\n')
    o = other.split('\n')
    for _ in range(rng.choice([1, 1, 2, 4])):
        p = rng.randrange(len(lines) + 1)
        k = rng.randrange(7)
        if k == 0:
            del lines[p:p + rng.choice([1, 2, 6])]
        elif k == 1:
            q = rng.randrange(len(o))
            lines[p:p] = o[q:q + rng.choice([1, 2, 6])]
        elif k == 2:
            lines.insert(p, rng.choice([' nop', ' .org %s' % rng.choice(NUMBERS), ' .cnop %s, %s' % (rng.choice(NUMBERS[:15]), rng.choice(NUMBERS[:15])),
                                        ' .text %s "%s"' % (rng.choice(NUMBERS[:16]), rng.choice(['', 'a', 'é'])), '', '*', ';', ' ', '%%macro new%d\n%%end' % rng.randrange(9),
                                        'new%d: .zz:' % rng.randrange(9), ' .byte "", 1', ' .byte ""', ' new%d' % rng.randrange(9), ' .include bytes "in.s"']))
        elif k == 3 and p < len(lines):
            q = rng.randrange(len(lines))
            lines[p], lines[q] = lines[q], lines[p]
        elif p < len(lines):
            toks = split(lines[p])
            numeric = [j for j, t in enumerate(toks) if t.isdigit()]
            if numeric:
                toks[rng.choice(numeric)] = rng.choice(NUMBERS[:14] + ['5', '$1FF', '%101', '(1 - 2)', '3 - 1', '(4096 / 7)'])
                lines[p] = ''.join(toks)
    return '\n'.join(lines)


def source(rng, seeds):
    """(kind, bytes)."""
    k = rng.randrange(15)
    if k == 0:
        return 'pieces', soup(rng).encode('utf-8', 'replace')
    if k == 1:
        return 'statements', statements(rng).encode('utf-8', 'replace')
    if k == 2:
        return 'random bytes', rng.randbytes(rng.choice([0, 1, 2, 3, 10, 100, 3000]))
    if k == 3:
        alphabet = rng.choice([b'%:.a\n ', b'"\\\n; a', b'().1+-*/ ', b'#<>@R012 ,', b'\r\n *;a:', b"0'19$%xb ", bytes(range(128))])
        return 'few bytes', bytes(rng.choice(alphabet) for _ in range(rng.choice([1, 3, 8, 30, 200])))
    if k == 4:
        return 'damaged bytes', project.damage(rng, rng.choice(seeds).encode())
    if k < 10:
        return 'changed lines', mutate_lines(rng, rng.choice(seeds), rng.choice(seeds)).encode('utf-8', 'replace')
    return 'changed tokens', mutate_text(rng, rng.choice(seeds), rng.choice(seeds)).encode('utf-8', 'replace')


def header(rng):
    """C header text."""
    lines = []
    for _ in range(rng.choice([0, 1, 3, 10])):
        k = rng.randrange(8)
        n = rng.choice(['A', 'b', '_', 'A1', 'B', '', '1', 'A(x)', 'A B', 'é', '$a', '.a', '%a', '"a"'])
        v = rng.choice(NUMBERS + ['(1+2)', '(A', 'A)', 'A', 'B + A', '1 + (2', '', '"text"', '\'c\'', '1 // x', '/* c */ 5', '/* c', '1 \\', '0x1FUL', '1e5', '0777',
                                  '(' * 300 + '1' + ')' * 300, '1+' * 300 + '1', '-' * 300 + '1', 'sizeof(int)', '((1)', '1 / 0', '~0', '1 << 40'])
        lines.append([f'#define {n} {v}', f'#define {n}', f'#define\t{n}\t{v}', f'#  define {n} {v}', f'// {v}', f'/* {v}', '*/', '#include "x.h"\n#ifdef Q',
                      ][k])
    text = rng.choice(['\n', '\n', '\r\n', '\r', '\\\n', '']).join(lines) + rng.choice(['', '\n', '\\', '/*', '//', '#', '#define', '\0'])
    b = text.encode('utf-8', 'replace')
    return project.damage(rng, b) if rng.random() < 0.3 else b


# ---- Images

def chunks(data):
    out, p = [], 8
    while p + 8 <= len(data):
        n = struct.unpack('>I', data[p:p + 4])[0]
        out.append([data[p + 4:p + 8], data[p + 8:p + 8 + n]])
        p += 12 + n
    return out


def unchunks(cs, rng=None):
    out = b'\x89PNG\r\n\x1a\n'
    for k, d in cs:
        crc = zlib.crc32(k + d)
        if rng and rng.random() < 0.02:
            crc ^= 1
        out += struct.pack('>I', len(d)) + k + d + struct.pack('>I', crc)
    return out


def word(rng, size):
    m = (1 << 8 * size) - 1
    v = rng.choice([0, 1, 2, 3, 7, 8, 31, 32, 33, 72, 127, 128, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, m, m - 1, m >> 1, (m >> 1) + 1, rng.randrange(m + 1)])
    return v & m


def mutate_png(rng, data):
    cs = chunks(data)
    for _ in range(rng.choice([1, 1, 2, 3])):
        if not cs:
            break
        p = rng.randrange(len(cs))
        kind, d = cs[p]
        k = rng.randrange(9)
        if k == 0:
            del cs[p]
        elif k == 1:
            cs.insert(rng.randrange(len(cs) + 1), list(cs[p]))
        elif k == 2:
            q = rng.randrange(len(cs))
            cs[p], cs[q] = cs[q], cs[p]
        elif k == 3 and kind in (b'IDAT', b'fdAT'):
            try:
                skip = 4 if kind == b'fdAT' else 0
                raw = project.damage(rng, zlib.decompress(d[skip:]))
                cs[p][1] = d[:skip] + zlib.compress(raw)
            except zlib.error:
                pass
        elif k == 4:
            cs[p][1] = project.damage(rng, d)
        elif k == 5:
            cs[p][0] = rng.choice([b'IHDR', b'PLTE', b'IDAT', b'IEND', b'acTL', b'fcTL', b'fdAT', b'tRNS', b'gAMA', b'tEXt', b'zTXt', b'iTXt', b'pHYs', b'iCCP', b'sRGB', b'cHRM',
                                   b'abcd', b'ABCD', b'\0\0\0\0'])
        elif k == 6:
            heads = [c for c in cs if c[0] == b'IHDR' and len(c[1]) == 13]
            if heads:
                h = bytearray(heads[0][1])
                w = rng.randrange(3)
                if w == 0:
                    h[rng.choice([0, 4]):][:4] = b''
                    q = rng.choice([0, 4])
                    h[q:q + 4] = struct.pack('>I', word(rng, 4))
                elif w == 1:
                    h[8] = rng.choice([0, 1, 2, 3, 4, 8, 16, 32])
                    h[9] = rng.choice([0, 1, 2, 3, 4, 5, 6, 7])
                else:
                    h[rng.randrange(8, 13)] = rng.randrange(256)
                heads[0][1] = bytes(h)
        elif k == 7:
            new = rng.choice([
                [b'acTL', struct.pack('>II', word(rng, 4), word(rng, 4))],
                [b'fcTL', struct.pack('>IIIIIHHBB', word(rng, 2), word(rng, 2), word(rng, 2), word(rng, 2), word(rng, 2), word(rng, 2), word(rng, 2), rng.randrange(4), rng.randrange(3))],
                [b'fcTL', struct.pack('>IIIIIHHBB', 0, 32, 32, 0, 0, 1, 10, 0, 0)],
                [b'PLTE', rng.randbytes(rng.choice([0, 1, 3, 6, 768, 771]))],
                [b'tRNS', rng.randbytes(rng.choice([0, 1, 2, 6, 256, 300]))],
                [b'IDAT', b''], [b'fdAT', b''], [b'fdAT', b'\0\0\0\1' + zlib.compress(b'\0' * 100)],
                [b'zTXt', b'k\0\0' + zlib.compress(b'a' * 100000)], [b'iCCP', b'k\0\0' + zlib.compress(b'a' * 1000)], [b'tEXt', b'\0'], [b'iTXt', b'a\0\1\0\0\0x']])
            cs.insert(rng.randrange(len(cs) + 1), new)
        elif len(d) >= 4:
            size = rng.choice([1, 2, 4])
            q = rng.randrange(0, len(d) - size + 1)
            cs[p][1] = d[:q] + word(rng, size).to_bytes(size, 'big') + d[q + size:]
    return unchunks(cs, rng)


def mutate_fields(rng, data, order='little', upto=None):
    """Overwrites some fields with extreme values, mostly near the start."""
    b = bytearray(data)
    for _ in range(rng.choice([1, 1, 2, 4])):
        size = rng.choice([1, 2, 2, 4])
        if len(b) < size:
            break
        end = min(len(b) - size, upto or 64) if rng.random() < 0.7 else len(b) - size
        q = rng.randrange(end + 1)
        b[q:q + size] = word(rng, size).to_bytes(size, order)
    return bytes(b)


def tiff(rng, w, h):
    n = rng.choice([1, 3, 4])
    body = rng.randbytes(w * h * n)
    ents = [(256, 4, 1, w), (257, 4, 1, h), (258, 3, 1, 8), (259, 3, 1, rng.choice([1, 1, 5, 32773, 8])), (262, 3, 1, 1 if n == 1 else 2), (273, 4, 1, 8), (277, 3, 1, n),
            (278, 4, 1, h), (279, 4, 1, len(body))]
    if n > 1:
        ents[2] = (258, 3, n, 8 + len(body))
        extra = struct.pack('<4H', 8, 8, 8, 8)
    else:
        extra = b''
    return b'II*\0' + struct.pack('<I', 8 + len(body) + len(extra)) + body + extra + struct.pack('<H', len(ents)) + \
        b''.join(struct.pack('<HHII', *e) if e[1] == 4 or e[2] > 1 and e[0] == 258 else struct.pack('<HHIHH', e[0], e[1], e[2], e[3], 0) for e in ents) + bytes(4)


def other_image(rng, w, h):
    """(extension, data) in a format that the other checks don't write."""
    k = rng.randrange(9)
    if k == 0:
        return '.tiff', tiff(rng, w, h)
    if k == 1:
        return '.ff', b'farbfeld' + struct.pack('>II', w, h) + rng.randbytes(w * h * 8)
    if k == 2:
        return '.hdr', b'#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y %d +X %d\n' % (h, w) + rng.randbytes(w * h * 4)
    if k == 3:
        return '.dds', b'DDS ' + struct.pack('<7I', 124, 0x1007, h, w, 0, 0, 0) + bytes(44) + struct.pack('<2I', 32, 4) + rng.choice([b'DXT1', b'DXT3', b'DXT5']) + \
            struct.pack('<5I', 0, 0, 0, 0, 0) + struct.pack('<5I', 0x1000, 0, 0, 0, 0) + rng.randbytes((w + 3) // 4 * ((h + 3) // 4) * 16)
    if k == 4:
        return '.qoi', b'qoif' + struct.pack('>IIBB', w, h, rng.choice([3, 4]), 0) + rng.randbytes(rng.choice([10, w * h])) + bytes(7) + b'\1'
    if k == 5:
        return rng.choice(['.jpg', '.jpeg']), (b'\xff\xd8\xff\xdb\0\x43\0' + bytes([1] * 64) + b'\xff\xc0' + struct.pack('>HBHHB', 11, 8, h, w, 1) + b'\1\x11\0' +
                                               b'\xff\xc4\0\x14\0' + b'\1' + bytes(15) + b'\0' + b'\xff\xc4\0\x14\x10' + b'\1' + bytes(15) + b'\0' +
                                               b'\xff\xda\0\x08\1\1\0\0\x3f\0' + rng.choice([bytes(w * h // 64 + 8), rng.randbytes(20)]) + b'\xff\xd9')
    if k == 6:
        d = b'\x2f' + struct.pack('<I', (w - 1) | (h - 1) << 14) + rng.randbytes(30)
        d += b'\0' * (len(d) & 1)
        v = b'VP8L' + struct.pack('<I', len(d)) + d
        return '.webp', b'RIFF' + struct.pack('<I', len(v) + 4) + b'WEBP' + v
    if k == 7:
        b = struct.pack('<IiiHHIIiiII', 40, w, 2 * h, 1, 32, 0, 0, 0, 0, 0, 0) + rng.randbytes(w * h * 4 + (w + 31) // 32 * 4 * h)
        return '.ico', b'\0\0\1\0\1\0' + struct.pack('<BBBBHHII', w & 255, h & 255, 0, 0, 1, 32, len(b), 22) + b
    t = rng.choice([(b'P1', '.pbm'), (b'P2', '.pgm'), (b'P3', '.ppm'), (b'P4', '.pbm'), (b'P5', '.pgm'), (b'P7', '.pam')])
    if t[0] == b'P7':
        return t[1], b'P7\nWIDTH %d\nHEIGHT %d\nDEPTH 4\nMAXVAL 255\nTUPLTYPE RGB_ALPHA\nENDHDR\n' % (w, h) + rng.randbytes(w * h * 4)
    body = b' '.join(b'%d' % rng.randrange(2) for _ in range(w * h * 3)) if t[0] in (b'P1', b'P2', b'P3') else rng.randbytes(w * h * 2)
    return t[1], t[0] + b'\n%d %d\n' % (w, h) + (b'' if t[0] in (b'P1', b'P4') else b'255\n') + body


def image(rng):
    """(extension, data) of a more or less broken image."""
    k = rng.randrange(8)
    if k == 0:
        ext, data = other_image(rng, *rng.choice([(32, 32), (8, 8), (1, 1), (5, 3)]))
        how = rng.randrange(4)
        if how == 0:
            data = project.damage(rng, data)
        elif how < 3:
            data = mutate_fields(rng, data, rng.choice(['little', 'big']))
        return ext, data
    p = rng.choice([project.icon, project.icon, project.eyecatch, project.picture, project.picture])(rng)
    ext, data = p.ext, p.data
    if data[:4] == b'\x89PNG' and rng.random() < 0.85:
        data = mutate_png(rng, data)
    elif rng.random() < 0.5:
        data = mutate_fields(rng, data, rng.choice(['little', 'little', 'big']), 120)
    else:
        data = project.damage(rng, data)
    if rng.random() < 0.06:
        ext = rng.choice(['.png', '.gif', '.bmp', '.jpg', '.tga', '.webp', '.ico', '.xyz', '', '.PNG', '.tif', '.avif', '.exr', '.pnm'])
    return ext, data


def bomb(rng):
    """A small image that declares a large size."""
    w = rng.choice([3000, 30000, 65535, 16383, 100000, 0x7fffffff, 0xffffffff])
    h = rng.choice([w, 1, 65535])
    k = rng.randrange(8)
    s = lambda v: v & 0xffff  # noqa: E731
    if k == 0:
        depth, colour = rng.choice([(8, 6), (1, 0), (16, 6), (8, 2), (8, 3)])
        cs = [[b'IHDR', struct.pack('>IIBBBBB', w, h, depth, colour, 0, 0, 0)], [b'PLTE', bytes(6)], [b'IDAT', zlib.compress(bytes(100000))], [b'IEND', b'']]
        if rng.random() < 0.5:
            cs[2:2] = [[b'acTL', struct.pack('>II', 3, 0)], [b'fcTL', struct.pack('>IIIIIHHBB', 0, w, h, 0, 0, 1, 10, 0, 0)]]
        return '.png', unchunks(cs)
    if k in (1, 2):
        fw, fh = rng.choice([(s(w), s(h)), (1, 1), (65535, 65535)])
        sw, sh = rng.choice([(s(w), s(h)), (1, 1), (32, 32)])
        g = b'GIF89a' + struct.pack('<HHBBB', sw, sh, 0x80, 0, 0) + b'\0\0\0\xff\xff\xff'
        for _ in range(rng.choice([1, 2, 20])):
            g += b'\x21\xf9\x04\0\1\0\0\0' + b',' + struct.pack('<HHHHB', 0, 0, fw, fh, 0) + b'\x02\x02\x44\x01\x00'
        return '.gif', g + b';'
    if k == 3:
        return '.bmp', b'BM' + struct.pack('<IHHI', 54, 0, 0, 54) + struct.pack('<IIIHHIIiiII', 40, w, h, 1, rng.choice([1, 4, 8, 24, 32]), rng.choice([0, 1, 2]), 0, 0, 0, 0, 0) + bytes(100)
    if k == 4:
        return '.tga', struct.pack('<BBBHHBHHHHBB', 0, 0, rng.choice([2, 3, 10, 11]), 0, 0, 0, 0, 0, s(w), s(h), rng.choice([8, 24, 32]), 8) + bytes(100)
    if k == 5:
        return '.ppm', rng.choice([b'P1', b'P2', b'P3', b'P4', b'P5', b'P6']) + b'\n%d %d\n255\n' % (w, h) + bytes(100)
    ext, data = other_image(rng, 32, 32)
    return ext, mutate_fields(rng, data, rng.choice(['little', 'big']), 40)


# ---- Well-formed statements at the edges of what's allowed

OPERAND_EDGES = {'i8': (0, 255), 'd9': (0, 511), 'b3': (0, 7), 'a16': (0, 65535), 'ri': (0, 3)}


def near(rng, *edges):
    return rng.choice(edges) + rng.choice([0, 0, 1, -1, 2, -2, 3, -3])


def operand(rng, kind, pos):
    if kind == 'ri':
        return '@R%d' % near(rng, 0, 3)
    if kind in OPERAND_EDGES:
        v = near(rng, *OPERAND_EDGES[kind])
        return ('#' if kind == 'i8' else '') + str(v)
    if kind == 'a12':
        return str(near(rng, 0, pos & 0xf000, (pos & 0xf000) + 0x1000, 0xffff, pos))
    if kind == 'r8':
        return str(near(rng, pos - 128, pos + 128, pos, 0, 0xffff))
    return str(near(rng, pos - 32768, pos + 32768, pos, 0, 0xffff))


def numeral(rng, v):
    k = rng.randrange(5)
    if v < 0:
        return '-%d' % -v if k < 3 else '(0 - %d)' % -v
    return ['%d' % v, '$%X' % v, '0b{:b}'.format(v), '%' + '{:b}'.format(v), '(%d + 1)' % (v - 1)][k]


def field_text(rng, size):
    """A string literal of size bytes."""
    out, n = '', 0
    while n < size:
        c = rng.choice(['a', 'Z', ' ', '\\n', '\\\\', '\\"', "'", ';', '*', 'é', '日', '\U0001f600', 'e\u0301'])
        m = 1 if c[0] == '\\' else len(c.encode())
        if n + m <= size:
            out += c
            n += m
        elif size - n < 4:
            out += 'x' * (size - n)
            n = size
    return out


def edge(rng):
    """(kind, files)."""
    k = rng.randrange(14)
    files = {}
    pre, pos = '', 0
    if rng.random() < 0.4:
        pos = max(0, near(rng, 1, 255, 256, 4095, 4096, 32767, 32768, 65534, 65535))
        pre = ' .org %d\n' % pos if rng.random() < 0.7 and pos < 65536 else ' .byte 0\n' * min(pos, 300)
        pos = pos if '.org' in pre else min(pos, 300)
    if k < 3:
        f = rng.choice(isa.FORMS)
        body = ' %s %s' % (f.mnemonic, ', '.join(operand(rng, x, pos + f.size) for x in f.kinds))
        kind = 'operands'
    elif k == 3:
        n = rng.choice([0, 0, 1, 2, 3, 4, 7, 8, 9, 30, 255, 256])
        body = ' %s %d "%s"' % (rng.choice(['.text', '.string']), n, field_text(rng, max(0, n + rng.choice([-3, -2, -1, 0, 0, 1, 1, 2, 3]))))
        kind = 'text'
    elif k == 4:
        body = ' .cnop %d, %d' % (rng.choice([0, 1, 2, 3, 4, 5, 16, near(rng, 255, 65535)]), rng.choice([0, 1, 2, 3, 4, 5, 16, max(0, near(rng, 256, 65536))]))
        kind = 'cnop'
    elif k == 5:
        body = ' .org %s' % numeral(rng, near(rng, pos, 0, 65535, 65536, 1 << 31, 1 << 32))
        kind = 'org'
    elif k == 6:
        body = ' %s %s' % (rng.choice(['.byte', '.word', '.byte 1,', '.word <']), numeral(rng, near(rng, 0, 127, 128, -128, 255, 256, 32767, -32768, 65535, 1 << 31, -(1 << 31), 1 << 32)))
        kind = 'data'
    elif k == 7:
        e = [numeral(rng, near(rng, 0, 1, -1, 2, 1 << 16, 1 << 30, 1 << 31))]
        for _ in range(rng.choice([1, 2, 3])):
            e += [rng.choice('+-*/&|^'), rng.choice(['', '', '-', '<', '>']) + numeral(rng, near(rng, 0, 1, -1, 2, 1 << 15, 1 << 16, 1 << 30, 1 << 31))]
        body = rng.choice(['x = %s\n .word x', ' .word %s', ' .byte %s', ' .org %s', ' jmp %s', 'x = %s', ' .word <%s']) % ' '.join(e)
        kind = 'arithmetic'
    elif k == 8:
        n = rng.randrange(5)
        params = ['%%p%d' % j for j in range(n)]
        m = max(0, n + rng.choice([-1, 0, 0, 1]))
        uses = [rng.choice(['add %s', ' .byte %s', 'l%%: br %s', 'mov %s, 1', 'br l%%', 'q 1, %s', 'nop']) for _ in range(rng.randrange(5))]
        body = '%%macro mac %s\n%s%%end\n mac %s' % (', '.join(params), ''.join(' %s\n' % (u % rng.choice(params + ['1', 'l%']) if '%s' in u else u.replace('%%', '%')) for u in uses),
                                                      ', '.join(rng.choice(['1', '#1', '@R1', 'x', '"s"', '$100', '-1', '']) for _ in range(m)))
        kind = 'macro'
    elif k == 9:
        d = near(rng, 126, 127, 128, 129, 4090, 4095, 32765, 32768)
        i = rng.choice(['br', 'bz', 'brf', 'callr', 'jmp', 'call', 'dbnz 1,', 'bp 1, 1,', 'be #1,', 'bne @R1, #1,', 'jmpf'])
        fill = ' .org %d\n' % (pos + d + rng.randrange(6))
        body = '%s l\n%sl: nop' % (' ' + i, fill) if rng.random() < 0.5 else 'l: nop\n%s %s l' % (fill, i)
        kind = 'distance'
    elif k == 10:
        body = ' .include icon "e.png" %s' % ', '.join(rng.sample(['speed="%d"' % near(rng, 0, 1, 255, 256, 65535, 65536), 'eyecatch="%s"' % rng.choice(['e.png', 'g.png', '']), 'speed=""', 'speed="-"'], 1))
        files['e.png'] = picture(rng, near(rng, 32), near(rng, 32), near(rng, 1, 2, 15, 16, 17))
        files['g.png'] = picture(rng, near(rng, 72), near(rng, 56), near(rng, 1, 2, 15, 16, 255, 256, 257))
        if rng.random() < 0.6:
            files['e.png'] = picture(rng, 32, 32, near(rng, 2, 15))
            files['g.png'] = picture(rng, 72, 56, near(rng, 15, 16, 256))
        kind = 'icon'
    elif k == 11:
        body = ' .include sprite "e.png" %s' % rng.choice(['', 'type="masked"', 'header="no"', 'type="masked", header="no"', 'type="plain"', 'header=""'])
        files['e.png'] = picture(rng, max(1, near(rng, 1, 7, 8, 9, 16, 255, 256)), max(1, near(rng, 1, 8, 255, 256)), 2)
        kind = 'sprite'
    elif k == 12:
        files['h.h'] = '#define A %s\n#define B %s\n' % (numeral(rng, near(rng, 0, 255, 65535, 1 << 31)), rng.choice(['A', '(A)', '(A + 1)', '-A', '-(-1)', '(1', '1)', '']))
        body = ' .include cpp "h.h"\n .word %s' % rng.choice(['a', 'b', 'b + a', 'c'])
        kind = 'header'
    else:
        files['e.bin'] = bytes(max(0, near(rng, 0, 1, 65535, 65536)))
        body = ' .include bytes "e.bin"\n' + rng.choice([' nop', ' .org 65535', 'x: .word x', ' jmpf x\nx:'])
        kind = 'included bytes'
    post = rng.choice(['', '', ' nop\n', 'last: .word last\n', ' .word 1, 2\n', ' .include sprite "s.png"\n'])
    if 's.png' in post:
        files['s.png'] = picture(rng, 8, 1, 1)
    files['in.s'] = (pre + body + '\n' + post).encode()
    return kind, {n: d.encode() if isinstance(d, str) else d for n, d in files.items()}


def picture(rng, w, h, colours):
    from vlib import png
    colours = max(1, colours)
    palette = [(c * 16 & 255, c & 0xf0, c % 3 * 80, rng.choice([255, 255, 255, 0, 128])) for c in range(colours)]
    n = 0
    rows = []
    for _ in range(h):
        rows.append([palette[(n + x) % colours] for x in range(w)])
        n += w
    return png.encode(w, h, rows, 'rgba')


def edge_binary(rng):
    """A binary that ends within an instruction or branches to the edges."""
    size = max(0, near(rng, 1, 3, 0x4b, 0x200, 0x240, 0x280, 4096, 65535, 65536))
    data = bytearray(size)
    for _ in range(rng.choice([1, 2, 4])):
        f = rng.choice(isa.FORMS)
        start = max(0, rng.choice([0, 3, 0x4b, 0x100, size - 1, size - 2, size - 3, size - 4, rng.randrange(size + 1)]))
        raw = []
        for k in f.kinds:
            m = (1 << isa.WIDTH[k]) - 1
            to = near(rng, 0, size, size - 3, 65535, start)
            if k in ('r8', 'r16'):
                to -= start + f.size
            raw.append(to & m)
        code = f.encode_raw(raw)
        if rng.random() < 0.5 and size > 3:
            data[0:3] = bytes([0x21, start >> 8 & 255, start & 255])
        data[start:start + len(code)] = code[:max(0, size - start)] if rng.random() < 0.8 else code
    return bytes(data)
