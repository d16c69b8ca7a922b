"""C24: names and annotations of a disassembly are true."""
import re

from checks import c13
from checks.c12 import disassemble
from vlib import core, dis, isa

TECHNIQUE = 'runtime trace oracle: listings compared with the register map of the hardware and with annotations computed from the image'
LEVEL_NOTE = 'Every name, comment and annotation of the listings of sampled images; every register and bit of the status word is visited.'
RULE = ('registers: images with an access to every address of a half of data memory, with every bit, directly and by branches; '
        'texts: images with every byte, texts and look-alikes of comments as data; overlap: code that is also reached from inside of '
        'instructions; built, mutated, switch, shape: images as for C13. Distinct: images.')
ASSUMPTIONS = ['The register map is the one of the VMU hardware manual (LC86K87), written down in this file.']

REGISTERS = {
    0x100: 'acc', 0x101: 'psw', 0x102: 'b', 0x103: 'c', 0x104: 'trl', 0x105: 'trh', 0x106: 'sp', 0x107: 'pcon', 0x108: 'ie', 0x109: 'ip',
    0x10D: 'ext', 0x10E: 'ocr', 0x110: 't0con', 0x111: 't0prr', 0x112: 't0l', 0x113: 't0lr', 0x114: 't0h', 0x115: 't0hr', 0x118: 't1cnt',
    0x11A: 't1lc', 0x11B: 't1l t1lr', 0x11C: 't1hc', 0x11D: 't1h t1hr', 0x120: 'mcr', 0x122: 'stad', 0x123: 'cnr', 0x124: 'tdr',
    0x125: 'xbnk', 0x127: 'vccr', 0x130: 'scon0', 0x131: 'sbuf0', 0x132: 'sbr', 0x134: 'scon1', 0x135: 'sbuf1', 0x144: 'p1',
    0x145: 'p1ddr', 0x146: 'p1fcr', 0x14C: 'p3', 0x14D: 'p3ddr', 0x14E: 'p3int', 0x154: 'fpr', 0x15C: 'p7', 0x15D: 'i01cr',
    0x15E: 'i23cr', 0x15F: 'isl', 0x160: 'mplsw', 0x161: 'mplsta', 0x162: 'mplrst', 0x163: 'vsel', 0x164: 'vrmad1', 0x165: 'vrmad2',
    0x166: 'vtrbf', 0x167: 'vlreg', 0x17F: 'btcr'}
REGISTERS = {a: n.split() for a, n in REGISTERS.items()}
ADDRESS = {n: a for a, names in REGISTERS.items() for n in names}
PSW_BITS = {7: 'cy', 6: 'ac', 4: 'irbk1', 3: 'irbk0', 2: 'ov', 1: 'rambk0', 0: 'p'}
NUMBERED = re.compile(r'^(xram|sfr)_([0-9a-f]{3,4})$')
POSITION = re.compile(r'\b[0-9A-F]{4,5}\b')
ESCAPES = {9: r'\t', 10: r'\n', 13: r'\r'}


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    return [('registers', 160 * n), ('texts', 700 * n), ('overlap', 700 * n), ('built', 500 * n), ('mutated', 500 * n), ('switch', 200 * n), ('shape', 80 * n)]


def text_of(data, comment):
    """Does the comment show the characters of the bytes?"""
    k = 0
    for b in data:
        if 32 <= b <= 126:
            if comment[k:k + 1] != chr(b):
                return False
            k += 1
        elif b in ESCAPES and comment.startswith(ESCAPES[b], k):
            k += 2
        elif comment[k:k + 1] == '.':
            k += 1
        else:
            return False
    return not comment[k:].strip()


def annotations(text):
    """Lines of a listing: (position or None, statement, comment)."""
    for line in text.split('\n'):
        m = dis._PREFIX.match(line)
        if m:
            body, sep, comment = m.group(2).partition(';')
            yield (int(m.group(1), 16) if m.group(1) else None, body.strip(), comment if sep else None)


def examine(ctx, image, typ, what):
    entries = dis.ENTRIES[typ or 'raw']
    reach = dis.Reach(image, entries)
    if reach.ambiguous or reach.outside or reach.cut is not None:
        ctx.counters['not defined'] += 1
        return
    text, r = disassemble(ctx, image, typ, '-p', *(['-a'] if len(image) % 2 else []))
    ctx.case((typ, image), len(reach.instrs) > 2)
    if r.rc != 0 or text is None:
        raise core.Violation('%s: disassembly failed' % what, result=r.describe(), type=typ)
    text = text.decode('utf-8')
    fail = lambda msg: core.Violation('%s: %s' % (what, msg), type=typ, listing=text[:3000])  # noqa: E731
    lst = dis.Listing(text)
    if lst.problems:
        raise fail(lst.problems[0])

    for name, v in lst.equs.items():
        m = NUMBERED.match(name)
        if name in PSW_BITS.values():
            if PSW_BITS.get(v) != name:
                raise fail('%s is bit %s of PSW, but is defined as %s' % (name, [b for b, n in PSW_BITS.items() if n == name][0], v))
        elif ADDRESS.get(name, v) != v:
            raise fail('the register %s is at $%X, but is defined as $%X' % (name, ADDRESS[name], v))
        elif m and int(m.group(2), 16) != v:
            raise fail('%s is defined as $%X' % (name, v))

    for p, (form, vals) in reach.instrs.items():
        if p not in lst.instrs:
            raise fail('no instruction at %04X' % p)
        ops = lst.instrs[p][1]
        if len(ops) != len(vals):
            raise fail('at %04X: operands %s' % (p, ops))
        mem = None
        for k, op, v in zip(form.kinds, ops, vals):
            if k == 'd9':
                mem = v
                if v in REGISTERS:
                    ctx.counters['registers shown'] += 1
                    if op not in REGISTERS[v]:
                        raise fail('at %04X: the register %s ($%X) is shown as %s' % (p, REGISTERS[v][0], v, op))
                elif op in ADDRESS or op in PSW_BITS.values() or op in lst.labels:
                    raise fail('at %04X: the address $%X is shown as %s' % (p, v, op))
            elif k == 'b3':
                if mem == 0x101:
                    ctx.counters['bits of PSW shown'] += 1
                    if v in PSW_BITS and op != PSW_BITS[v]:
                        raise fail('at %04X: the bit %s (%d) of PSW is shown as %s' % (p, PSW_BITS[v], v, op))
                if (mem != 0x101 or v not in PSW_BITS) and (op in PSW_BITS.values() or op in ADDRESS or op in lst.labels):
                    raise fail('at %04X: bit %d of $%X is shown as %s' % (p, v, mem, op))
            elif k == 'i8' and not re.match(r'^#[$%0-9]', op):
                raise fail('at %04X: the immediate value %d is shown as %s' % (p, v, op))

    # Annotations stand before the instruction that they are about
    entry, overlap, marked = False, None, {}
    shown, said = set(), {}
    rows = []
    for pos, body, comment in annotations(text):
        if not body:
            c = (comment or '').lower()
            if 'entry point' in c:
                entry = True
            if 'overlap' in c:
                overlap = {int(x, 16) for x in POSITION.findall(comment)}
            continue
        w = body.split(None, 1)
        if w[0] == '.byte' and pos is not None:
            rows.append((pos, [dis.value(x, {}) for x in w[1].split(',')], comment))
        if pos is None or w[0] == '.org' or body.endswith(':'):
            continue
        if entry:
            shown.add(pos)
        if overlap is not None:
            said[pos] = overlap
        entry, overlap = False, None
    want = {e for e in entries if e < len(image)}
    if shown != want:
        raise fail('entry points are %s, annotated %s' % (['%04X' % e for e in sorted(want)], ['%04X' % e for e in sorted(shown)]))
    for p, (form, _) in reach.instrs.items():
        o = {q for q in range(p - 2, p + 3) if q != p and q in reach.instrs
             and q < p + form.size and p < q + reach.instrs[q][0].size}
        if said.pop(p, set()) != o:
            raise fail('the instruction at %04X overlaps with %s, which is not what its annotation says' % (p, ['%04X' % q for q in sorted(o)]))
        ctx.counters['overlaps annotated'] += len(o)
    if said:
        raise fail('annotations of overlaps at %s' % ['%04X' % q for q in sorted(said)])

    for pos, values, comment in rows:
        data = bytes(values)
        if comment is not None and comment.startswith(' '):
            comment = comment[1:]
        if comment is None:
            if any(32 <= b <= 126 for b in data):
                raise fail('at %04X: the text of the data is not shown' % pos)
        elif not text_of(data, comment):
            raise fail('at %04X: the data is shown as %r' % (pos, comment))
        ctx.counters['rows of data'] += 1
        ctx.counters['rows with text'] += comment is not None
    ctx.counters['instructions'] += len(reach.instrs)
    if len(reach.instrs) > 20 and rows:
        ctx.sample({'type': typ, 'image': core.short(image, 50), 'listing': text[:600]})


def registers(rng, i):
    image = bytearray(0x140)
    for e in dis.ENTRIES['bios']:
        if e < 0x140:
            image[e] = 0xA0
    image[0:3] = isa.BY_MNEMONIC['jmpf'][0].encode([0x200], 3)
    image[0x130:0x140] = bytes([0xA0] * 16)
    image = image.ljust(0x200, b'\xA0')
    forms = [f for f in isa.FORMS if 'd9' in f.kinds]
    for a in range(0x100 * (i % 2), 0x100 * (i % 2) + 0x100):
        f = rng.choice(forms)
        vals = []
        p = len(image)
        for k in f.kinds:
            vals.append(a if k == 'd9' else p + rng.choice([f.size, 0]) if k in isa.TARGET_KINDS else rng.randrange(1 << isa.WIDTH[k]))
        if dis.is_switch(f, vals):
            continue
        image += f.encode(vals, p + f.size)
    bits = [f for f in isa.FORMS if 'b3' in f.kinds]
    for a in [0x101, 0x101, 0x001, 0x100, 0x102, rng.randrange(512)]:
        for b in range(8):
            f = rng.choice(bits)
            vals = [a if k == 'd9' else b if k == 'b3' else len(image) + f.size for k in f.kinds]
            if not dis.is_switch(f, vals):
                image += f.encode(vals, len(image) + f.size)
    return bytes(image) + b'\xA0', rng.choice(c13.TYPES), 'registers'


def texts(rng):
    image = bytearray()
    pieces = [b'Hello, world', b'; comment', b'a\tb', b'line\n', b'cr\r\n', b'"quoted"', b"it's", b'back\\slash', b'\\n', b'   ', b'...', b'\x7f', b'%macro',
              bytes(range(256)), b'\0\0\0', bytes(16), bytes(17), b'\xff', 'ünï'.encode(), b'* star', b'0010| x', b'Overlaps with', b'Entry point', b'1234']
    while len(image) < 0x200 and rng.random() < 0.97:
        image += rng.choice(pieces) if rng.random() < 0.8 else rng.randbytes(rng.randrange(1, 20))
    typ = rng.choice(c13.TYPES)
    for e in dis.ENTRIES[typ or 'raw']:
        if e < len(image):
            image[e] = rng.choice([0xA0, 0xB0])
    return bytes(image), typ, 'texts'


def overlap(rng):
    """Branches to the inside of instructions whose operands are code."""
    typ = rng.choice(c13.TYPES)
    image = bytearray([0xA0] * 0x138)
    starts = []
    p = 3
    image = image.ljust(0x200, b'\xA0')
    safe = [0x00, 0xA0, 0xB0, 0x30, 0x40, 0xE0, 0xF0, 0xC0, 0xD0, 0xC1, 0x64, 0x67, 0x75, 0x03, 0x02, 0x13, 0x24, 0x81, 0x60, 0x71]
    p = 0x150
    while p < 0x1A0:
        k = rng.randrange(4)
        if k == 0:
            code = bytes([0x22 + rng.randrange(2), rng.choice(safe), rng.choice(safe)])     # mov #i, d9
        elif k == 1:
            code = bytes([0x81, rng.choice(safe)])
        elif k == 2:
            code = bytes([rng.choice([0x33, 0x43, 0x37, 0x47]), rng.choice(safe), rng.randrange(8)])
        else:
            code = bytes([0x80, rng.choice([0, 1, 2, 3, 0xFE, 0xFD])])
        starts.append(p)
        image[p:p + len(code)] = code
        p += len(code)
    for e in dis.ENTRIES[typ or 'raw']:
        if (e >= 0x100 or e % 8 == 3) and e + 3 <= 0x150 and e not in (0x1F0,):
            s = rng.choice(starts) + rng.choice([0, 1, 1, 2, 2])
            image[e:e + 3] = isa.BY_MNEMONIC['jmpf'][0].encode([s], e + 3)
    return bytes(image), typ, 'overlap'


def run_case(ctx, kind, i, rng):
    if kind == 'registers':
        examine(ctx, *registers(rng, i))
    elif kind == 'texts':
        examine(ctx, *texts(rng))
    elif kind == 'overlap':
        examine(ctx, *overlap(rng))
    else:
        examine(ctx, *c13.sample(kind, rng))
