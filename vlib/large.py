"""Legal programs of which one thing is large: the sizes that ordinary programs,
and tests, do not reach. Every generator gives (what, statements)."""
from vlib import gen, isa, model, render
from vlib.common import expect_image, expect_reject, source_of

NOP = isa.BY_MNEMONIC['nop'][0]
BR = isa.BY_MNEMONIC['br'][0]
# (the 4K page after the last one is not defined)
TRANSFERS = [f for f in isa.FORMS if any(k in isa.TARGET_KINDS and k != 'a12' for k in f.kinds)]

# around the powers of two (and of ten) that counters and buffers have
SIZES = [17, 33, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097]
HUGE = [9999, 10001, 16384, 32767, 32768, 32769]
BEYOND = [65535, 65536, 65537, 70000]


def size(rng, huge=0.25, beyond=0.0):
    r = rng.random()
    return rng.choice(BEYOND if r < beyond else HUGE if r < beyond + huge else SIZES)


def long_text(rng, n):
    """About n bytes with some escapes and longer characters."""
    alphabet = rng.choice(['ab', 'a\\"', 'x\n\t', 'éλ a', '"', '\\', 'a ;*', '0'])
    s = ''.join(rng.choice(alphabet) for _ in range(n))
    return s.encode()[:n].decode('utf-8', 'ignore').encode()


def items(rng):
    n = size(rng)
    k = rng.randrange(3)
    if k == 0:
        return '.byte with %d items' % n, [('byte', [rng.randrange(256) for _ in range(n)]), ('byte', [1])]
    if k == 1:
        n = min(n, 20000)
        return '.word with %d items' % n, [('word', [rng.randrange(65536) for _ in range(n)]), ('byte', [1])]
    n = min(n, 5000)
    return '.byte with %d strings' % n, [('byte', [gen.text(rng, 3) if rng.random() < 0.7 else rng.randrange(256) for _ in range(n)]),
                                         ('byte', [1])]


def string(rng):
    n = size(rng, 0.3, 0.1)
    t = long_text(rng, n)
    k = rng.randrange(3)
    if k == 0:
        return 'string of %d bytes' % len(t), [('byte', [t, 1])]
    pad = rng.choice([0, 0, 1, 255, 256, 300])
    return '%s of %d and %d bytes' % (('text', 'string')[k - 1], len(t), pad), [(('text', 'string')[k - 1], len(t) + pad, t), ('byte', [1])]


def padding(rng):
    n = size(rng, 0.3, 0.15)
    t = gen.text(rng, 10)
    return 'padding to %d bytes' % n, [('byte', [9]), (rng.choice(['text', 'string']), max(n, len(t)), t), ('byte', [1])]


def statements(rng):
    n = min(size(rng), 20000)
    out = []
    for k in range(n):
        r = rng.random()
        out.append(('instr', NOP, []) if r < 0.5 else ('byte', [k & 255]) if r < 0.9 else ('word', [k & 0xFFFF]))
    return '%d statements' % n, out


def name(rng, n, local=False):
    first = rng.choice('abcXYZ_')
    return ('.' if local else '') + first + ''.join(rng.choice('abcdefXYZ0123456789_$.') for _ in range(n - 1))


def names(rng):
    """Names of which only a late character tells them apart."""
    n = rng.choice([17, 32, 33, 64, 65, 100, 128, 255, 256, 257, 300, 1000, 1024, 5000])
    base = name(rng, n)
    p = rng.choice([n - 1, n - 1, n // 2, rng.randrange(1, n)])
    ns = [base[:p] + c + base[p + 1:] for c in rng.sample('qrstuvw01234', rng.randrange(2, 5))]
    local = rng.random() < 0.4
    out = [('label', 'start')] if local else []
    uses = [('name', ('.' if local else '') + rng.choice([x, x.upper(), x.lower()])) for x in ns]
    for k, x in enumerate(ns):
        if not local and rng.random() < 0.4:
            out.append(('const', x, rng.randrange(65536), rng.choice(['=', 'equ'])))
        else:
            out += [('label', ('.' if local else '') + x), ('byte', [k] * rng.randrange(1, 4))]
    out += [('word', uses), ('word', [rng.choice(uses)])]
    return '%d names of %d characters' % (len(ns), n), out


def many_names(rng):
    n = rng.choice([17, 65, 129, 255, 256, 257, 300, 513, 1025, 2049, 5000])
    k = rng.randrange(4)
    out = []
    if k == 0:
        for j in range(n):
            out += [('label', 'l%d' % j), ('byte', [j & 255])]
        out += [('word', [('name', 'L%d' % rng.randrange(n)) for _ in range(40)] + [('name', 'l%d' % (n - 1)), ('name', 'l0')])]
        return '%d global labels' % n, out
    if k == 1:
        out = [('label', 'start')]
        for j in range(n):
            out += [('label', '.l%d' % j), ('byte', [j & 255])]
        out += [('word', [('name', '.L%d' % rng.randrange(n)) for _ in range(40)] + [('name', '.l%d' % (n - 1)), ('name', '.l0')])]
        return '%d local labels of one global' % n, out
    if k == 2:
        for j in range(n):
            out += [('label', 'g%d' % j), ('label', '.here'), ('instr', BR, [('name', '.here')])]
        return '%d scopes' % n, out
    for j in range(n):
        out.append(('const', 'k%d' % j, ('+', ('name', 'k%d' % (j - 1)), 1) if j else 3, rng.choice(['=', 'equ'])))
    out.append(('word', [('name', 'k%d' % (n - 1)), ('name', 'K%d' % (n // 2))]))
    return 'a chain of %d constants' % n, out


def numbers(rng):
    """Numbers with many digits (leading zeros) are numbers all the same; the text is given."""
    v = rng.randrange(256)
    n = rng.choice([10, 11, 16, 31, 32, 33, 64, 65, 100, 300, 1000])
    digits = rng.choice(['$%s%x', '0x%s%x', '%s%d', '0o%s%o', '0b%s%s', '%%%s%s'])
    last = format(v, 'b') if digits.endswith('s%s') else v
    zeros = '0' * n if rng.random() < 0.6 else "0'" * n
    return 'a number of %d digits' % n, [('raw', bytes([v]), ' .byte ' + digits % (zeros, last)), ('byte', [1])]


def beyond(rng):
    """Labels, data and code around and after position 65535."""
    p = rng.choice([0xFFFF, 0xFFFE, 0xFFFD, 0xFFF0, 0xFF00])
    n = rng.choice([0, 1, 2, 3, 5, 16, 17, 100, 300])
    out = [('label', 'low'), ('org', p), ('label', 'first'), *([('instr', NOP, [])] * n if n < 20 and rng.random() < 0.5 else [('byte', [0xAB] * n + [b''])]), ('label', 'mid'),
           ('byte', [1, ('lo', ('name', 'mid')), ('hi', ('name', 'mid')), ('/', ('name', 'mid'), 4096)]), ('label', 'late'),
           ('byte', [('lo', ('name', 'late')), ('-', ('name', 'late'), ('name', 'mid'))])]
    k = rng.randrange(7)
    if k >= 5:
        # a transfer from there to a place that its field, cut off, could stand for
        f = rng.choice(TRANSFERS)
        t = rng.choice([0, 1, 5, 0x20, 0x100, 0x1000, 0xFF90, 0xFFF0, rng.randrange(65536)])
        ops = [t if x in isa.TARGET_KINDS else rng.randrange(1 << isa.WIDTH[x]) for x in f.kinds]
        if rng.random() < 0.5:
            out.insert(0, ('instr', NOP, []))
            ops = [('name', 'low') if x in isa.TARGET_KINDS else o for x, o in zip(f.kinds, ops)]
        out.append(('instr', f, ops))
    elif k == 0:
        out.append(('word', [('name', rng.choice(['first', 'mid', 'late']))]))
    elif k == 1:
        out.append(('instr', NOP, []))
        out.append(('label', 'end'))
        out.append(('byte', [('lo', ('name', 'end')), ('/', ('name', 'end'), 65536)]))
    elif k == 2:
        out += [('cnop', rng.choice([0, 1, 3]), rng.choice([2, 4, 0x100, 0x200])), ('label', 'end'), ('byte', [('lo', ('name', 'end'))])]
    elif k == 3:
        out += [('org', rng.choice([0, 0x100, p - 3])), ('byte', [5])]
    else:
        out.append(('const', 'd', ('-', ('name', 'late'), ('name', 'first')), '='))
        out.append(('word', [('name', 'd')]))
    return 'after the end of memory', out


def check(ctx, rng, generators):
    """One large program against the reference assembler."""
    what, stmts = rng.choice(generators)(rng)
    src = source_of(stmts, rng) if rng.random() < 0.5 else render.program(stmts, render.Plain())
    ctx.write('in.s', src)
    ctx.case(src)
    ctx.counters['large: ' + ' '.join(w for w in what.split() if not w.isdigit())] += 1
    try:
        image = model.assemble(stmts)
    except model.Reject as r:
        expect_reject(ctx, 'in.s', '%s (%s)' % (what, r.why))
        return
    expect_image(ctx, 'in.s', image, what)
