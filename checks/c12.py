"""C12: disassembling then assembling reproduces the image."""
from vlib import core, dis, isa, gen

TECHNIQUE = 'round-trip runtime monitoring: disassemble, assemble, compare images'
LEVEL_NOTE = ('The precondition (no overlapping reachable instructions, no targets outside of 0..FFFF) is decided by an '
              'independent reachability model; images are sampled.')
RULE = ('built: images with generated code from every entry point and data in between, for all four file types, with and without '
        'annotations; random: random bytes that fulfil the precondition by chance; assembled: programs produced by the '
        'assembler; shape: large images with one long run of instructions, chain of jumps, ladder of branches, many ways to one place, or '
        'much data; edge: empty and tiny images, full 64K, code up to the last byte; cut: a reachable instruction cut off by '
        'the end must make disassembly fail. Distinct: images.')
ASSUMPTIONS = ['Images of up to 64K, the address space. A jump after the firmware switch is reached only from the switch.']
TYPES = ['game', 'bios', 'file', 'raw', None]


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    return [('built', 1600 * n), ('random', 600 * n), ('assembled', 500 * n), ('edge', 300 * n), ('cut', 600 * n),
            ('large', 16 * n), ('shape', 150 * n)]


def disassemble(ctx, image, typ, *flags, name='in.bin'):
    ctx.write(name, image)
    ctx.remove('out.s')
    args = list(flags) + (['-t', typ] if typ else [])
    r = ctx.run('disassemble', name, '-o', 'out.s', *args)
    return ctx.read('out.s'), r


def acceptable(image, typ):
    r = dis.Reach(image, dis.ENTRIES[typ or 'raw'])
    return None if r.overlap or r.outside or r.cut is not None or r.ambiguous else r


def roundtrip(ctx, image, typ, flags, what):
    listing, r = disassemble(ctx, image, typ, *flags)
    if listing is None or r.rc != 0:
        raise core.Violation('%s: disassembly failed' % what, result=r.describe(), type=typ)
    ctx.remove('again.bin')
    r2 = ctx.run('assemble', 'out.s', '-o', 'again.bin')
    again = ctx.read('again.bin')
    if again != image:
        raise core.Violation('%s: the listing assembles to something else: %s'
                             % (what, 'rejected' if again is None else core.diff(image, again)), result=r2.describe(), type=typ)
    ctx.counters['round trips'] += 1
    ctx.counters['bytes compared'] += len(image)


def built(ctx, rng, size):
    typ = rng.choice(TYPES)
    for _ in range(20):
        image = dis.image(rng, size, dis.ENTRIES[typ or 'raw'], rng.choice([0.2, 0.6, 1]), rng.choice([0, 0.02, 0.3]))
        if image is None:
            ctx.counters['generator gave up'] += 1
            continue
        reach = acceptable(image, typ)
        if reach is not None:
            return typ, image, reach
        ctx.counters['precondition not met'] += 1
    return None


def run_case(ctx, kind, i, rng):
    flags = rng.choice([[], [], ['-a'], ['--arrived_from']])
    if kind in ('built', 'large'):
        size = rng.choice([1, 4, 12, 60, 0x140, 300, 0x205, 700, 2000]) + rng.randrange(4) if kind == 'built' else \
            rng.choice([8192, 20000, 32768, 65535, 65536, 65536, 65000])
        b = built(ctx, rng, size)
        if b is None:
            return
        typ, image, reach = b
        if len(image) > 60000 and i % 2:
            # data beyond the address space
            image += rng.randbytes(rng.choice([1, 3, 64, 5000, 70000]) + 65536 - len(image))
            reach = acceptable(image, typ)
            if reach is None or any(p + f.size > 65535 for p, (f, _) in reach.instrs.items()):
                ctx.counters['precondition not met'] += 1
                return
            ctx.counters['images larger than the address space'] += 1
        ctx.case((typ, image), len(reach.instrs) > 3)
        ctx.counters['instructions'] += len(reach.instrs)
        ctx.counters['firmware jumps'] += len(reach.firmware)
        ctx.counters['targets beyond the end'] += len(reach.beyond)
        for f, _ in reach.instrs.values():
            ctx.counters['instr ' + f.name] += 1
        ctx.counters['type %s' % typ] += 1
        roundtrip(ctx, image, typ, flags, 'image with code')
        if len(reach.instrs) > 10:
            ctx.sample({'type': typ, 'image': core.short(image, 60), 'instructions': len(reach.instrs)})
    elif kind == 'shape':
        image, what = dis.shape(rng)
        typ = rng.choice(TYPES)
        reach = acceptable(image, typ)
        if reach is None:
            ctx.counters['precondition not met'] += 1
            return
        ctx.case((typ, image))
        ctx.counters['shape ' + what] += 1
        ctx.counters['instructions'] += len(reach.instrs)
        roundtrip(ctx, image, typ, flags, 'large image (%s)' % what)
    elif kind == 'random':
        for _ in range(200):
            n = rng.randrange(1, 60)
            image = bytearray(rng.randbytes(n))
            for e in dis.ENTRIES['raw']:
                if e < n and rng.random() < 0.8:
                    image[e] = rng.choice([0xA0, 0xB0])
            image = bytes(image)
            typ = rng.choice(TYPES)
            if acceptable(image, typ):
                break
        else:
            return
        ctx.case((typ, image))
        roundtrip(ctx, image, typ, flags, 'random image')
    elif kind == 'assembled':
        p = gen.Program(rng, rng.choice([10, 40]), {'org': 0.2}, start=rng.choice([0, 0x200]))
        image = p.image
        typ = rng.choice(TYPES)
        if rng.random() < 0.5:
            # leave by reti from every fixed entry point except one
            image = bytearray(image.ljust(0x4C, b'\0'))
            for e in dis.ENTRIES['raw']:
                if e < len(image):
                    image[e] = 0xB0
            image = bytes(image)
        if not acceptable(image, typ):
            ctx.counters['precondition not met'] += 1
            return
        ctx.case((typ, image))
        roundtrip(ctx, image, typ, flags, 'assembled program')
    elif kind == 'edge':
        k = rng.randrange(6)
        n = rng.choice([0, 1, 2, 3, 16, 17, 32, 48, 0x4B, 0x4C, 0x4D, 0x130, 0x131])
        if k == 0:
            image = bytes(n)
        elif k == 1:
            image = b'\xa0' * n
        elif k == 2:
            image = bytes([0xA0] * 0x131) + bytes(rng.choice([b'\0', b' ', b'~', b'"', b'\\', b';'])[0] for _ in range(n))
        elif k == 3:
            # data that is zero around chunk ends
            image = bytearray([0xA0] * 0x131) + bytearray(200)
            for _ in range(rng.randrange(1, 5)):
                image[0x131 + rng.choice([0, 15, 16, 31, 32, 47, rng.randrange(200)])] = rng.randrange(256)
            image = bytes(image)
        elif k == 4:
            # falls off the end exactly
            image = bytes([0] * rng.randrange(1, 90))
        else:
            image = bytes([0x21, 0x01, 0x00]) + b'\xa0' * 0x140
            image = image[:rng.choice([3, 4, 0x100, 0x101, 0x143])]
        typ = rng.choice(TYPES)
        if not acceptable(image, typ):
            return
        ctx.case((typ, image), False)
        roundtrip(ctx, image, typ, flags, 'edge image')
    else:
        # cut the image within a reachable instruction
        b = built(ctx, rng, rng.choice([20, 90, 0x150, 700]))
        if b is None:
            return
        typ, image, reach = b
        long = [p for p, (f, _) in reach.instrs.items() if f.size > 1]
        if not long:
            return
        p = rng.choice(long)
        cut = image[:p + rng.randrange(1, reach.instrs[p][0].size)]
        r2 = dis.Reach(cut, dis.ENTRIES[typ or 'raw'])
        if r2.cut is None or r2.ambiguous or r2.overlap or r2.outside:
            return
        ctx.case((typ, cut))
        existing = rng.choice([None, b'old'])
        ctx.write('in.bin', cut)
        if existing is not None:
            ctx.write('out.s', existing)
        r = ctx.run('disassemble', 'in.bin', '-o', 'out.s', *(['-t', typ] if typ else []))
        ctx.counters['cut off'] += 1
        if r.rc == 0 or r.crashed or not r.err.strip():
            raise core.Violation('an instruction cut off at the end is not reported', result=r.describe(), type=typ)
        if ctx.read('out.s') != existing:
            raise core.Violation('failed disassembly changed the output file', result=r.describe())
