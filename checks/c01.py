"""C01: every instruction form, with any legal operands, assembles to the
documented machine code; other operand combinations are rejected."""
import itertools

from vlib import core, gen, isa, render
from vlib.common import expect_image, expect_reject, shape_text, shapes, source_of

TECHNIQUE = 'runtime differential monitoring of the executable against an independent encoder table'
LEVEL_NOTE = 'Every form is observed with all values of its small fields and boundary/random values of its large ones; nothing is proved about unobserved operand values. Trusts the table transcribed from docs/instructions.md.'
RULE = ('sweep: every form with all values of its small fields and boundary/random values of the large ones, at '
        'several positions, in batches; random: programs of random forms, operands, positions and spellings; '
        'shape: every mnemonic with every sequence of up to 3 operand shapes. Distinct: the instruction words '
        '(bytes and position) that were compared, resp. the shapes tried.')
ASSUMPTIONS = ['The oracle is a table transcribed from docs/instructions.md.']

SHAPES = [''.join(p) for n in range(4) for p in itertools.product('#@e', repeat=n)] + \
    ['eeee', '#eee', '@#ee', 'eee#', '####', '@@@@']


def plan(tier):
    """Chunks of the sweep: (form index, chunk number)."""
    chunks = 4 if tier == 'quick' else 40
    return [(f.index, c) for f in isa.FORMS for c in range(chunks if f.kinds else 1)]


def tasks(tier):
    return [('sweep-' + tier, len(plan(tier))),
            ('random', 1500 if tier == 'quick' else 20000),
            ('shape', len(isa.MNEMONICS) * len(SHAPES)),
            ('end', len(isa.FORMS) * (6 if tier == 'quick' else 200)),
            ('unknown', 150 if tier == 'quick' else 1500)]


def sweep_values(form, rng, chunk, chunks, pos):
    """Operand tuples; the small fields are enumerated completely over the chunks."""
    spaces = []
    for k in form.kinds:
        if k in ('i8', 'd9', 'b3', 'ri'):
            spaces.append(range(1 << isa.WIDTH[k]))
        else:
            spaces.append(None)
    if all(s is not None for s in spaces):
        total = 1
        for s in spaces:
            total *= len(s)
        limit = 1500 * chunks
        picks = range(chunk, total, chunks) if total <= limit else \
            [rng.randrange(total) for _ in range(1500)] + [0, total - 1]
        for n in picks:
            vals = []
            for s in spaces:
                vals.append(n % len(s))
                n //= len(s)
            yield vals
    else:
        for n in range(700):
            vals = []
            for s in spaces:
                vals.append(None if s is None else s[(n * 7 + chunk * 700 * 7) % len(s)] if n % 2 else rng.choice(s))
            yield vals


def fill(form, vals, pos, rng, n):
    """Puts a branch target within reach where the value is None."""
    nxt = pos + form.size
    out = []
    for k, v in zip(form.kinds, vals):
        if v is not None:
            out.append(v)
            continue
        if k == 'a12':
            out.append(nxt & 0xF000 | (n * 37) & 0xFFF)
        elif k == 'a16':
            out.append((n * 61 + 17 * pos) & 0xFFFF)
        elif k == 'r8':
            out.append(nxt + (n % 256) - 128)
        else:
            out.append(nxt - 1 + rng.choice([rng.randint(-32768, 32767), 0, -1, 255, 256, -256, 32767, -32768]))
        if not 0 <= out[-1] <= 0xFFFF:
            return None
    return out


def run_case(ctx, kind, i, rng):
    if kind.startswith('sweep'):
        tier = kind.split('-')[1]
        index, chunk = plan(tier)[i]
        form = isa.FORMS[index]
        pos = start = rng.choice([0, 0x200, 0x0FF0, 0x7F00, 0x8000, rng.randrange(0, 0xC000)])
        stmts = [('org', start)]
        expected = bytearray(start)
        n = chunk * 700 + rng.randrange(4096)
        for vals in sweep_values(form, rng, chunk, 4 if tier == 'quick' else 40, pos):
            n += 1
            vals = fill(form, vals, pos, rng, n)
            if vals is None or pos + form.size > 0xFFF0:
                continue
            code = form.encode(vals, pos)
            if code is None:
                continue
            stmts.append(('instr', form, vals))
            expected += code
            pos += form.size
            ctx.counters['instr ' + form.name] += 1
            ctx.case(b'%d:' % pos + code)
        ctx.write('in.s', render.program(stmts, render.Plain()))
        expect_image(ctx, 'in.s', bytes(expected), form.name)
    elif kind == 'random':
        p = gen.Program(rng, rng.choice([1, 5, 20, 40]), {'instr': 30, 'byte': 1, 'text': 0.2, 'string': 0.2},
                        start=rng.choice([None, rng.randrange(0xF000), (rng.randrange(1, 15) << 12) - rng.randrange(4)]))
        src = source_of(p.stmts, rng)
        ctx.write('in.s', src)
        expect_image(ctx, 'in.s', p.image, 'random program')
        for st, pos in zip(p.stmts, p.layout.pos):
            if st[0] == 'instr':
                ctx.counters['instr ' + st[1].name] += 1
                ctx.case(b'%d:' % pos + p.image[pos:pos + st[1].size])
        ctx.sample({'source': src[:600], 'image': core.short(p.image, 60)})
    elif kind == 'end':
        # the last instruction of the address space (there is no page after it for jmp and call)
        form = isa.FORMS[i % len(isa.FORMS)]
        pos = 0x10000 - form.size - ('a12' in form.kinds) - (i // len(isa.FORMS)) % 3
        vals = gen.legal_values(rng, form, pos, [0xFFFF, pos, 0xFF80])
        if vals is None:
            raise core.Inconclusive('no operands at the end of memory')
        ctx.write('in.s', source_of([('org', pos), ('instr', form, vals)], rng))
        ctx.case('%s %r %d' % (form.name, vals, pos))
        ctx.counters['instructions at the end of memory'] += 1
        expect_image(ctx, 'in.s', bytes(pos) + form.encode(vals, pos), '%s at $%X' % (form.name, pos))
    elif kind == 'shape':
        m, shape = isa.MNEMONICS[i // len(SHAPES)], SHAPES[i % len(SHAPES)]
        forms = [f for f in isa.BY_MNEMONIC[m] if shapes(f) == shape]
        start = rng.randrange(0, 0x200)
        vals = [rng.randrange(4) if s == '@' else rng.randrange(8) if s == '#' else None for s in shape]
        # 'e' operands: a value that every field of that shape accepts
        vals = [(rng.randrange(8) if start < 100 else start) if v is None else v for v in vals]
        if forms:
            f = forms[0]
            vals = [start if k in isa.TARGET_KINDS else v & 7 for k, v in zip(f.kinds, vals)]
        ctx.write('in.s', '.org %d\n %s %s\n' % (start, m, shape_text(shape, vals)))
        ctx.case('%s %s' % (m, shape))
        if forms:
            ctx.counters['legal shapes'] += 1
            expect_image(ctx, 'in.s', bytes(start) + f.encode(vals, start), '%s %s' % (m, shape))
        else:
            ctx.counters['illegal shapes'] += 1
            expect_reject(ctx, 'in.s', 'operands that %s does not have' % m)
    else:
        m = rng.choice(isa.MNEMONICS)
        k = rng.randrange(5)
        if k == 0:
            m2 = m + rng.choice('abcdefgimnrtvx1')
        elif k == 1:
            m2 = m[:-1]
        elif k == 2:
            j = rng.randrange(len(m))
            m2 = m[:j] + rng.choice('abcdefgilmnorstuvwx') + m[j + 1:]
        elif k == 3:
            m2 = m + m
        else:
            m2 = ''.join(rng.choice('abcdefghijlmnoprstvx') for _ in range(rng.randrange(2, 5)))
        if m2 in isa.MNEMONICS or not m2:
            return
        shape = rng.choice(SHAPES[:40])
        ctx.write('in.s', ' nop\n %s %s\n' % (m2, shape_text(shape, [rng.randrange(4) for _ in shape])))
        ctx.case('%s %s' % (m2, shape))
        ctx.counters['unknown mnemonics'] += 1
        expect_reject(ctx, 'in.s', 'unknown mnemonic')
