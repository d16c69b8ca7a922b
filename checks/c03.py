"""C03: values that don't fit their field are rejected, values that do are
accepted, nothing is wrapped."""
from vlib import core, gen, isa, large, macros, model, render
from vlib.common import expect_image, expect_reject

TECHNIQUE = 'runtime boundary-value monitoring with an accept/reject oracle and output-file watch'
LEVEL_NOTE = 'Every operand slot of every form is observed around all its limits and at values that would wrap into range. Sampled, not proved.'
RULE = ('field: every operand of every form x values around both ends of its range, around powers of two, and values '
        'that become legal when wrapped; data: the same for bytes, words, origins, text lengths and animation speeds; '
        'embedded: a legal program with one misfit; beyond: data and transfers after position 65535; route: '
        'the value comes through a constant, a chain of constants, a label, an included file, an argument of one macro '
        'or of several; items: the value is one of many items. Distinct: (form, operand, value, position).')
ASSUMPTIONS = ['Legal ranges: i8 0..255, d9 0..511, b3 0..7, a16 0..65535, a12 within the 4K page of the next '
               'instruction, r8/r16 by signed displacement with an address in 0..65535, byte -128..255, word '
               '-32768..65535, origin 0..65535.']

SLOTS = [(f.index, j) for f in isa.FORMS for j, k in enumerate(f.kinds) if k != 'ri']
I32 = [model.INT_MIN, model.INT_MIN + 1, -65537, -65536, -65535, -32769, -32768, -513, -512, -511, -257, -256, -255,
       -129, -128, -127, -9, -8, -7, -2, -1, 0, 1, 2, 3, 6, 7, 8, 9, 15, 16, 127, 128, 129, 254, 255, 256, 257, 258,
       510, 511, 512, 513, 767, 1023, 1024, 4095, 4096, 4097, 8191, 32767, 32768, 65534, 65535, 65536, 65537, 65543,
       65791, 66047, 131071, 131072, 1 << 24, (1 << 24) + 5, 1 << 30, model.INT_MAX - 1, model.INT_MAX]


def field_values(form, j, pos, rng):
    k = form.kinds[j]
    nxt = pos + form.size
    vals = list(I32)
    if k == 'r8':
        vals += [nxt + d for d in (-130, -129, -128, -127, -1, 0, 1, 126, 127, 128, 129, 255, 256, -256, -255, 383, -384,
                                   65536, -65536)]
    elif k == 'r16':
        vals += [nxt - 1 + d for d in (-32770, -32769, -32768, -32767, -1, 0, 1, 32766, 32767, 32768, 32769, 65535, 65536)]
    elif k == 'a12':
        p = nxt & 0xF000
        vals += [p - 2, p - 1, p, p + 1, p + 0xFFE, p + 0xFFF, p + 0x1000, p + 0x1001, p ^ 0x1000, p ^ 0x8000]
    else:
        m = 1 << isa.WIDTH[k]
        vals += [m + rng.randrange(m), -rng.randrange(1, m), m - 1 - rng.randrange(8), m * rng.randrange(2, 200) + 1]
    vals += [rng.randint(-70000, 140000) for _ in range(4)]
    return sorted(set(v for v in vals if model.INT_MIN <= v <= model.INT_MAX))


def edges(form, j, pos):
    """The last values that fit and the first that don't."""
    k, nxt = form.kinds[j], pos + form.size
    lo, hi = {'r8': (nxt - 128, nxt + 127), 'r16': (nxt - 32769, nxt + 32766), 'a12': (nxt & 0xF000, nxt | 0xFFF)}.get(k) \
        or (0, (1 << isa.WIDTH[k]) - 1)
    return [lo - 1, lo, hi, hi + 1]


def tasks(tier):
    rounds = 1 if tier == 'quick' else 12
    return [('field', len(SLOTS) * 2 * rounds), ('data', 40 * rounds), ('embedded', 1500 if tier == 'quick' else 25000),
            ('beyond', 200 * rounds), ('route', 4 * len(SLOTS) * rounds), ('items', 150 * rounds)]


def spell(v, rng):
    """(extra lines before, expression) for a value."""
    k = rng.randrange(5)
    if k == 0:
        return [('const', 'val', gen.literal(v), rng.choice(['=', 'equ']))], ('name', 'val')
    if k == 1:
        d = rng.randint(0, 1000)
        if v + d <= model.INT_MAX:
            return [], ('-', gen.literal(v + d), d)
    if k == 2 and abs(v) < 1 << 29:
        return [], gen.expr_for(rng, v, [], 2)
    return [], gen.literal(v)


def check(ctx, pre, st, rng, what, key):
    stmts = pre + [st, ('instr', isa.BY_MNEMONIC['nop'][0], [])]
    judge(ctx, render.program(stmts, render.Random(rng, 0.2)), stmts, what, key, rng)


ROUTES = ['whole', 'inside', 'body', 'deep', 'deep', 'constants', 'label', 'include', 'labels of a macro']


def route(ctx, form, j, v, pos, base, rng):
    """The value arrives at the operand by a longer way than being written there."""
    how = rng.choice(ROUTES)
    if how == 'label' and not 0 <= v <= 0xFFFF or \
            how == 'labels of a macro' and (form.kinds[j] not in ('r8', 'r16', 'a12', 'a16') or pos > 0xFD00):
        how = 'whole'
    mnemonic = form.mnemonic
    args = [({'i8': 'imm', 'ri': 'ri'}.get(k, 'ex'), x if k == 'ri' else gen.literal(x))
            for k, x in zip(form.kinds, base)]
    tag = args[j][0]
    pre, defs = [], []
    e = gen.literal(v)
    if how in ('whole', 'inside', 'body', 'deep'):
        body, call = list(args), [(tag, e)]
        if how == 'inside' and v >= model.INT_MIN + 3:
            d = rng.randint(0, 3)
            body[j] = (tag, ('+', ('param', '%v'), d))
            call = [('ex', gen.literal(v - d))]
        elif how == 'body':
            body[j] = (tag, e)
            call = []
        else:
            body[j] = ('bare', '%v')
        defs = [macros.Macro('put', ['%v'] if call else [], [('mi', mnemonic, body)])]
        if how == 'deep':
            for level in range(rng.choice([1, 2, 5])):
                # the value moves from place to place
                inner = [('ex', rng.randrange(100)) for _ in defs[-1].params]
                inner[defs[-1].params.index('%v')] = ('bare', '%v')
                params = ['%a', '%b', '%c'][:rng.choice([0, 1, 3])]
                params.insert(rng.randrange(len(params) + 1), '%v')
                defs.append(macros.Macro('put%d' % level, params, [('mi', defs[-1].name, inner)]))
            call = [('ex', rng.randrange(100)) for _ in defs[-1].params]
            call[defs[-1].params.index('%v')] = (tag, e)
        st = ('call', defs[-1].name, call)
    elif how == 'labels of a macro':
        gap = rng.choice([120, 125, 126, 127, 128, 129, 130, 131, 255, 256])
        body = list(args)
        body[j] = ('ex', ('plabel', 'there%'))
        there, go, gap = [('plabel', 'there%')], [('mi', mnemonic, body)], [('mi', 'nop', [])] * gap
        defs = [macros.Macro('put', [], there + gap + go if rng.random() < 0.5 else go + gap + there)]
        st = ('call', 'put', [])
    else:
        if how == 'constants':
            n = rng.choice([1, 2, 10, 100])
            pre = [('const', 'c0', e, '=')]
            pre += [('const', 'c%d' % k, ('name', 'c%d' % (k - 1)), rng.choice(['=', 'equ'])) for k in range(1, n)]
            e = ('name', 'c%d' % (n - 1))
        elif how == 'label':
            pre = [('org', v), ('label', 'val')]
            e = ('name', 'val')
        ops = [x[1] for x in args]
        ops[j] = e
        st = ('instr', form, ops)
    end = ('instr', isa.BY_MNEMONIC['nop'][0], [])
    stmts = pre + [('org', pos), st, end]
    s = render.Random(rng, 0.2)
    if how == 'include':
        ctx.write('part.s', render.program([st], s))
        text = render.program(stmts[:-2], s) + ' .include asm "part.s"\n' + render.program([end], s)
    else:
        text = macros.source(defs, stmts, s, rng)
        stmts = macros.Expander(defs).program(stmts)
    what = '%s operand %d = %d at $%X by way of %s' % (form.name, j, v, pos, how)
    ctx.counters['by way of ' + how] += 1
    judge(ctx, text, stmts, what, what, rng)


def judge(ctx, text, stmts, what, key, rng):
    ctx.write('in.s', text)
    ctx.case(key)
    try:
        image = model.assemble(stmts)
    except model.Reject:
        ctx.counters['misfits rejected'] += 1
        expect_reject(ctx, 'in.s', what, existing=rng.choice([None, b'previous output']))
        return
    ctx.counters['fits accepted'] += 1
    expect_image(ctx, 'in.s', image, what)


def many_items(ctx, rng):
    """A list with one value at an edge, first, last, or somewhere."""
    n = min(large.size(rng), 20000)
    k = rng.choice(['byte', 'word'])
    lo, hi = (-128, 255) if k == 'byte' else (-32768, 65535)
    vals = [rng.randint(0, 255) for _ in range(n)]
    at = rng.choice([0, n - 1, rng.randrange(n)])
    v = rng.choice([lo - 1, lo, hi, hi + 1, hi + 2, rng.choice(I32)])
    vals[at] = gen.literal(v)
    what = '.%s of %d items with %d at %d' % (k, n, v, at)
    judge(ctx, render.program([(k, vals), ('byte', [1])], render.Random(rng, 0.1)), [(k, vals), ('byte', [1])], what, what, rng)


def run_case(ctx, kind, i, rng):
    if kind == 'items':
        many_items(ctx, rng)
    elif kind == 'route':
        index, j = SLOTS[i % len(SLOTS)]
        form = isa.FORMS[index]
        for _ in range(6):
            pos = rng.choice([0, 0x80, 0x0FFE, 0x1000, 0x7FFF, 0x8000, 0xFF80, rng.randrange(0xFE00)])
            base = gen.legal_values(rng, form, pos)
            if base is not None:
                v = rng.choice(field_values(form, j, pos, rng)) if rng.random() < 0.6 else rng.choice(edges(form, j, pos))
                route(ctx, form, j, v, pos, base, rng)
    elif kind == 'field':
        index, j = SLOTS[i % len(SLOTS)]
        form = isa.FORMS[index]
        pos = rng.choice([0x10000 - form.size, 0x10000 - form.size, 0, 1, 0x80, 0x7F, 0x100, 0x0FFD, 0x0FFE, 0x0FFF, 0x1000, 0x7FFF, 0x8000, 0xEF00, 0xFF80, 0xFFF0,
                          rng.randrange(0xFFF0)])
        if pos + form.size > 0xFFFF and 'a12' in form.kinds:
            pos = 0xFFF0
        base = gen.legal_values(rng, form, pos)
        if base is None:
            return
        for v in field_values(form, j, pos, rng):
            pre, e = spell(v, rng)
            ops = [x if k == 'ri' else gen.literal(x) for k, x in zip(form.kinds, base)]
            ops[j] = e
            check(ctx, pre + [('org', pos)], ('instr', form, ops), rng,
                  '%s operand %d = %d at $%X' % (form.name, j, v, pos), '%s/%d/%d/%d' % (form.name, j, v, pos))
    elif kind == 'beyond':
        large.check(ctx, rng, [large.beyond])
    elif kind == 'data':
        k = i % 5
        pos = rng.randrange(600)
        if k in (0, 1):
            for v in I32 + [-130, -129, 260, -32770, 65540, rng.randint(-70000, 70000)]:
                pre, e = spell(v, rng)
                other = [1, 2, 3]
                other.insert(rng.randrange(4), e)
                check(ctx, pre + [('org', pos)], (('byte', 'word')[k], other), rng, '%s %d' % (('byte', 'word')[k], v),
                      'data%d/%d' % (k, v))
        elif k == 2:
            for v in (0, 1, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x20000, rng.randrange(65536),
                      rng.randrange(65536, 1 << 20)):
                check(ctx, [('byte', [1])], ('org', v), rng, 'origin %d' % v, 'org/%d' % v)
        elif k == 3:
            for _ in range(12):
                t = gen.text(rng) if rng.random() < 0.7 else large.long_text(rng, large.size(rng, 0.1))
                for n in {max(0, len(t) + d) for d in (-3, -1, 0, 1, 3)}:
                    check(ctx, [], (rng.choice(['text', 'string']), n, t), rng, 'text of %d bytes in %d' % (len(t), n),
                          'text/%r/%d/%d' % (t[:40], len(t), n))
        else:
            # numbers that don't fit 32 bits are not numbers
            for v in (1 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) + 128, (1 << 64) + 3,
                      10 ** 30):
                line = rng.choice([' .byte %s\n', ' .word %s\n', ' add #%s\n', ' jmpf %s\n', ' .org %s\n', 'x = %s\n',
                                   ' .text %s "a"\n', ' .cnop 0, %s\n', ' .byte >%s\n', ' .byte %s/%s\n'])
                t = rng.choice(['%d', '$%x', '0x%X', '0o%o']) % v
                ctx.write('in.s', line.replace('%s', t))
                ctx.case('big/%s' % line.replace('%s', t))
                ctx.counters['misfits rejected'] += 1
                expect_reject(ctx, 'in.s', 'number that does not fit 32 bits')
    else:
        p = gen.Program(rng, rng.choice([3, 12, 30]), {'org': 0.2}, plain=rng.random() < 0.5)
        stmts = list(p.stmts)
        cands = [n for n, st in enumerate(stmts) if st[0] in ('instr', 'byte', 'word') and
                 not (st[0] == 'instr' and not [k for k in st[1].kinds if k != 'ri'])]
        if not cands:
            return
        n = rng.choice(cands)
        st = stmts[n]
        if st[0] == 'instr':
            j = rng.choice([j for j, k in enumerate(st[1].kinds) if k != 'ri'])
            v = rng.choice(field_values(st[1], j, p.layout.pos[n], rng))
            ops = list(st[2])
            ops[j] = gen.expr_for(rng, v, p.globals, 1) \
                if abs(v) < 1 << 29 else gen.literal(v)
            stmts[n] = ('instr', st[1], ops)
        else:
            vals = list(st[1])
            numeric = [j for j, x in enumerate(vals) if not isinstance(x, bytes)]
            if not numeric:
                return
            vals[rng.choice(numeric)] = gen.literal(rng.choice(I32))
            stmts[n] = (st[0], vals)
        src = render.program(stmts, render.Random(rng, 0.2))
        ctx.write('in.s', src)
        ctx.case(src)
        try:
            image = model.assemble(stmts)
        except model.Reject:
            ctx.counters['misfits rejected'] += 1
            expect_reject(ctx, 'in.s', 'misfit in a program', existing=rng.choice([None, b'previous output']))
            ctx.sample({'source': src[:500], 'verdict': 'rejected'})
            return
        ctx.counters['fits accepted'] += 1
        expect_image(ctx, 'in.s', image, 'values that fit in a program')
