"""C06: data directives lay out exactly the specified bytes."""
from vlib import core, gen, large, model, render
from vlib.common import expect_image, expect_reject, source_of

TECHNIQUE = 'runtime differential monitoring against a reference layout model'
LEVEL_NOTE = 'Random directive sequences with overlaps, gaps and every escape; sampled.'
RULE = ('layout: random sequences of byte, word, text, string, origin and alignment directives (and some code), with '
        'overlaps, gaps and escapes; edges: single directives at their extremes; large: many items, statements, '
        'long strings and what lies after position 65535; bad: malformed directives. Distinct: '
        'the sequence of directives with their arguments.')
ASSUMPTIONS = ['.cnop a, m moves to the first multiple of m not before the position, plus a (docs/directives.md); the '
               'multiple 0 means the absolute position a.']


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    return [('layout', 3500 * n), ('strings', 1500 * n), ('edges', 1200 * n), ('bad', 400 * n), ('large', 160 * n)]


def run_case(ctx, kind, i, rng):
    if kind == 'layout':
        p = gen.Program(rng, rng.choice([1, 3, 10, 30, 60]),
                        {'instr': 0.6, 'byte': 4, 'word': 3, 'text': 2, 'string': 2, 'org': 2, 'cnop': 2.5, 'label': 0.5,
                         'local': 0.2, 'const': 0.5})
        stmts = list(p.stmts)
        if rng.random() < 0.25:
            # overwrite parts of what is there
            end = max(1, p.layout.end)
            for _ in range(rng.randrange(1, 5)):
                stmts.append(('org', rng.randrange(min(end, 65535))))
                stmts.append(rng.choice([('byte', [rng.randrange(256) for _ in range(rng.randrange(1, 9))]),
                                         ('word', [rng.randrange(65536)]), ('text', 6, b'over'),
                                         ('string', 5, b'st')]))
            if rng.random() < 0.5:
                stmts.append(('org', rng.randrange(min(end + 50, 65535))))
        src = source_of(stmts, rng)
        ctx.write('in.s', src)
        lay = model.Layout(stmts)
        image = model.assemble(stmts, lay)
        ctx.case(repr(stmts), len(stmts) > 1)
        for st, pos in zip(stmts, lay.pos):
            ctx.counters['stmt ' + st[0]] += 1
            if st[0] == 'org' and st[1] < pos:
                ctx.counters['backward origins'] += 1
        ctx.counters['bytes compared'] += len(image)
        expect_image(ctx, 'in.s', image, 'layout')
        ctx.sample({'source': src[:500], 'image': core.short(image, 60)})
    elif kind == 'strings':
        stmts = []
        for _ in range(rng.choice([1, 4, 10])):
            t = gen.text(rng, rng.choice([3, 20, 120]))
            k = rng.randrange(3)
            if k == 0:
                stmts.append(('byte', rng.choice([[t], [t, 0], [1, t, t, 2], [t, t]])))
            else:
                stmts.append((('text', 'string')[k - 1], len(t) + rng.choice([0, 1, 2, 30]), t))
            ctx.case(repr(stmts[-1]), len(t) > 0)
        stmts = [s for s in stmts]
        ctx.write('in.s', source_of(stmts, rng))
        ctx.counters['strings'] += len(stmts)
        expect_image(ctx, 'in.s', model.assemble(stmts), 'strings')
    elif kind == 'large':
        large.check(ctx, rng, [large.items, large.string, large.string, large.padding, large.statements, large.beyond])
    elif kind == 'edges':
        pos = rng.choice([0, 1, 0x1FF, 0x200, 0x201, rng.randrange(5000)])
        m = rng.choice([0, 1, 2, 3, 5, 8, 0x100, 0x200, 0x1000, pos, pos + 1, max(1, pos - 1), rng.randrange(1, 3000)])
        a = rng.choice([0, 1, 2, 0x1FF, 0x200, rng.randrange(600), m])
        mid = rng.choice([[('cnop', a, m)], [('cnop', a, m), ('cnop', 0, m)], [('text', rng.randrange(3000), b'')],
                          [('string', rng.choice([0, 1, 256, 9000]), b'')], [('byte', [b''])],
                          [('word', [rng.randrange(65536)] * rng.choice([1, 100]))],
                          [('byte', list(range(256)))], [('byte', list(range(-128, 0)))],
                          [('word', [-32768, -1, 65535, 32767, 0])]])
        stmts = [('org', pos)] + mid + rng.choice([[], [('byte', [0xEE])], [('org', 0)], [('org', 3), ('byte', [7])]])
        ctx.write('in.s', source_of(stmts, rng))
        ctx.case(repr(stmts))
        image = model.assemble(stmts)
        ctx.counters['bytes compared'] += len(image)
        expect_image(ctx, 'in.s', image, 'edges')
    else:
        line = rng.choice(['.byte', '.word', '.text', '.string', '.org', '.cnop', '.text 5', '.text "abc"', '.byte ,1',
                           '.byte 1,', '.byte 1 2', '.word "ab"', '.word 1,', '.text 3 "abcd"', '.string 0 "a"',
                           '.text x "abc"', '.org x', '.cnop 0', '.cnop 0,', '.cnop lab, 4', '.cnop 0, lab', '.org -1',
                           '.text -1 ""', '.byte #1', '.byte @R0', '.org 1 2', '.text 3 "abc" 1', '.byte "abc',
                           '.byte 1 .byte 2', '.bytes 1', '.data 5', '.org', '.word @r1', '.cnop 0, 4, 5', '.text 4, "a"'])
        ctx.write('in.s', 'lab:\n nop\n%s\n nop\n' % render_case(line, rng))
        ctx.case('bad ' + line)
        ctx.counters['malformed directives'] += 1
        expect_reject(ctx, 'in.s', 'malformed directive %s' % line)


def render_case(line, rng):
    return rng.choice([line, ' ' + line, line + ' ; c'])
