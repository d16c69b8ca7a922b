"""C11: the expanded listing assembles to the same image."""
import re

from checks import c04, c05, c07, c08
from vlib import core, gen, large, macros, model, png, render, scatter

TECHNIQUE = 'round-trip runtime monitoring: assemble against expand then assemble, in an empty directory'
LEVEL_NOTE = 'The listing is assembled where none of the original files exist; programs are sampled.'
RULE = ('program: random programs with every statement kind and expression shape; macro: random macro programs; pool / misuse: '
        'programs that may be rejected, where both commands must agree; include: trees with source, binary, header, sprite '
        'and icon includes; scattered: programs over nested files, '
        'C headers and macros; strings: hostile string contents; large: programs, macros and included files of which one thing is large. Distinct: source texts whose expansion was assembled.')
ASSUMPTIONS = ['File names contain no line ends; expressions stay below the limit of 250 operators.']


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    return [('program', 1300 * n), ('macro', 1500 * n), ('pool', 900 * n), ('misuse', 400 * n), ('include', 500 * n),
            ('strings', 600 * n), ('expr', 500 * n), ('back', 300 * n), ('scattered', 700 * n), ('large', 130 * n)]


STRING = re.compile(r'"(\\.|[^"\\])*"', re.S)


def check(ctx, source, what):
    """Assembles `source`, and its expansion elsewhere."""
    image, r = ctx.assemble(source)
    e = ctx.run('expand', source)
    if e.crashed:
        raise core.Violation('%s: expand crashed' % what, result=e.describe())
    if image is None:
        ctx.counters['assemble rejects, expand %s' % ('accepts' if e.rc == 0 else 'rejects')] += 1
        if e.rc != 0 and not e.err.strip():
            raise core.Violation('%s: expand fails without an explanation' % what, result=e.describe())
        if e.rc == 0:
            # what is wrong with the program is wrong with its expansion
            ctx.write('alone/listing.s', e.out)
            ctx.remove('alone/out.bin')
            r2 = ctx.run('assemble', 'listing.s', '-o', 'out.bin', cwd=ctx.path('alone'))
            if r2.crashed or r2.rc == 0:
                raise core.Violation('%s: rejected, but its expansion assembles%s' % (what, ' (crash)' if r2.crashed else ''),
                                     rejected=r.describe(), listing=e.out.decode('utf-8', 'replace')[:4000])
            ctx.counters['expansions rejected as their program'] += 1
        return None
    if e.rc != 0:
        raise core.Violation('%s: assembles, but does not expand' % what, result=e.describe())
    bare = STRING.sub('""', e.out.decode('utf-8', 'surrogateescape'))
    for line in bare.split('\n'):
        line = line.split(';')[0].strip().lower()
        if line.startswith(('.include', '%macro', '%end')):
            raise core.Violation('%s: expansion with %s' % (what, line), listing=e.out.decode('utf-8', 'replace'))
    ctx.write('alone/listing.s', e.out)
    ctx.remove('alone/out.bin')
    r2 = ctx.run('assemble', 'listing.s', '-o', 'out.bin', cwd=ctx.path('alone'))
    again = ctx.read('alone/out.bin')
    ctx.counters['expansions assembled'] += 1
    ctx.counters['bytes compared'] += len(image)
    if again != image:
        raise core.Violation('%s: its expansion assembles to something else: %s' % (what, core.diff(image, again)),
                             listing=e.out.decode('utf-8', 'replace')[:4000], again=r2.describe())
    return e.out


def run_case(ctx, kind, i, rng):
    if kind == 'program':
        p = gen.Program(rng, rng.choice([5, 20, 60]), depth=3)
        src = render.program(p.stmts, render.Random(rng, rng.choice([0, 0.4, 0.8])), lambda: rng.random() < 0.4)
        ctx.write('in.s', src)
        ctx.case(src)
        check(ctx, 'in.s', 'program')
        ctx.sample({'source': src[:400]})
    elif kind == 'macro':
        ms, stmts = macros.random_program(rng)
        src = macros.source(rng.sample(ms, len(ms)), stmts, render.Random(rng, 0.3), rng)
        ctx.write('in.s', src)
        ctx.case(src)
        check(ctx, 'in.s', 'program with macros')
    elif kind == 'large':
        src = None
        if rng.random() < 0.4:
            what, src, _ = c08.large_macro(rng)
        elif rng.random() < 0.35:
            n = large.size(rng, 0.3, 0.2)
            data = rng.choice([rng.randbytes(n), bytes(n), b'\xff' * n, b'line\n' * (n // 5), b'"\\;' * (n // 3)])
            ctx.write('big.bin', data)
            what, src = 'included data', ' .byte 1\n .include bytes "big.bin"\n .byte 2\n'
            if rng.random() < 0.5:
                w, h = rng.choice([(255, 1), (255, 255), (8, 255), (9, 200), (200, 130), (100, 100)])
                rows = [[rng.choice([(0, 0, 0, 255), (255, 255, 255, 255)]) for _ in range(w)] for _ in range(h)]
                ctx.write('big.png', png.encode(w, h, rows, 'rgba'))
                typ = rng.choice(['', ' type="masked"'])
                what, src = 'included sprite', ' .byte 1\n .include sprite "big.png"%s\n .byte 2\n' % typ
                data = repr(rows)
            ctx.counters['large: ' + what] += 1
            ctx.write('in.s', src)
            ctx.case(src + repr(data))
            if check(ctx, 'in.s', what) is None:
                raise core.Violation('%s: rejected' % what)
            return
        else:
            what, stmts = rng.choice([large.items, large.string, large.padding, large.statements, large.names, large.many_names,
                                      large.numbers])(rng)
            src = render.program(stmts, render.Random(rng, 0.3))
        ctx.counters['large: ' + ' '.join(w for w in what.split() if not w.isdigit())] += 1
        ctx.write('in.s', src)
        ctx.case(src)
        check(ctx, 'in.s', what)
    elif kind == 'back':
        # the listing of a listing
        ms, stmts = macros.random_program(rng)
        ctx.write('in.s', macros.source(ms, stmts, render.Random(rng, 0.3), rng))
        out = check(ctx, 'in.s', 'program with macros')
        if out is not None:
            ctx.write('in2.s', out)
            ctx.case(out)
            check(ctx, 'in2.s', 'expanded program')
    elif kind == 'scattered':
        stmts = list(gen.Program(rng, rng.choice([8, 25]), depth=3).stmts) if rng.random() < 0.7 else c07.pool_program(rng)
        names, table = [], {str(n).lower(): 0 for st in stmts for n in scatter.names(st)}
        head = c05.header(ctx, rng, names, table) if rng.random() < 0.4 else []
        if rng.random() < 0.5:
            stmts = c04.mix(ctx, stmts, rng)
        for n, v in names:
            at = rng.randrange(len(stmts) + 1)
            stmts.insert(at, ('byte', [('lo', ('name', n)), ('hi', ('/', ('name', n), rng.randrange(1, 300)))]))
        ctx.case(scatter.write(ctx, rng, [('none', st[-1]) for st in head] + stmts, share=rng.choice([0.1, 0.3])))
        check(ctx, 'in.s', 'program over files and macros')
    elif kind == 'pool':
        src = render.program(c07.pool_program(rng), render.Random(rng, 0.4), lambda: rng.random() < 0.3)
        ctx.write('in.s', src)
        ctx.case(src)
        check(ctx, 'in.s', 'program with colliding names')
    elif kind == 'misuse':
        what, src = c08.misuse(rng)
        ctx.write('in.s', src)
        ctx.case(src, False)
        check(ctx, 'in.s', what)
    elif kind == 'strings':
        stmts = []
        for _ in range(rng.randrange(1, 8)):
            t = gen.text(rng, 40)
            stmts.append(rng.choice([('byte', [t]), ('byte', [t, rng.randrange(256), t]), ('text', len(t) + rng.randrange(3), t),
                                     ('string', len(t) + rng.randrange(3), t)]))
        src = render.program(stmts, render.Random(rng, 1.0))
        ctx.write('in.s', src)
        ctx.case(src)
        check(ctx, 'in.s', 'strings')
    elif kind == 'expr':
        names = [('k', 5), ('lab', 0)]
        lines = ['lab:', ' .byte 1', 'k = 5', '.loc:', ' nop']
        for _ in range(rng.randrange(1, 15)):
            e = gen.random_expr(rng, rng.randrange(1, 6), names)
            try:
                v = model.evaluate(e, dict(names).get)
            except model.Reject:
                continue
            s = render.Random(rng, 0.7)
            # many shapes of parentheses around every part
            lines.append(' .word (%s)-(%s)' % (render.expr(e, s), render.expr(gen.literal(v), render.Plain())))
            if 0 <= v <= 255:
                lines.append(' add #' + render.expr(e, s))
            if 0 <= v <= 511:
                lines.append(' mov #%d, %s' % (rng.randrange(256), render.expr(e, s)))
            lines.append(' .byte <%s, >(%s)' % (render.expr(e, s, 4), render.expr(e, s)))
        src = '\n'.join(lines) + '\n'
        ctx.write('in.s', src)
        ctx.case(src)
        if check(ctx, 'in.s', 'expressions') is None:
            ctx.counters['expressions rejected'] += 1
    else:
        rows = [[rng.choice([(0, 0, 0, 255), (255, 255, 255, 255), (90, 1, 2, 0)]) for _ in range(11)] for _ in range(3)]
        ctx.write('d/s p.png', png.encode(11, 3, rows, 'rgba'))
        pal = [tuple(rng.randrange(256) for _ in range(3)) + (255,) for _ in range(rng.randrange(1, 17))]
        ctx.write('d/icon.png', png.encode(32, 32, [[rng.choice(pal) for _ in range(32)] for _ in range(32)], 'rgb'))
        eye = [[rng.choice(pal) for _ in range(72)] for _ in range(56)]
        ctx.write('d/eye.png', png.encode(72, 56, eye, 'rgb'))
        ctx.write('d/b.bin', rng.randbytes(rng.randrange(0, 300)))
        ctx.write('d/h.h', '// c\n#define FOO 12\n#define BAR (FOO + 0x10)\n')
        ctx.write('d/in.s', ' .include bytes "b.bin"\n .include sprite "s p.png" type="masked"\nl1:\n .word l1\n')
        parts = [' .include "d/in.s"\n', ' .include cpp "d/h.h"\n .byte foo, bar\n', ' .include bytes "d/b.bin"\n',
                 ' .include sprite "d/s p.png"\n', ' .include sprite "d/s p.png" type="masked", header="no"\n',
                 ' .include icon "d/icon.png" speed=%d\n' % rng.randrange(65536),
                 ' .include icon "d/icon.png" eyecatch="d/eye.png"\n', ' .include icon "d/icon.png" speed=3, eyecatch="d/eye.png"\n',
                 ' .org 600\n', ' .cnop 0, 16\n', ' .byte "text; x", 1\n', 'lab:\n br lab\n']
        src = ''.join(rng.sample(parts, rng.randrange(1, 7)))
        ctx.write('in.s', src)
        ctx.case(src + repr(pal))
        if check(ctx, 'in.s', 'includes') is None:
            raise core.Violation('includes rejected', text=src)
