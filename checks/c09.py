"""C09: spelling that carries no meaning never changes the output."""
import random

from vlib import core, gen, isa, large, macros, model, png, render
from vlib.common import expect_image

TECHNIQUE = 'metamorphic runtime monitoring: many spellings of one program, one image'
LEVEL_NOTE = ('Every respelling is compared with the canonical spelling and with the reference image; spellings are '
              'sampled.')
RULE = ('program / macro: a random program in its canonical spelling and in several random ones (letter case, blanks, '
        'comments, blank lines, radix, digit separators, parentheses, line ends, label placement); one: a single dimension of '
        'spelling at a time; strings: literals with comment characters, quotes, blanks and mixed case; numbers: '
        'every radix and separator placement. Distinct: respelled source texts.')
ASSUMPTIONS = ['* starts a comment only in the first column.']


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    return [('program', 900 * n), ('macro', 700 * n), ('one', 1300 * n), ('strings', 700 * n), ('numbers', 400 * n),
            ('files', 300 * n), ('large', 120 * n)]


class Mixed(render.Random):
    """Every line may end differently, and any blank may be any white space."""

    def __init__(self, rng, wild=0.5):
        render.Random.__init__(self, rng, wild, '\n')

    @property
    def newline(self):
        return self.rng.choice(['\n', '\r\n'])

    @newline.setter
    def newline(self, v):
        pass

    def gap(self):
        return self.rng.choice([' ', '\t', '\x0c', '\x0b', ' \t\x0c ', '\xa0', '\u2003', '  '])

    def opt(self):
        return self.rng.choice(['', '', ' ', '\t', '\x0c', '\u3000'])

    def lead(self):
        return self.rng.choice(['', ' ', '\t', '\x0b', '\xa0\xa0', '          '])


class Only(render.Plain):
    """The plain spelling except for one dimension."""
    DIMENSIONS = ['number', 'name', 'word', 'gap', 'opt', 'parens', 'lead', 'tail', 'between', 'newline', 'string']

    def __init__(self, rng, dim):
        other = Mixed(rng, 1.0) if rng.random() < 0.3 else render.Random(rng, 1.0)
        if dim == 'newline':
            self.newline = '\r\n'
        elif dim == 'case':
            self.name = self.word = other.name
        elif dim == 'upper':
            self.name = self.word = str.upper
        elif dim == 'tight':
            self.lead = lambda: ''
        else:
            setattr(self, dim, getattr(other, dim))


def finish(src, rng):
    """The end of the last line is optional, text may follow blank lines."""
    k = rng.randrange(6)
    if k == 0:
        return src.rstrip('\r\n') if not src.rstrip('\r\n').endswith('\\') else src
    if k == 1:
        return src + rng.choice(['\n\n\n', '   ', '\t', ';', '; end', '\r\n', '\n*', '\n* end', ' \n;\n'])
    if k == 2:
        return rng.choice(['\n', '\r\n\r\n', '; top\n', '*top\n', '   \n', ';\r\n']) + src
    return src


def loose_locals(src, stmts, rng):
    """Local labels alone on their line don't need the colon."""
    out = []
    for line in src.split('\n'):
        body = line.strip()
        if body.endswith(':') and body.startswith('.') and ' ' not in body and '"' not in body and rng.random() < 0.6:
            line = line.replace(body, body[:-1])
        out.append(line)
    return '\n'.join(out)


def compare(ctx, variants, image, what, prog):
    for style, src in variants:
        ctx.write('in.s', src)
        ctx.case(src)
        ctx.counters['style ' + style] += 1
        expect_image(ctx, 'in.s', image, '%s respelled (%s)' % (what, style), canonical=prog)


def program(rng, size=None):
    while True:
        p = gen.Program(rng, size or rng.choice([4, 12, 30]), depth=2)
        if p.stmts:
            return p


def run_case(ctx, kind, i, rng):
    if kind == 'program':
        p = program(rng)
        join = lambda: rng.random() < 0.5  # noqa: E731
        plain = render.program(p.stmts, render.Plain())
        ctx.write('in.s', plain)
        expect_image(ctx, 'in.s', p.image, 'canonical spelling')
        variants = [('wild', finish(render.program(p.stmts, render.Random(rng, 1.0), join), rng)),
                    ('mixed', finish(render.program(p.stmts, Mixed(rng, rng.choice([0.2, 0.8])), join), rng)),
                    ('joined labels', render.program(p.stmts, render.Plain(), lambda: True)),
                    ('labels without colon', loose_locals(plain, p.stmts, rng))]
        compare(ctx, variants, p.image, 'program', plain)
        ctx.sample({'canonical': plain[:300], 'respelled': variants[0][1][:600]})
    elif kind == 'one':
        p = program(rng, 12)
        dims = Only.DIMENSIONS + ['case', 'upper', 'tight']
        dim = dims[i % len(dims)]
        src = render.program(p.stmts, Only(rng, dim), None)
        compare(ctx, [(dim, src)], p.image, 'program', render.program(p.stmts, render.Plain()))
    elif kind == 'macro':
        ms, stmts = macros.random_program(rng)
        order = random.Random(rng.random())
        state = order.getstate()
        plain = macros.source(ms, stmts, render.Plain(), order)
        ctx.write('in.s', plain)
        image, r = ctx.assemble('in.s')
        for style, s in (('wild', render.Random(rng, 1.0)), ('mixed', Mixed(rng, 0.5)),
                         ('upper', Only(rng, 'upper')), ('case', Only(rng, 'case'))):
            order.setstate(state)
            src = finish(macros.source(ms, stmts, s, order), rng)
            ctx.write('in.s', src)
            ctx.case(src)
            ctx.counters['macro style ' + style] += 1
            other, r2 = ctx.assemble('in.s')
            if other != image:
                raise core.Violation('respelling a program with macros (%s) changed its outcome: %s'
                                     % (style, core.diff(image, other)), canonical=plain, respelled=src,
                                     before=r.describe(), after=r2.describe())
    elif kind == 'large':
        # much of what carries no meaning
        p = program(rng, 12)
        plain = render.program(p.stmts, render.Plain())
        n = large.size(rng, 0.4, 0.2)
        k = rng.randrange(7)
        if k == 0:
            what, extra = 'blank lines', rng.choice(['\n', '\r\n', ' \n']) * n
        elif k == 1:
            what, extra = 'characters of comment', rng.choice([';', ' ;']) + rng.choice(['x', ';', '"', 'é', ' ', '*'])[:1] * n + '\n'
        elif k == 2:
            what, extra = 'lines of comments', rng.choice(['; c\n', '* c\n', ' ; .byte 1\n']) * n
        elif k == 3:
            what, extra = 'spaces', rng.choice([' ', '\t', '  ']) * n
        elif k == 4:
            what, extra = 'characters in lines', ''
        elif k == 5:
            what, extra = 'line ends', rng.choice(['\n', '\r\n']) * n + ' ' * 70 + '\n'
        else:
            what, extra = 'parentheses', ''
        lines = plain.split('\n')
        at = rng.choice([0, len(lines) - 1, rng.randrange(len(lines))])
        if k == 4:
            # spaces in the place of every gap of a line
            lines = [x.replace(' ', ' ' * min(n, 3000)) if '"' not in x and j == at else x for j, x in enumerate(lines)]
            src = '\n'.join(lines)
        elif k == 6:
            m = min(n, 200)
            lines.insert(at, 'paren_%d = %s7%s' % (m, '(' * m, ')' * m))
            lines.append(' ')
            src = '\n'.join(lines)
        else:
            lines[at] = extra + lines[at]
            src = '\n'.join(lines)
        compare(ctx, [('many ' + what, src)], p.image, 'program', plain)
    elif kind == 'strings':
        texts = [gen.text(rng, 30) if rng.random() < 0.6 else rng.choice(
            [b'; not a comment', b'* star', b'a;b', b'//', b'/* c */', b'MiXeD CaSe', b'  spaces  ', b'\ttab\t', b'%macro',
             b'"', b'\\', b'\\\\', b'\\"', b'a "quoted" b', b'#;:,()', b"it's", b'0x10 $20 %11', b'end;', b'equ EQU',
             '; ünï'.encode(), b'\\n is not a newline', b'.byte 1'])
            for _ in range(rng.randrange(1, 6))]
        stmts = []
        for t in texts:
            k = rng.randrange(4)
            if k == 0:
                stmts.append(('text', len(t) + rng.choice([0, 1, 5]), t))
            elif k == 1:
                stmts.append(('string', len(t) + rng.choice([0, 1, 5]), t))
            else:
                stmts.append(('byte', [t, rng.randrange(256)]))
        image = model.assemble(stmts)
        for s in (render.Plain(), render.Random(rng, 1.0), Mixed(rng, 1.0)):
            src = render.program(stmts, s)
            ctx.write('in.s', src)
            ctx.case(src)
            ctx.counters['string literals'] += len(stmts)
            expect_image(ctx, 'in.s', image, 'string literals', text=src)
        # White space and case within a literal are part of it, newlines too
        raw = ''.join(rng.choice('aA  \t;*:,#%.$()\n\r') for _ in range(rng.randrange(1, 20)))
        data = raw.encode()
        src = ' .byte 1, "%s"\n .byte 2\n' % raw if rng.random() < 0.5 else ' .text %d "%s"\n .byte 2\n' % (len(data), raw)
        want = (b'\1' if '.byte 1' in src else b'') + data + b'\2'
        ctx.write('in.s', src)
        ctx.case(src)
        ctx.counters['raw literals'] += 1
        expect_image(ctx, 'in.s', want, 'raw characters in a literal', text=src)
    elif kind == 'numbers':
        lines, want = [], bytearray()
        for _ in range(60):
            v = rng.choice([rng.randrange(1 << rng.randrange(1, 17)), 0, 1, 255, 256, 65535, 10, 16])
            forms = [lambda d: ('$', '%x' % d), lambda d: ('0x', '%x' % d), lambda d: ('0X', '%X' % d),
                     lambda d: ('%', bin(d)[2:]), lambda d: ('0b', bin(d)[2:]), lambda d: ('0B', bin(d)[2:]),
                     lambda d: ('0o', oct(d)[2:]), lambda d: ('0O', oct(d)[2:]), lambda d: ('', str(d))]
            pre, digits = rng.choice(forms)(v)
            digits = '0' * rng.choice([0, 0, 1, 2, 9, 9, 30, 300]) + digits
            digits = ''.join(rng.choice((c, c.upper())) for c in digits)
            out = digits[0]
            for c in digits[1:]:
                out += "'" * (rng.random() < 0.3) + c
            ctx.counters['radix ' + (pre or 'decimal')] += 1
            ctx.case(pre + out)
            lines.append(' .word ' + pre + out)
            want += bytes((v & 255, v >> 8))
        ctx.write('in.s', '\n'.join(lines))
        expect_image(ctx, 'in.s', bytes(want), 'number literals', lines=lines[:70])
    else:
        # the spelling of includes and their options
        rows = [[(0, 0, 0, 255) if rng.random() < 0.5 else (255, 255, 255, 255) for _ in range(9)] for _ in range(5)]
        ctx.write('a.png', png.encode(9, 5, rows, 'rgba'))
        ctx.write('Inc.S', ' .byte 7\n')
        ctx.write('b.bin', bytes(rng.randrange(256) for _ in range(9)))
        ctx.write('h.h', '#define FOO 12\n')
        plain = (' .include "Inc.S"\n .include asm "Inc.S"\n .include bytes "b.bin"\n .include cpp "h.h"\n .byte foo\n'
                 ' .include sprite "a.png" type="masked", header="no"\n')
        ctx.write('in.s', plain)
        image, r = ctx.assemble('in.s')
        if image is None:
            raise core.Violation('includes rejected', result=r.describe())
        s = render.Random(rng, 1.0) if rng.random() < 0.5 else Mixed(rng, 1.0)
        w, g, o = s.word, s.gap, s.opt
        lines = [w('.include') + g() + '"Inc.S"', w('.include') + g() + w('asm') + g() + '"Inc.S"',
                 w('.include') + g() + w('bytes') + g() + '"b.bin"', w('.include') + g() + w('cpp') + g() + '"h.h"',
                 w('.byte') + g() + w('foo')]
        props = [w('type') + o() + '=' + o() + '"masked"', w('header') + o() + '=' + o() + '"no"']
        rng.shuffle(props)
        lines.append(w('.include') + g() + w('sprite') + g() + '"a.png"' + g() + (o() + "," + o()).join(props))
        src = ''.join(s.between() + s.lead() + x + s.tail() + s.newline for x in lines)
        ctx.write('in.s', src)
        ctx.case(src)
        expect_image(ctx, 'in.s', image, 'respelled includes', text=src)
