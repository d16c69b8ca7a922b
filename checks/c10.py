"""C10: including a file is equivalent to having its content in place."""
import os
import re

from vlib import core, gen, isa, macros, model, png, render
from vlib.common import expect_image, expect_reject

TECHNIQUE = 'metamorphic runtime monitoring: include trees against the concatenated text and the reference image'
LEVEL_NOTE = 'Include trees, directory layouts and working directories are sampled; symbolic links are not exercised.'
RULE = ('tree: a random program cut at statement boundaries into a random tree of files in random directories, assembled '
        'from random working directories, against the reference image; text: programs with macros cut at line boundaries; '
        'repeat: files included many times and deep chains; bytes: binary content; header: numeric C macros; fallback: files '
        'found in the working directory only, with decoys; broken: missing or unreadable files at any depth; trailing: text after an include on its line, '
        'with and without a comment; images: sprites, icons, eyecatches and binary files up to five directories deep; large: hundreds of files, includes of one file or macros of a header, long comments and names. Distinct: the trees '
        '(all file contents).')
ASSUMPTIONS = ['C headers: comments and #define NAME with decimal, hex or binary numbers and expressions whose meaning is the same in C.']


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    return [('tree', 1300 * n), ('text', 700 * n), ('repeat', 500 * n), ('bytes', 400 * n), ('header', 700 * n),
            ('fallback', 700 * n), ('broken', 700 * n), ('trailing', 400 * n), ('images', 500 * n), ('large', 60 * n)]


DIRS = ['', 'sub', 'sub/deep', 'lib', 'Lib2/x y', 'ünï', 'a.b/c', 'sub/deep/er']
NAMES = ['a.s', 'sfr.i', 'B.ASM', 'x y.inc', 'ö.s', 'noext', 'a.b.c', '-x.s', "it's.s", 'a#b.s', '%a.s', 'semi;colon.s']


class Tree:
    """Files being created under the scratch directory."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng, self.used, self.files = ctx, rng, set(), {}
        for d in DIRS:
            os.makedirs(ctx.path(d), exist_ok=True)
        # something to be relative to outside of the tree
        os.makedirs(ctx.path('elsewhere/q'), exist_ok=True)

    def new(self, suffix=None):
        while True:
            d, n = self.rng.choice(DIRS), self.rng.choice(NAMES)
            if suffix:
                n = n.split('.')[0] + suffix
            if self.rng.random() < 0.6:
                n = '%d%s' % (self.rng.randrange(100), n)
            path = os.path.join(d, n)
            if path.lower() not in self.used:
                self.used.add(path.lower())
                return path

    def write(self, path, data):
        self.ctx.write(path, data)
        self.files[path] = data if isinstance(data, bytes) else data.encode()

    def ref(self, frm, to):
        """Some path of `to` for an include in the file `frm`."""
        rng = self.rng
        here = os.path.dirname(frm)
        rel = os.path.relpath(to, here or '.')
        k = rng.randrange(6)
        if k == 0:
            rel = './' + rel
        elif k == 1:
            rel = os.path.join(os.path.relpath('sub', here or '.'), '..', to)
        elif k == 2:
            rel = self.ctx.path(to)
        elif k == 3:
            rel = rel.replace('/', '//')
        return rel

    def key(self):
        return repr(sorted(self.files.items()))


def quoted(path):
    return '"%s"' % path.replace('\\', '\\\\').replace('"', '\\"')


def include(rng, path, kind=None):
    kw = rng.choice(['.include', '.include', '.INCLUDE', '.Include'])
    if kind is None:
        kind = rng.choice(['', '', 'asm ', 'ASM '])
    return ' %s %s%s' % (kw, kind, quoted(path)) + rng.choice(['', '', ' ', ' ; inc']) + rng.choice(['\n', '\n', '\r\n'])


def invocation(ctx, tree, main, rng):
    """(working directory, path of main from there)"""
    cwd = rng.choice(DIRS + ['elsewhere', 'elsewhere/q'])
    wd = ctx.path(cwd) if cwd else ctx.dir
    k = rng.randrange(4)
    if k == 0:
        return wd, ctx.path(main)
    rel = os.path.relpath(main, cwd or '.')
    if k == 1:
        rel = './' + rel
    if rel.startswith('-'):
        rel = './' + rel
    return wd, rel


def assemble_from(ctx, tree, main, rng, image, what):
    wd, path = invocation(ctx, tree, main, rng)
    out = ctx.path('out.bin')
    ctx.remove('out.bin')
    r = ctx.run('assemble', path, '-o', out, cwd=wd)
    data = ctx.read('out.bin')
    if data != image:
        raise core.Violation('%s: %s' % (what, 'rejected' if data is None else core.diff(image, data)),
                             expected=image, actual=data, result=r.describe(), cwd=wd)
    ctx.counters['cwd ' + os.path.relpath(wd, ctx.dir)] += 1
    return r


def split(rng, tree, path, items, depth, style):
    """Writes the items (texts) into path and files included from it."""
    text = ''
    i = 0
    while i < len(items):
        if depth > 0 and rng.random() < 0.3:
            n = rng.choice([0, 1, 1, 2, 3, len(items) - i, rng.randrange(len(items) - i + 1)])
            sub = tree.new()
            split(rng, tree, sub, items[i:i + n], depth - 1, style)
            text += include(rng, tree.ref(path, sub))
            tree.ctx.counters['includes'] += 1
            i += n
            if n == 0 and rng.random() < 0.5:
                text += items[i]
                i += 1
        else:
            text += items[i]
            i += 1
    if rng.random() < 0.4:
        text = text.rstrip('\r\n')
    tree.write(path, text)


def tree(ctx, t, rng):
    p = gen.Program(rng, rng.choice([5, 15, 40]))
    stmts = list(p.stmts)
    main = t.new('.s')
    s = render.Random(rng, 0.2)
    items, full = [], []
    # binary includes stand for .byte statements
    for st in stmts:
        if st[0] == 'byte' and all(isinstance(x, int) and x >= 0 for x in st[1]) and rng.random() < 0.7:
            items.append(('bytes', bytes(st[1])))
        else:
            items.append(render.program([st], s))
        full.append(st)
    texts = []
    for it in items:
        if isinstance(it, tuple):
            b = t.new('.bin')
            t.write(b, it[1])
            texts.append(include(rng, ctx.path(b), rng.choice(['bytes ', 'BYTES '])))
        else:
            texts.append(it)
    split(rng, t, main, texts, rng.choice([1, 2, 4, 8]), s)
    ctx.case(t.key(), len(t.files) > 1)
    ctx.counters['files'] += len(t.files)
    assemble_from(ctx, t, main, rng, p.image, 'include tree')
    ctx.sample({'files': {k: v[:120].decode('utf-8', 'replace') for k, v in list(t.files.items())[:5]}})


def text(ctx, t, rng):
    ms, stmts = macros.random_program(rng)
    src = macros.source(ms, stmts, render.Random(rng, 0.3, '\n'), rng)
    ctx.write('whole.s', src)
    image, r = ctx.assemble('whole.s')
    # only a line feed ends a line: a carriage return in a comment does not
    lines = re.findall(r'[^\n]*\n|[^\n]+', src)
    main = t.new('.s')
    split(rng, t, main, lines, rng.choice([1, 2, 4]), None)
    ctx.case(t.key(), len(t.files) > 1)
    wd, path = invocation(ctx, t, main, rng)
    ctx.remove('out.bin')
    r2 = ctx.run('assemble', path, '-o', ctx.path('out.bin'), cwd=wd)
    data = ctx.read('out.bin')
    ctx.counters['text accepted' if image is not None else 'text rejected'] += 1
    if data != image:
        raise core.Violation('text cut into files: %s' % core.diff(image, data), whole=src, before=r.describe(),
                             after=r2.describe())


def repeat(ctx, t, rng):
    main = t.new('.s')
    k = rng.randrange(3)
    if k == 0:
        # short files, many times, next to each other and on shared lines
        parts = []
        for _ in range(rng.randrange(1, 4)):
            n = t.new()
            st = [rng.choice([('byte', [rng.randrange(256)]), ('word', [rng.randrange(65536)]), ('byte', [b'q;"\n']),
                              ('instr', isa.BY_MNEMONIC['nop'][0], []), ('instr', isa.BY_MNEMONIC['ret'][0], []),
                              ('cnop', 0, 4), ('text', 3, b'a')]) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
            s = render.Random(rng, 0.2)
            src = render.program(st, s)
            if rng.random() < 0.4:
                src = src.strip()
            t.write(n, src)
            parts.append((n, st))
        stmts, src = [], ''
        for _ in range(rng.randrange(1, 12)):
            if rng.random() < 0.75:
                n, st = rng.choice(parts)
                stmts += st
                src += include(rng, t.ref(main, n))
            else:
                stmts.append(('byte', [rng.randrange(256)]))
                src += render.program(stmts[-1:], render.Plain())
        t.write(main, src)
    elif k == 1:
        # a chain
        depth = rng.choice([3, 30, 100, 190])
        stmts, prev = [('byte', [99])], t.new()
        t.write(prev, ' .byte 99\n')
        for d in range(depth):
            cur = main if d == depth - 1 else t.new() if depth < 60 else 'c%d.s' % d
            a, b = rng.randrange(256), rng.randrange(256)
            t.write(cur, ' .byte %d\n%s .byte %d\n' % (a, include(rng, t.ref(cur, prev)), b))
            stmts = [('byte', [a])] + stmts + [('byte', [b])]
            prev = cur
        ctx.counters['chain of %d' % depth] += 1
    else:
        # a tree with the same leaves: 2^d times
        depth = rng.randrange(1, 8)
        leaf = t.new()
        t.write(leaf, ' .byte 1, 2\n')
        prev, stmts = leaf, [('byte', [1, 2])]
        for d in range(depth):
            cur = main if d == depth - 1 else t.new()
            x = rng.randrange(256)
            t.write(cur, include(rng, t.ref(cur, prev)) + ' .byte %d\n' % x + include(rng, t.ref(cur, prev)))
            stmts = stmts + [('byte', [x])] + stmts
            prev = cur
    ctx.case(t.key())
    assemble_from(ctx, t, main, rng, model.assemble(stmts), 'repeated includes')


def bytes_(ctx, t, rng):
    main = t.new('.s')
    src, stmts = '', []
    for _ in range(rng.randrange(1, 6)):
        n = rng.choice([0, 1, 2, 3, rng.randrange(600), rng.choice([255, 256, 257, 4096, 20000, 65535, 65536, 65537, 70000])])
        data = rng.randbytes(n) if rng.random() < 0.6 else bytes(k & 255 for k in range(n)) if rng.random() < 0.5 else \
            (b'\r\n\x1a\0\xef\xbb\xbf;' * (n // 8 + 1))[:n]
        b = t.new(rng.choice(['.bin', '.s', '.png']))
        t.write(b, data)
        src += include(rng, t.ref(main, b), rng.choice(['bytes ', 'Bytes ']))
        stmts.append(('byte', [data]))
        ctx.counters['binary bytes'] += n
        if rng.random() < 0.3:
            src += 'l%d:\n .word l%d\n' % (len(stmts), len(stmts))
            stmts += [('label', 'l%d' % len(stmts)), ('word', [('name', 'l%d' % len(stmts))])]
    t.write(main, src)
    ctx.case(t.key())
    try:
        image = model.assemble(stmts)
    except model.Reject as r:
        expect_reject(ctx, main if not main.startswith('-') else './' + main, 'binary includes (%s)' % r.why)
        return
    assemble_from(ctx, t, main, rng, image, 'binary includes')


def header(ctx, t, rng):
    """Numeric macros as C understands them."""
    used, lines, consts = set(), [], []
    nl = rng.choice(['\n', '\n', '\r\n'])

    def comment():
        return rng.choice(['// c', '/* c */', '/* ünï ✓ */', '/* a' + nl + ' * b */', '//', '/**/', '/* #define X 1 */',
                           '// #define Y 2', '/* ** / */', '/*/ #define X 1 */', '/*//*/', '/* // */', '/* /* */', '/***/', '// é', '/* " */', "// don't", '/* ; */'])

    for _ in range(rng.randrange(0, 9)):
        n = gen.name(rng, used).replace('.', '_').replace('$', 'S')
        if n.lower() in {c[0].lower() for c in consts} or n.lower() in gen._RESERVED or n[0].isdigit():
            continue
        v = rng.choice([rng.randrange(256), rng.randrange(65536), 0, 1])
        k = rng.randrange(6)
        if k == 0 and consts:
            o = rng.choice(consts)
            e, v = '%s + %d' % (o[0], v), o[1] + v
        elif k == 1:
            d = rng.randrange(1, 50)
            e, v = '(%d * %d)' % (v, d), v * d
        elif k == 2:
            e, v = '(%d - 1) / 2' % (v + 1), v // 2
        else:
            e = rng.choice(['%d', '0x%x', '0X%X', '(%d)', '0x%04X', '((%d))']) % v
        g = lambda: rng.choice([' ', '  ', '\t', ' /* x */ '])  # noqa: E731
        lines.append(rng.choice(['', ' ']) + '#' + rng.choice(['', '', ' ']) + 'define' + g() + n + g() + e +
                     rng.choice(['', '', ' ', ' ' + comment()]))
        consts.append((n, v))
        while rng.random() < 0.3:
            lines.append(comment())
        if rng.random() < 0.2:
            lines.append('')
    if rng.random() < 0.5:
        lines.insert(0, comment())
    src = nl.join(lines) + (nl if rng.random() < 0.8 else '')
    h, main = t.new('.h'), t.new('.s')
    t.write(h, src)
    stmts, text = [], ''
    for n, v in consts:
        if v >= 1 << 31:
            continue
        stmts += [('byte', [v & 255, v >> 8 & 255]), ('byte', [7])]
        text += ' .byte <%s, >%s, %s/%s*0+7\n' % (n, n.upper(), n.lower(), 1)
    inc = include(rng, t.ref(main, h), rng.choice(['cpp ', 'CPP ']))
    k = rng.randrange(3)
    t.write(main, inc + text if k else text + inc)
    ctx.case(t.key(), bool(consts))
    ctx.counters['C macros'] += len(consts)
    assemble_from(ctx, t, main, rng, model.assemble(stmts), 'C header')
    if consts:
        # nothing else is defined, and the macros really are
        n = rng.choice(consts)[0]
        t.write(main, inc + '%s = 5\n .byte 1\n' % n)
        expect_reject(ctx, main, 'redefinition of a macro of a C header')
        t.write(main, ' .byte 1\n .byte <%s\n' % n)
        expect_reject(ctx, main, 'macro of a C header that is not included')
        for other in ('define', 'X', 'Y', 'c'):
            if other.lower() not in {c[0].lower() for c in consts}:
                t.write(main, inc + ' .byte <%s\n' % other)
                expect_reject(ctx, main, 'name that the C header does not define')
                break


def large(ctx, t, rng):
    """Many files, many includes of a file, large headers."""
    main = t.new('.s')
    n = rng.choice([17, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 513, 1025])
    k = rng.randrange(5)
    stmts, src = [], ''
    if k == 0:
        what = 'many files'
        sub = rng.choice(['', 'd/', 'a dir/'])
        for j in range(n):
            name = '%sf%d.i' % (sub, j)
            st = [('byte', [j & 255]), ('label', 'f%d' % j), ('byte', [1])] if rng.random() < 0.6 else [('word', [j])]
            t.write(os.path.join(os.path.dirname(main), name), render.program(st, render.Plain()))
            stmts += st
            src += ' .include "%s"\n' % name
    elif k == 1:
        what = 'a file included many times'
        part = t.new()
        st = rng.choice([[('byte', [7])], [('byte', [7]), ('instr', isa.BY_MNEMONIC['nop'][0], [])]])
        t.write(part, render.program(st, render.Plain()))
        n = rng.choice([n, 5000])
        stmts = st * n
        src = (' .include "%s"\n' % t.ref(main, part)) * n
    elif k == 2:
        what = 'many binary files'
        for j in range(n):
            name = 'b%d.bin' % j
            data = rng.randbytes(rng.choice([0, 1, 2, 40]))
            t.write(os.path.join(os.path.dirname(main), name), data)
            stmts += [('byte', [data]), ('byte', [j & 255])] if data else [('byte', [j & 255])]
            src += ' .include bytes "%s"\n .byte %d\n' % (name, j & 255)
    elif k == 3:
        what = 'a header with many macros'
        h = t.new('.h')
        style = rng.randrange(3)
        lines, v = [], {}
        for j in range(n):
            v['K%d' % j] = j * 7 & 0xFFFF if style else j
            lines.append('#define K%d %s' % (j, '0x%X' % (j * 7 & 0xFFFF) if style == 1 else '(%d)' % (j * 7 & 0xFFFF) if style == 2 else
                                             '(K%d + 1)' % (j - 1) if j else '0'))
            if rng.random() < 0.05:
                lines.append(rng.choice(['', '// c', '/*' + '\n *' * rng.choice([1, 300]) + '/', '//' + ' x' * 200]))
        t.write(h, '\n'.join(lines) + '\n')
        uses = rng.sample(range(n), min(n, 15)) + [n - 1, 0]
        stmts = [('word', [v['K%d' % j] for j in uses])]
        src = include(rng, t.ref(main, h), 'cpp ') + ' .word ' + ', '.join('k%d' % j for j in uses) + '\n'
    else:
        what = 'a header with long parts'
        h = t.new('.h')
        name = 'N' + 'x' * rng.choice([31, 32, 63, 64, 255, 256, 1000])
        text = ''.join(rng.choice(['/*' + ' *' * 3000 + '/\n', '//' + '-' * 5000 + '\n', '\n' * 3000, ' ' * 3000 + '\n', '/*' + '\n' * 300 + '*/'])
                       for _ in range(rng.randrange(1, 4)))
        text += '#define %sA%s%s5\n#define %sB %s6%s\n' % (name, ' ' * rng.choice([1, 300]), '/* %s */' % ('y' * 300), name, '(' * 100, ')' * 100)
        t.write(h, text)
        stmts = [('byte', [5, 6])]
        src = include(rng, t.ref(main, h), 'cpp ') + ' .byte %sA, %sb\n' % (name.lower(), name)
    t.write(main, src + ' .byte $EE\n')
    stmts.append(('byte', [0xEE]))
    ctx.case(t.key())
    ctx.counters['large: ' + what] += 1
    assemble_from(ctx, t, main, rng, model.assemble(stmts), what)


def content(ctx, t, rng, kind, marker):
    """Bytes of a file of the kind that contributes marker, and the bytes."""
    if kind == 'bytes':
        return bytes([marker, 1]), bytes([marker, 1])
    if kind == 'cpp':
        return b'#define MARK%d %d\n' % (0, marker), b''
    if kind == 'sprite':
        row = [(0, 0, 0, 255) if marker >> (7 - k) & 1 else (255, 255, 255, 255) for k in range(8)]
        return png.encode(8, 1, [row], 'rgba'), bytes([marker])
    return b' .byte %d\n' % marker, bytes([marker])


def line(rng, path, kind):
    if kind == 'sprite':
        return ' .include sprite %s header="no"\n' % quoted(path)
    return include(rng, path, {'bytes': 'bytes ', 'cpp': 'cpp '}.get(kind))


def fallback(ctx, t, rng):
    """Which of several candidates is taken, in a file of another directory."""
    kind = rng.choice(['asm', 'asm', 'bytes', 'cpp', 'sprite'])
    ext = {'asm': '.i', 'bytes': '.bin', 'cpp': '.h', 'sprite': '.png'}[kind]
    name = rng.choice(['x' + ext, 'd/x' + ext, '../x' + ext if rng.random() < 0.3 else 'y' + ext])
    os.makedirs(ctx.path('p/q/r'), exist_ok=True)
    main = 'p/main.s'
    nested = rng.random() < 0.6
    frm = 'p/q/inc.s' if nested else main
    cwd = rng.choice(['w/w2', 'p', 'p/q', 'p/q/r', 'elsewhere/q'])
    os.makedirs(ctx.path(cwd), exist_ok=True)
    here = os.path.normpath(os.path.join(os.path.dirname(frm), name))
    there = os.path.normpath(os.path.join(cwd, name))
    decoy = os.path.normpath(os.path.join('p', name))
    present = {}
    if rng.random() < 0.5:
        present[here] = None
    if rng.random() < 0.7:
        present[there] = None
    if rng.random() < 0.7:
        present[decoy] = None
    other = os.path.normpath(os.path.join('p/q/r', name))
    if rng.random() < 0.4:
        present[other] = None
    outs = {}
    for k, p in enumerate(present):
        data, out = content(ctx, t, rng, kind, 17 + k)
        t.write(p, data)
        outs[p] = (17 + k, out)
    rest = ' .byte MARK0\n' if kind == 'cpp' else ''
    t.write(frm, line(rng, name, kind) + rest)
    if nested:
        t.write(main, include(rng, 'q/inc.s') + ' .byte 5\n')
    ctx.remove('out.bin')
    path = os.path.relpath(main, cwd) if rng.random() < 0.6 else ctx.path(main)
    r = ctx.run('assemble', path, '-o', ctx.path('out.bin'), cwd=ctx.path(cwd))
    data = ctx.read('out.bin')
    taken = here if here in present else there if there in present else None
    ctx.case((kind, name, nested, cwd, sorted(present), path))
    if taken is None:
        ctx.counters['candidate: none'] += 1
        if data is not None or r.rc == 0:
            raise core.Violation('included a file that is in neither place', result=r.describe(), output=data)
        return
    ctx.counters['candidate: ' + ('own directory' if taken == here else 'working directory')] += 1
    m, out = outs[taken]
    want = (bytes([m]) if kind == 'cpp' else out) + (b'\5' if nested else b'')
    if data != want:
        raise core.Violation('included the wrong file: %s' % core.diff(want, data), result=r.describe(),
                             files=sorted(present), including=frm, cwd=cwd)
    warned = os.path.basename(name).encode() in r.err       # success names only the output
    if taken == here and warned:
        raise core.Violation('warning about a file that is where it should be', result=r.describe())
    if taken != here and not warned:
        raise core.Violation('no warning about a file taken from the working directory', result=r.describe())


AFTER = ['5', 'x', '.byte 1', '"s"', ')', '(', ',', '#5', '@r1', '+', 'nop', 'lab:', '= 5', 'm', '-1', '<x', '.include "y.s"', '%x', '%end', ':']


def trailing(ctx, t, rng):
    """What follows an include on its line is an error: it is never dropped."""
    kind = rng.choice(['asm', 'cpp', 'bytes', 'sprite'])
    main, frm = t.new('.s'), None
    frm = main if rng.random() < 0.5 else t.new('.i')
    inc = t.new({'asm': '.i', 'bytes': '.bin', 'cpp': '.h', 'sprite': '.png'}[kind])
    t.write(inc, content(ctx, t, rng, kind, 17)[0])
    good = line(rng, t.ref(frm, inc), kind).rstrip('\r\n').removesuffix(' ; inc')
    after = rng.choice(AFTER)
    comment = rng.choice(['', ' ; c', '\t; .byte 1', ';'])
    before, rest = rng.choice(['', ' .byte 3\n']), rng.choice(['', '\n', '\n .byte 4\n'])
    if frm != main:
        t.write(main, include(rng, t.ref(main, frm)))
    ctx.case((t.key(), good, after, comment, before, rest))
    ctx.counters['text after: ' + kind] += 1
    t.write(frm, before + good + comment + rest)
    ctx.remove('out.bin')
    start = main if not main.startswith('-') else './' + main
    r = ctx.run('assemble', start, '-o', 'out.bin')
    if r.rc != 0:
        raise core.Violation('include with a comment rejected', result=r.describe())
    t.write(frm, before + good + rng.choice([' ', '\t', ' ' if after[0].isalnum() or after[0] == '_' else '']) + after + comment + rest)
    expect_reject(ctx, start, 'text after an include on its line')


def broken(ctx, t, rng):
    kind = rng.choice(['asm', 'asm', 'bytes', 'cpp', 'sprite', 'icon', 'eyecatch'])
    main = t.new('.s')
    bad = t.new({'asm': '.i', 'bytes': '.bin', 'cpp': '.h'}.get(kind, '.png'))
    why = rng.choice(['missing', 'directory', 'utf8', 'missing directory', 'file as directory'])
    if why == 'directory':
        os.makedirs(ctx.path(bad))
    elif why == 'utf8':
        if kind == 'bytes':
            why = 'missing'
        else:
            t.write(bad, rng.choice([b' .byte 1 ; \xff\n', b'\xff\xfe', b' nop\n\xc3', b'#define A 1 // \xe9\n']))
    elif why == 'missing directory':
        bad = 'nowhere/at/all.x'
    elif why == 'file as directory':
        t.write('plain', 'x')
        bad = 'plain/x'
    path = bad
    frm = main
    depth = rng.choice([0, 0, 1, 2, 5])
    chain = [main] + [t.new() for _ in range(depth)]
    frm = chain[-1]
    ref = t.ref(frm, path) if why not in ('missing directory', 'file as directory') else os.path.relpath(
        path, os.path.dirname(frm) or '.')
    if kind in ('icon', 'eyecatch'):
        rows = [[(1, 2, 3, 255)] * 32 for _ in range(32)]
        t.write('good.png', png.encode(32, 32, rows, 'rgb'))
        good = os.path.relpath('good.png', os.path.dirname(frm) or '.')
        inc = ' .include icon %s\n' % quoted(ref) if kind == 'icon' else \
            ' .include icon %s eyecatch=%s\n' % (quoted(good), quoted(ref))
    else:
        inc = line(rng, ref, kind)
    t.write(frm, ' .byte 1\n' + inc + ' .byte 2\n')
    for a, b in zip(chain, chain[1:]):
        t.write(a, ' .byte 3\n' + include(rng, t.ref(a, b)) + ' .byte 4\n')
    ctx.case((kind, why, depth, t.key()))
    ctx.counters['broken %s: %s' % (kind, why)] += 1
    expect_reject(ctx, main if not main.startswith('-') else './' + main, 'include of a broken file (%s, %s)' % (kind, why),
                  existing=rng.choice([None, b'old']))


def monochrome(t, w, h, rng):
    """A new picture in black and white, and its sprite."""
    img = t.new('.png')
    rows = [[rng.choice([(0, 0, 0, 255), (255, 255, 255, 255)]) for _ in range(w)] for _ in range(h)]
    t.write(img, png.encode(w, h, rows, 'rgb'))
    want = bytes([w & 255, h & 255])
    for row in rows:
        bits = ''.join('1' if c[0] == 0 else '0' for c in row).ljust((w + 7) // 8 * 8, '0')
        want += int(bits, 2).to_bytes(len(bits) // 8, 'big')
    return img, want


def images(ctx, t, rng):
    """Includes of pictures and binary files in nested files of other directories."""
    depth = rng.choice([0, 1, 1, 2, 3, 5])
    files = [t.new('.s')] + [t.new() for _ in range(depth)]
    # The same statements in one file of the top directory.
    before, after, texts = [], [], {}
    for d, f in enumerate(files):
        parts = [[], []]
        for _ in range(rng.choice([1, 1, 2])):
            k = rng.choice(['byte', 'sprite', 'bytes', 'icon', 'icon', 'eyecatch', 'eyecatch'])
            half = rng.randrange(2)
            if k == 'byte':
                v = rng.randrange(256)
                here = top = ' .byte %d\n' % v
                want = bytes([v])
            elif k == 'bytes':
                n, want = t.new('.bin'), rng.randbytes(rng.randrange(1, 9))
                t.write(n, want)
                here, top = [' .include bytes %s\n' % quoted(x) for x in (t.ref(f, n), n)]
            elif k == 'sprite':
                n, want = monochrome(t, rng.randrange(1, 20), rng.randrange(1, 9), rng)
                here, top = [' .include sprite %s\n' % quoted(x) for x in (t.ref(f, n), n)]
            else:
                n, _ = monochrome(t, 32, 32, rng)
                want = None
                refs = [quoted(t.ref(f, n)), quoted(n)]
                if k == 'eyecatch':
                    e, _ = monochrome(t, 72, 56, rng)
                    speed = rng.choice(['', '', 'speed=%d, ' % rng.randrange(99)])
                    refs = [x + ' %seyecatch=%s' % (speed, quoted(y)) for x, y in zip(refs, (t.ref(f, e), e))]
                here, top = [' .include icon %s\n' % x for x in refs]
            parts[half].append((here, top, want))
            ctx.counters['%s, %d deep' % (k, d)] += 1
        before.append(parts[0])
        after.append(parts[1])
        inc = include(rng, t.ref(f, files[d + 1])) if d < depth else ''
        t.write(f, ''.join(x[0] for x in parts[0]) + inc + ''.join(x[0] for x in parts[1]))
    flat = [x for p in before for x in p] + [x for p in reversed(after) for x in p]
    ctx.case(t.key())
    if all(x[2] is not None for x in flat):
        image = b''.join(x[2] for x in flat)
    else:
        ctx.write('whole.s', ''.join(x[1] for x in flat))
        image, r = ctx.assemble('whole.s')
        if image is None:
            raise core.Violation('pictures included in one file: rejected', result=r.describe())
    assemble_from(ctx, t, files[0], rng, image, 'pictures and binary files included from other directories')


HANDLERS = {'tree': tree, 'text': text, 'repeat': repeat, 'bytes': bytes_, 'header': header, 'fallback': fallback,
            'broken': broken, 'images': images, 'trailing': trailing, 'large': large}


def run_case(ctx, kind, i, rng):
    HANDLERS[kind](ctx, Tree(ctx, rng), rng)
