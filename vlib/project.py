"""Projects: trees of source files, binaries, headers and images, with the
commands that work on them; for C17 to C19 and C21."""
import os

from vlib import dis, gen, macros, pictures, render


class Command:
    """args(output) are the arguments; output None means standard output."""

    def __init__(self, name, args, output):
        self.name, self._args, self.output = name, args, output

    def args(self, out=None):
        return self._args(out)


def icon(rng, frames=None):
    n = frames or rng.choice([1, 1, 2])
    while True:
        palette = pictures.colours(rng, rng.choice([2, 9, 16]), rng.choice(['any', 'none']))
        i = pictures.animation(rng, 32, 32, palette, n) if n > 1 else pictures.still(rng, pictures.fill(rng, 32, 32, palette))
        if pictures.icon_ok(i, None):
            return i


def eyecatch(rng):
    palette = pictures.colours(rng, rng.choice([3, 16, 40, 300]), rng.choice(['any', 'none']))
    return pictures.still(rng, pictures.fill(rng, 72, 56, palette))


def picture(rng):
    palette = pictures.colours(rng, rng.choice([2, 5]), 'any')
    w, h = rng.randrange(1, 40), rng.randrange(1, 12)
    n = rng.choice([1, 1, 2, 3])
    if n > 1:
        return pictures.animation(rng, w, h, palette, n)
    return pictures.still(rng, pictures.fill(rng, w, h, palette))


DIRS = ['', '', 'sub/', 'lib/x y/', 'ünï/']


class Project:
    """Writes its files below `base` (a directory relative to ctx.dir)."""

    def __init__(self, ctx, rng, base='', size=1.0, images=True):
        self.ctx, self.rng, self.base, self.n = ctx, rng, base, 0
        self.texts = {}      # sources, to be edited by the caller: name -> list of lines
        self.files = {}      # everything else: name -> bytes
        self.images = images
        self.main = self.new('.s')
        self.lines(self.main, size, 3)

    def new(self, ext):
        self.n += 1
        return '%sf%d%s' % (self.rng.choice(DIRS), self.n, ext)

    def file(self, ext, data):
        n = self.new(ext)
        self.files[n] = data
        return n

    def ref(self, a, b):
        return os.path.relpath(b, os.path.dirname(a) or '.')

    def lines(self, name, size, depth):
        """Fills the source `name`."""
        rng = self.rng
        out = self.texts[name] = []
        k = self.n
        for _ in range(max(1, int(rng.randrange(2, 8) * size))):
            what = rng.randrange(14)
            self.n += 1
            u = self.n
            if what == 0 and depth:
                sub = self.new(rng.choice(['.i', '.s', '.asm']))
                self.lines(sub, size / 2, depth - 1)
                out.append(' .include "%s"' % self.ref(name, sub))
            elif what == 1:
                out.append(' .include bytes "%s"' % self.ref(name, self.file('.bin', rng.randbytes(rng.choice([0, 1, 40, 700])))))
            elif what == 2:
                h = self.file('.h', '// header\n#define VALUE%d %d\n#define OTHER%d (VALUE%d + 0x10)\n' % (u, rng.randrange(200), u, u))
                out += [' .include cpp "%s"' % self.ref(name, h), ' .word value%d, other%d' % (u, u)]
            elif what == 3 and self.images:
                p = picture(rng)
                out.append(' .include sprite "%s"%s' % (self.ref(name, self.file(p.ext, p.data)),
                                                        rng.choice(['', ' type="masked"', ' header="no"'])))
            elif what == 4 and self.images:
                p = icon(rng)
                t = ' .include icon "%s"' % self.ref(name, self.file(p.ext, p.data))
                if rng.random() < 0.5:
                    e = eyecatch(rng)
                    t += ' eyecatch="%s"' % self.ref(name, self.file(e.ext, e.data))
                out.append(t)
            elif what in (5, 6):
                out += ['%%macro mac%d %%a, %%b' % u, ' add %a', 'loop%:', ' ld %b', 'other%: nop', ' br loop%', ' jmp other%', '%end',
                        ' mac%d #%d, %d' % (u, rng.randrange(256), rng.randrange(512)),
                        'glob%d:' % u, ' mac%d #<glob%d, %d + %d' % (u, u, rng.randrange(100), rng.randrange(100))]
            elif what == 7:
                out += ['lab%d:' % u] + ['.loc%d: ld %d' % (j, rng.randrange(512)) for j in range(rng.randrange(4))] + \
                       [' br lab%d' % u, ' callf lab%d' % u]
            elif what == 8:
                out += ['const%d = %d * 3 + 1' % (u, rng.randrange(50)), ' .byte <const%d, >const%d, "text ; %d"' % (u, u, u)]
            elif what == 9:
                out.append(' .cnop %d, %d' % (rng.randrange(3), rng.choice([2, 4, 16])))
            elif what == 10:
                out.append(' .text %d "%s"' % (rng.randrange(8, 40), rng.choice(['abc', 'x;y', 'ab\ncd'])))
            elif what == 11:
                out.append(' .word ' + ', '.join(str(rng.randrange(65536)) for _ in range(rng.choice([1, 20, 200]))))
            elif what == 12:
                out.append('; comment ✓')
            else:
                out += [' nop', ' mov #%d, $%X' % (rng.randrange(256), rng.randrange(512)), ' push acc_%d' % u, 'acc_%d = $100' % u]
        return k

    def save(self, base=None):
        base = self.base if base is None else base
        for n, l in self.texts.items():
            self.ctx.write(base + n, '\n'.join(l) + '\n')
        for n, d in self.files.items():
            self.ctx.write(base + n, d)

    def path(self, name):
        return self.base + name

    def assemble(self, path=None):
        p = path or self.path(self.main)
        return Command('assemble', lambda o: ['assemble', p, '-o', o], 'file')

    def expand(self, path=None):
        p = path or self.path(self.main)
        return Command('expand', lambda o: ['expand', p], None)

    def key(self):
        return repr((sorted(self.texts.items()), sorted(self.files.items())))


def decided(data, typ):
    r = dis.Reach(data, dis.ENTRIES[typ])
    return not (r.overlap or r.outside or r.ambiguous or r.cut is not None)


def other_command(ctx, rng, base='', kind=None, files=None):
    """A random command other than assemble and expand, with its input file;
    `files`, when given, receives {name: bytes} instead of the disk."""
    def write(name, data):
        if files is None:
            ctx.write(base + name, data)
        else:
            files[name] = data
        return base + name

    kind = kind or rng.choice(['disassemble', 'disassemble', 'icon', 'image', 'image to file', 'vmi', 'vmi'])
    if kind == 'disassemble':
        typ = rng.choice([None, 'raw', 'game', 'bios', 'file'])
        data = None
        while data is None or not decided(data, typ or 'raw'):
            data = dis.image(rng, rng.choice([60, 300, 700, 1500]), dis.ENTRIES[typ or 'raw'], 0.5)
        p = write('image file.bin', data)
        flags = (['-t', typ] if typ else []) + rng.choice([[], ['-p'], ['-a'], ['-p', '-a']])
        return Command(kind, lambda o: ['disassemble', p, '-o', o] + flags, 'file')
    if kind == 'icon':
        i = icon(rng)
        p = write('icon' + i.ext, i.data)
        flags = []
        if rng.random() < 0.5:
            e = eyecatch(rng)
            flags = ['-e', write('eye' + e.ext, e.data)]
        if rng.random() < 0.5:
            flags += ['-s', str(rng.randrange(100))]
        return Command(kind, lambda o: ['icon', p] + flags, None)
    if kind.startswith('image'):
        i = picture(rng)
        p = write('pic' + i.ext, i.data)
        f = rng.choice(['json', 'json-pretty', '1bit-asm', '1bit-asm-masked', None])
        flags = ['-f', f] if f else []
        if kind == 'image':
            return Command(kind, lambda o: ['image', p] + flags, None)
        return Command(kind, lambda o: ['image', p, '-o', o] + flags, 'file')
    game = rng.random() < 0.5
    p = write('save file.vms', rng.randbytes(rng.choice([0x230, 512 * 3, 512 * 20])))
    flags = (['-g'] if game else []) + (['-c', 'copyright ©'] if rng.random() < 0.5 else [])
    return Command('vmi', lambda o: ['vmi', p, '-o', o] + flags, 'file')


def damage(rng, data, short=True):
    """A damaged copy of a file."""
    b = bytearray(data)
    k = rng.randrange(6)
    if k == 0 and short:
        return bytes(b[:rng.randrange(len(b) + 1)])
    if k == 1:
        for _ in range(rng.randrange(1, 9)):
            if b:
                b[rng.randrange(len(b))] = rng.choice([0, 255, 127, 128, rng.randrange(256)])
    elif k == 2 and b:
        p = rng.randrange(len(b))
        del b[p:p + rng.choice([1, 2, 4, 40])]
    elif k == 3:
        p = rng.randrange(len(b) + 1)
        b[p:p] = rng.randbytes(rng.choice([1, 4, 40]))
    elif k == 4 and b:
        p, q = rng.randrange(len(b)), rng.randrange(len(b))
        n = rng.choice([1, 4, 30])
        b[p:p + n] = b[q:q + n]
    elif b:
        b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    return bytes(b)


def random_source(rng):
    """A program with macros, and all kinds of statements."""
    if rng.random() < 0.5:
        ms, stmts = macros.random_program(rng)
        return macros.source(ms, stmts, render.Random(rng, 0.3), rng)
    p = gen.Program(rng, rng.choice([5, 20, 40]), depth=3)
    return render.program(p.stmts, render.Random(rng, rng.choice([0, 0.4, 0.8])), lambda: rng.random() < 0.4)
