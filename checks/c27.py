"""C27: A command line means what the help says, however it is spelled."""
import os
import re

from checks import c19
from vlib import build, core, dis, project

TECHNIQUE = ('metamorphic runtime oracle: the executable run on random spellings of one command line (and on the same line with defaults spelled out) must leave the '
             'same exit status, standard output and files as its canonical spelling; watched directory for the refused lines and the requests for help')
LEVEL_NOTE = ('Sampled spellings (order, short and long names, separate, attached and = values, grouped flags, --, paths) of sampled commands with sampled values; sampled '
              'lines with one fault each; every request for help of every command.')
RULE = ('spelling: commands of every kind with random options, canonical against two random spellings; defaults: an option left out against its documented default; '
        'flags: a listing with -p, -a and both against the plain one; refused: valid lines with a fault put in; help: requests for help and version, alone and amid '
        'valid options. Distinct: command lines and input files.')
ASSUMPTIONS = ['The date fields of a VMI file and the comments in the output of icon, and the random part of the names of macro labels in the output of expand, are left out of the comparison.',
               'What a flag with a value (--game=yes) means is not specified and not tested.']

OPTIONS = {
    'assemble': {'output': 'o'},
    'expand': {},
    'disassemble': {'output': 'o', 'positions': 'p', 'type': 't', 'arrived_from': 'a'},
    'icon': {'speed': 's', 'eyecatch': 'e'},
    'image': {'output': 'o', 'format': 'f'},
    'vmi': {'output': 'o', 'copyright': 'c', 'game': 'g'},
    'version': {},
}
FLAGS = {'positions', 'arrived_from', 'game'}
NEEDED = {'assemble': ['output'], 'disassemble': ['output']}


def tasks(tier):
    n = 3 if tier == 'quick' else 40
    return [('spelling', 1200 * n), ('defaults', 500 * n), ('flags', 300 * n), ('refused', 2000 * n), ('help', 300 * n)]


def prepare(tier):
    with open(os.path.join(build.REPO, 'Cargo.toml')) as f:
        return re.search(r'(?m)^version\s*=\s*"([^"]+)"', f.read().split('[package]')[1]).group(1)


class Line:
    def __init__(self, cmd, source, options):
        self.cmd, self.source, self.options = cmd, source, options

    def canonical(self):
        args = [self.cmd]
        for k, v in sorted(self.options.items()):
            args += ['--' + k] if k in FLAGS else ['--' + k, v] if v.startswith('=') else ['--%s=%s' % (k, v)]
        return args + ['--', self.source]

    def spelled(self, rng, paths=True):
        """A random spelling: a list of arguments."""
        return [self.cmd] + [a for p in self.pieces(rng, paths) for a in p]

    def pieces(self, rng, paths=True):
        names = OPTIONS[self.cmd]
        items = []
        for k, v in self.options.items():
            if paths and k in ('output', 'eyecatch') and v:
                v = other_path(rng, v)
            short = rng.random() < 0.5
            if k in FLAGS:
                items.append(['-' + names[k] if short else '--' + k])
            else:
                # More than one = after the name is read as one.
                styles = [] if v.startswith('=') else ['=']
                if not v.startswith('-'):
                    styles.append(' ')
                if short and v and not v.startswith('='):
                    styles.append('')
                s = rng.choice(styles)
                o = '-' + names[k] if short else '--' + k
                items.append([o, v] if s == ' ' else [o + s + v])
        rng.shuffle(items)
        # Group short flags with what follows them.
        grouped = []
        for it in items:
            if grouped and len(grouped[-1]) == 1 and set(grouped[-1][0]) <= set('-pag') and not grouped[-1][0].startswith('--') and \
                    it[0][0] == '-' and it[0][1] != '-' and rng.random() < 0.6:
                grouped[-1] = [grouped[-1][0] + it[0][1:]] + it[1:]
            else:
                grouped.append(it)
        items = grouped
        source = other_path(rng, self.source) if paths else self.source
        if source.startswith('-') and source != '-' or rng.random() < 0.15:
            items.append(['--', source])
        else:
            items.insert(rng.randrange(len(items) + 1), [source])
        return items


CWD = [None]


def other_path(rng, p):
    k = rng.randrange(6)
    if k == 0:
        return './' + p
    if k == 1 and CWD[0]:
        return CWD[0] + '/' + p
    if k == 2:
        return 'dir/../' + p
    return p


NAMES = ['in', 'in', 'dir/in', 'dir/d.vms/in', 'a b', '-in', 'ünï', "q'x", '-', 'a=b', 'x,y', '--', 'assemble', 'help', '日本']


def make(ctx, rng, cmd=None):
    """A valid command line over files it writes (at times with a broken input)."""
    cmd = cmd or rng.choice(['assemble', 'assemble', 'expand', 'disassemble', 'disassemble', 'icon', 'image', 'vmi', 'vmi'])
    files = {'dir/keep': b'x'}
    stem = rng.choice(NAMES) if rng.random() < 0.6 else 'in'
    options = {}
    if cmd in ('assemble', 'expand'):
        # A lone dash and the like are names like any other.
        source = stem + rng.choice(['.s', '.s', '', '.asm'])
        files[source] = project.random_source(rng)
    elif cmd == 'disassemble':
        source = stem + rng.choice(['.bin', '.vms', ''])
        typ = rng.choice([None, 'raw', 'game', 'bios', 'file'])
        data = None
        while data is None or not project.decided(data, typ or 'raw'):
            data = dis.image(rng, rng.choice([60, 300]), dis.ENTRIES[typ or 'raw'], 0.5)
        files[source] = data
        if typ:
            options['type'] = typ
        for k in ('positions', 'arrived_from'):
            if rng.random() < 0.5:
                options[k] = True
    elif cmd == 'icon':
        i = project.icon(rng)
        source = stem + i.ext
        files[source] = i.data
        if rng.random() < 0.5:
            e = project.eyecatch(rng)
            options['eyecatch'] = rng.choice(['eye', 'eye', '-eye', 'e y']) + e.ext
            files[options['eyecatch']] = e.data
        if rng.random() < 0.5:
            options['speed'] = str(rng.choice([0, 1, 9, 10, 11, 65535, rng.randrange(65536)]))
    elif cmd == 'image':
        i = project.picture(rng)
        source = stem + i.ext
        files[source] = i.data
        if rng.random() < 0.7:
            options['format'] = rng.choice(['json', 'json-pretty', '1bit-asm', '1bit-asm-masked'])
    else:
        source = stem + rng.choice(['.vms', '.vms', '', '.VMS', '.vms.vms', 'xvms'])
        files[source] = rng.randbytes(rng.choice([0x230, 700]))
        if rng.random() < 0.6:
            options['copyright'] = rng.choice(['c', '', '(C) 2024 me, you', '-g', '--output=x', 'a=b', "it's", 'ö ©', ' x ', '-', '--', '\\n', 'a\tb',
                                               '= x', '"', ''.join(rng.choice('abc ,;+=$%') for _ in range(rng.randrange(1, 40)))])
        if rng.random() < 0.5:
            options['game'] = True
    if source in ('-', '--', 'help') and rng.random() < 0.5:
        source, files = 'in.x', dict(files, **{'in.x': files[source]})
    if 'output' in OPTIONS[cmd] and (cmd in NEEDED or rng.random() < 0.6):
        options['output'] = rng.choice(['out', 'out', 'dir/out', 'o u t', '-out', 'ö', 'out.vmi', 'none/out', 'a=b.o', 'x,y.o', 'o.s'])
    files = {n: d.encode('utf-8') if isinstance(d, str) else d for n, d in files.items()}
    if rng.random() < 0.08:
        files[source] = project.damage(rng, files[source])
    elif rng.random() < 0.04:
        del files[source]
    return Line(cmd, source, options), files


def snapshot(ctx):
    found = {}
    for top, dirs, names in os.walk(ctx.dir):
        for n in names:
            p = os.path.join(top, n)
            with open(p, 'rb') as f:
                found[os.path.relpath(p, ctx.dir)] = f.read()
        for n in dirs:
            found[os.path.relpath(os.path.join(top, n), ctx.dir) + '/'] = None
    return found


def observe(ctx, cmd, files, args):
    """Exit status, standard output and the files of a run."""
    ctx.fresh()
    for n, d in files.items():
        ctx.write(n, d)
    before = snapshot(ctx)
    r = ctx.run(*args)
    if r.crashed:
        raise core.Violation('crash', args=args, result=r.describe())
    after = snapshot(ctx)
    changed = {n: d for n, d in after.items() if n not in before or before[n] != d}
    gone = [n for n in before if n not in after]
    if gone:
        raise core.Violation('a command removed files', args=args, gone=gone)
    out = r.out
    if cmd == 'icon':
        out = re.sub(rb'(?m)^\s*;.*\n', b'', out)
    if cmd == 'vmi':
        changed = {n: d if d is None or len(d) != 108 else d[:0x44] + bytes(8) + d[0x4c:] for n, d in changed.items()}
    if r.rc not in (0, 1):
        raise core.Violation('unexpected exit status', args=args, result=r.describe())
    if r.rc and not r.err:
        raise core.Violation('failure without a message', args=args, result=r.describe())
    return r.rc, out, changed


def show(seen):
    return {'status': seen[0], 'stdout': core.short(seen[1], 200),
            'files': {n: core.short(d, 120) if d is not None else None for n, d in seen[2].items()}}


def same(ctx, a, b, one, other, what):
    if one[0] == 'expand' and a[::2] == b[::2]:
        # Names of macro labels have a random part.
        differ = c19.listing_difference(a[1], b[1], c19.words(ctx, ctx.dir))
    else:
        differ = a != b
    if differ:
        raise core.Violation(what, one=one, other=other, first=show(a), second=show(b))


def spelling(ctx, rng):
    line, files = make(ctx, rng)
    ctx.fresh()
    CWD[0] = os.path.realpath(ctx.dir)
    canonical = line.canonical()
    first = observe(ctx, line.cmd, files, canonical)
    # What the options say shows in the result.
    o = line.options.get('output')
    if first[0] == 0:
        expect = {o} if o else {re.sub(r'\.vms$', '', line.source) + '.vmi'} if line.cmd == 'vmi' else set()
        # An output written over an input with the same bytes is unchanged.
        if set(first[2]) != {os.path.normpath(n) for n in expect} and not expect & set(files):
            raise core.Violation('the files written are not those asked for', args=canonical, seen=show(first))
        if bool(first[1]) == bool(expect):
            raise core.Violation('output to a file and to standard output are mixed up', args=canonical, seen=show(first))
        if line.cmd == 'vmi' and expect:
            data = first[2].get(next(iter(expect)))
            text = line.options.get('copyright', '').encode()[:32].ljust(32, b'\0')
            if data and data[0x24:0x44] != text:
                raise core.Violation('copyright text', args=canonical, seen=show(first))
    elif first[2]:
        raise core.Violation('a failed command left files', args=canonical, seen=show(first))
    for _ in range(2):
        args = line.spelled(rng)
        ctx.case((args, tuple(sorted(files.items()))))
        same(ctx, first, observe(ctx, line.cmd, files, args), canonical, args, 'two spellings of one command line differ')
        ctx.counters['spelled: ' + line.cmd + ('' if first[0] == 0 else ', failing')] += 1
    ctx.sample({'canonical': canonical, 'spelled': args, 'status': first[0]})


DEFAULTS = [('disassemble', 'type', 'raw'), ('icon', 'speed', '10'), ('image', 'format', '1bit-asm'), ('vmi', 'copyright', ''), ('vmi', 'output', None),
            ('image', 'output', None)]


def defaults(ctx, rng):
    cmd, option, value = rng.choice(DEFAULTS)
    line, files = make(ctx, rng, cmd)
    CWD[0] = None
    if option == 'output':
        line.options.pop('output', None)
    else:
        line.options.pop(option, None)
    short = line.spelled(rng, False)
    first = observe(ctx, cmd, files, short)
    full = Line(cmd, line.source, dict(line.options))
    if cmd == 'image' and option == 'output':
        full.options['output'] = 'out put'
        args = full.spelled(rng, False)
        second = observe(ctx, cmd, files, args)
        written = second[2].get('out put')
        if first[0] != second[0] or first[0] == 0 and (first[2] or second[1] or written is None or written + b'\n' != first[1]):
            raise core.Violation('an image written to a file is not the one written to standard output', one=short, other=args,
                                 first=show(first), second=show(second))
    else:
        full.options[option] = value if value is not None else re.sub(r'\.vms$', '', line.source) + '.vmi'
        args = full.spelled(rng, False)
        second = observe(ctx, cmd, files, args)
        same(ctx, first, second, short, args, 'an option left out does not have its documented default')
    ctx.case((short, args, tuple(sorted(files.items()))))
    ctx.counters['default: %s %s%s' % (cmd, option, '' if first[0] == 0 else ', failing')] += 1


def flags(ctx, rng):
    """-p puts the position before each line, -a only adds comments."""
    line, files = make(ctx, rng, 'disassemble')
    CWD[0] = None
    line.options = {k: v for k, v in line.options.items() if k not in FLAGS}
    line.options['output'] = 'out'
    seen = {}
    for p in (False, True):
        for a in (False, True):
            o = dict(line.options)
            if p:
                o['positions'] = True
            if a:
                o['arrived_from'] = True
            args = Line('disassemble', line.source, o).spelled(rng, False)
            rc, out, changed = observe(ctx, 'disassemble', files, args)
            if rc:
                data = None
            else:
                data = changed.get('out')
                if data is None or out:
                    raise core.Violation('no output file', args=args)
            seen[p, a] = data
    ctx.case((line.options.get('type'), files.get(line.source)))
    if None in seen.values():
        if set(seen.values()) != {None}:
            raise core.Violation('-p or -a decides whether a file can be disassembled', line=line.canonical())
        ctx.counters['flags: failing'] += 1
        return
    text = {k: v.decode('utf-8').split('\n') for k, v in seen.items()}
    count = 0
    for a in (False, True):
        plain, pos = text[False, a], text[True, a]
        if plain[-1] != '' or pos[-1] != '' or len(plain) != len(pos):
            raise core.Violation('-p changes the lines', line=line.canonical(), plain=len(plain), positions=len(pos))
        for x, y in zip(plain[:-1], pos[:-1]):
            m = re.match(r'([0-9A-F]{4,}|    )\| ', y)
            # A statement of many lines has its position on the first.
            if m and y[m.end():] != x or not m and y != x or re.match(r'\s+[a-z]', x) and not (m and m.group(1).strip()):
                raise core.Violation('-p changes a line', line=line.canonical(), plain=x, positions=y)
    # Comments of the plain listing may be lengthened.
    def code(lines):
        return [re.sub(r'\s*;.*', '', x) for x in lines]
    for p in (False, True):
        if code(text[p, False]) != code(text[p, True]):
            raise core.Violation('-a changes more than comments', line=line.canonical())
        for x, y in zip(text[p, False], text[p, True]):
            if x != y:
                count += 1
                if 'Arrived from' in x or 'Arrived from' not in y:
                    raise core.Violation('-a does not add what the help says', line=line.canonical(), plain=x, arrived=y)
    ctx.counters['flags: listings'] += 1
    ctx.counters['flags: annotated lines'] += count


def refused(ctx, rng):
    k = rng.choice(['no input', 'no output', 'extra', 'unknown', 'unknown', 'foreign', 'repeated', 'no value', 'command', 'nothing', 'case', 'abbreviated',
                    'type', 'speed', 'single dash', 'version'])
    cmd = rng.choice({'no output': ['assemble', 'disassemble'], 'type': ['disassemble'], 'speed': ['icon'],
                      'single dash': ['assemble', 'disassemble', 'vmi', 'icon', 'image']}.get(k, [None]))
    if k in ('repeated', 'no value', 'abbreviated', 'case'):
        cmd = rng.choice(['assemble', 'disassemble', 'icon', 'image', 'vmi'])
    line, files = make(ctx, rng, cmd)
    CWD[0] = None
    # A name that no fault below turns into something else.
    files.setdefault(line.source, b' nop\n')
    files['in.x'] = files[line.source]
    line.source = 'in.x'
    names = OPTIONS[line.cmd]
    pieces = line.pieces(rng, False)
    # `at` is a place for an option: before `--` if there is one.
    ends = [i for i, p in enumerate(pieces) if p[0] == '--']
    at = rng.randrange((ends[0] if ends else len(pieces)) + 1)
    # A piece such as `-o x` is never split, so that the fault stays the fault.
    if k == 'no input':
        if ends:
            pieces[ends[0]:] = []
        else:
            pieces.remove(['in.x'])
    elif k == 'no output':
        line.options.pop('output')
        pieces = line.pieces(rng, False)
    elif k == 'extra':
        pieces.insert(at, [rng.choice(['extra', 'in.x', 'out', 'help', 'x y'])])
    elif k == 'unknown':
        w = ''.join(rng.choice('bdijklmnqruwxyz') for _ in range(rng.choice([1, 5])))
        pieces.insert(at, [rng.choice(['--' + w, '--%s=1' % w, '-' + w[0]])])
    elif k == 'foreign':
        others = sorted({o for d in OPTIONS.values() for o in d} - set(names))
        shorts = sorted({s for d in OPTIONS.values() for s in d.values()} - set(names.values()))
        o = rng.choice(others)
        v = rng.choice(['raw', '10', 'x'])
        pieces.insert(at, rng.choice([['--' + o], ['--%s=%s' % (o, v)], ['-' + rng.choice(shorts)]]))
    elif k == 'repeated':
        if not line.options:
            line.options[rng.choice([n for n in names if n not in FLAGS])] = '5'
            pieces = line.pieces(rng, False)
            at = 0
        o = rng.choice(list(line.options))
        again = [rng.choice(['-' + names[o], '--' + o])] if o in FLAGS else ['%s=%s' % (rng.choice(['-' + names[o], '--' + o]), rng.choice(['x', line.options[o]]))]
        pieces.insert(at, again)
    elif k == 'no value':
        o = rng.choice([n for n in names if n not in FLAGS])
        line.options.pop(o, None)
        pieces = line.pieces(rng, False)
        if any(p[0] == '--' for p in pieces):
            pieces = [p for p in pieces if p[0] != '--'] + [['in.x']]
        pieces.append([rng.choice(['-' + names[o], '--' + o])])
    elif k == 'abbreviated':
        o = rng.choice(list(names))
        cut = '--' + o[:rng.randrange(1, len(o))]
        line.options.pop(o, None)
        pieces = [[cut] if o in FLAGS else [cut + '=' + {'type': 'raw', 'format': 'json', 'speed': '3'}.get(o, 'x')]] + line.pieces(rng, False)
    elif k == 'case':
        o = rng.choice(list(names))
        up = rng.choice(['-' + names[o].upper(), '--' + o.upper(), '--' + o.capitalize()])
        if up in ('-V', '-H'):
            up = '-Q'
        pieces.insert(at, [up] if o in FLAGS else [up + '=x'])
    elif k == 'type':
        line.options['type'] = rng.choice(['Raw', 'games', 'gam', 'raw ', 'vms', '0', 'GAME', 'bios1', 'bio'])
        pieces = line.pieces(rng, False)
    elif k == 'speed':
        line.options['speed'] = rng.choice(['65536', '-1', '1.5', 'x', '0x10', '1 ', ' 1', '99999999999999999999', '1e1', '$10', 'ten'])
        pieces = line.pieces(rng, False)
    elif k == 'single dash':
        w = rng.choice(['-zz', '-no', '-x=1', '-1'])
        pieces.insert(at, [w])
    args = [line.cmd] + [a for p in pieces for a in p]
    if k == 'command':
        args[0] = rng.choice(['Assemble', 'asm', 'assembl', 'assembler', 'link', '', 'in.x', 'disasm', 'images', 'build', 'ASSEMBLE', '-assemble', '--assemble'])
    elif k == 'nothing':
        args = []
    elif k == 'version':
        args = ['version'] + rng.choice([['x'], ['in.x'], ['-o', 'out'], ['--output=out'], ['version'], ['-p'], ['--all']])
    out = line.options.get('output')
    if out and rng.random() < 0.5 and out not in files and not out.startswith('none/'):
        files[out] = b'previous content'
    ctx.case((args, tuple(sorted(files.items()))))
    seen = observe(ctx, None, files, args)
    if seen[0] == 0 or seen[1] or seen[2]:
        raise core.Violation('a command line that is not well-formed (%s) is not refused without effect' % k, args=args, seen=show(seen))
    ctx.counters['refused: ' + k] += 1


def help_(ctx, rng):
    k = rng.choice(['-h', '--help', 'help', '-V', '--version', 'version', 'amid', 'amid'])
    cmd = rng.choice(list(OPTIONS))
    line, files = make(ctx, rng, cmd) if cmd != 'version' else (Line('version', None, {}), {'in.x': b''})
    CWD[0] = None
    if rng.random() < 0.3:
        cmd = None
    about = None
    if k == 'amid' and cmd and line.source:
        pieces = line.pieces(rng, False)
        ends = [i for i, p in enumerate(pieces) if p[0] == '--']
        pieces.insert(rng.randrange((ends[0] if ends else len(pieces)) + 1), [rng.choice(['-h', '--help'])])
        args = [cmd] + [a for p in pieces for a in p]
        about = cmd
    elif k in ('help', 'amid'):
        args, about = (['help', cmd], cmd) if cmd else (['help'], None)
    elif k == 'version':
        args, about = ['version'], 'version'
    else:
        args = ([cmd] if cmd else []) + [k]
        about = 'version' if k in ('-V', '--version') else cmd
    ctx.case((args, sorted(files)))
    seen = observe(ctx, None, files, args)
    if seen[0] or seen[2] or not seen[1]:
        raise core.Violation('a request for help or version is not answered alone', args=args, seen=show(seen))
    text = seen[1].decode('utf-8')
    if about == 'version' and args[0] != 'help' and k in ('version', '-V', '--version'):
        if ctx.extra not in text:
            raise core.Violation('the version is not the one of this source', args=args, text=text, version=ctx.extra)
    elif about is None:
        missing = [c for c in OPTIONS if not re.search(r'(?m)^\s+%s\s' % c, text)]
        if missing:
            raise core.Violation('the help does not name all commands', args=args, missing=missing, text=text)
    elif k != 'version':
        missing = [o for o, s in OPTIONS[about].items() if not re.search(r'-%s, --%s\b' % (s, o), text)]
        if missing:
            raise core.Violation('the help does not name all options', args=args, missing=missing, text=text)
    ctx.counters['help: ' + k] += 1


def run_case(ctx, kind, i, rng):
    {'spelling': spelling, 'defaults': defaults, 'flags': flags, 'refused': refused, 'help': help_}[kind](ctx, rng)
