"""C20: diagnostics name the file and line where the fault is."""
import os
import re

from vlib import core, faults

TECHNIQUE = 'runtime oracle: programs with one planted fault at a known file and line; locations and texts in the diagnostics are compared'
LEVEL_NOTE = 'The file:line pairs and shown lines of diagnostics for each of %d faults at random places in generated projects.' % (
    len(faults.ALL) + len(faults.IN_BODY) + len(faults.IN_DEFINITION) + len(faults.BY_ARGUMENT) + len(faults.CLASHES))
RULE = ('each: every fault in the main file at its first, a middle and the last line, with and without line end; included: faults in files '
        'included at some depth in other directories; macros: faults in bodies, definitions and arguments, in calls nested at some depth '
        'over several files; clashes: two definitions of a name, within and across files and expansions. Other lines hold '
        'texts of several lines, long lines, CRLF, tabs and non-ASCII characters. Distinct: programs.')
ASSUMPTIONS = ['A location is a line of standard error with path:line, the path relative to the working directory or absolute. '
               'A statement of several lines is located at any of them.']


def tasks(tier):
    n = 1 if tier == 'quick' else 10
    return [("each", 12 * len(faults.ALL) * n), ("included", 4000 * n), ("macros", 8000 * n), ("clashes", 4000 * n)]


class File:
    def __init__(self, name, eol='\n'):
        self.name, self.eol, self.chunks, self.marks = name, eol, [], {}

    def add(self, text, mark=None):
        """Adds a statement of one or more lines."""
        if mark is not None:
            self.marks[mark] = len(self.chunks)
        self.chunks.append(text)

    def text(self, last_eol=True):
        t = self.eol.join(c.replace('\n', self.eol) for c in self.chunks)
        return t + (self.eol if last_eol else '')

    def line(self, mark):
        return 1 + sum(1 + c.count('\n') for c in self.chunks[:self.marks[mark]])

    def shown(self, mark):
        return self.chunks[self.marks[mark]].split('\n')[0]


class Filler:
    def __init__(self, rng, ctx):
        self.rng, self.n, self.ctx = rng, 0, ctx

    def line(self):
        rng = self.rng
        self.n += 1
        return rng.choice([
            ' nop', ' .byte 1, 2, %d' % self.n, 'fill_%d: add #3' % self.n, 'value_%d = %d' % (self.n, self.n), '', '; comment', '\t', ' ',
            ' .text 12 "ab ; c"', ' .text 20 "two\nlines"', ' .string 30 "\n\nthree\t"', '* star comment', '\tnop\t; tab', ' nop ; ünï✓ 日本 €',
            ' .byte ' + ', '.join(str(k) for k in range(rng.choice([30, 60]))), 'fill_%d:' % self.n, ' ld value_%d ; x' % self.n
            + '\nvalue_%d = 7' % self.n, '.loc_%d: nop' % self.n, ' .cnop 0, 2', ' .byte $ff, %11, 0x1F, 0b1', ';\u2028 x', ' nop ; \x0b\x0c',
            ' br fill_%d\nfill_%d:' % (self.n, self.n), '%%macro mac_%d %%p, %%q\n ld %%p\n add #%%q\n%%end\n mac_%d 5, 6' % (self.n, self.n)])

    def put(self, f, most=6):
        rng = self.rng
        for _ in range(rng.randrange(most)):
            f.add(self.line())
        if rng.random() < 0.01:
            # numbers of lines of all widths
            n = rng.choice([100, 127, 200, 254, 255, 256, 300, 999, 1000, 1023, 4095, 5000] * 4 + [9999, 20000, 33000, 66000])
            f.add('\n'.join([rng.choice(['', '', '; x', ' '])] * n))
            self.ctx.counters['blocks of %s lines' % ('thousands of' if n > 999 else 'hundreds of')] += 1


LOCATION = re.compile(r'^[\s|]*(.+?):(\d+)(?::[\d:-]*)?\s*$')


def locations(ctx, err, cwd):
    """[(real path, line number, index of the line in the output)]"""
    found = []
    lines = err.decode('utf-8', 'replace').split('\n')
    for k, line in enumerate(lines):
        m = LOCATION.match(line)
        if not m:
            continue
        words = m.group(1).split(' ')
        for j in range(len(words)):
            p = os.path.join(cwd, ' '.join(words[j:]))
            if os.path.isfile(p):
                found.append((os.path.realpath(p), int(m.group(2)), k))
                break
    return found, lines


def judge(ctx, rng, files, expected, what, last_eol=True, key=None):
    """Runs the project files[0]; `expected` lists (file, mark, strict)."""
    for f in files:
        ctx.write(f.name, f.text(last_eol))
    main = files[0].name
    cwd, arg = ctx.dir, main
    how = rng.random()
    if how < 0.15:
        arg = os.path.join(ctx.dir, main)
    elif how < 0.3:
        arg = './' + main
    elif how < 0.45:
        cwd = os.path.join(ctx.dir, 'else where')
        os.makedirs(cwd, exist_ok=True)
        arg = rng.choice(['../' + main, os.path.join(ctx.dir, main)])
    elif how < 0.6:
        # a directory whose name the path of the source starts with
        name = main.split('/')[0]
        name = rng.choice([name[:rng.randrange(1, len(name))].strip() or 'i', name if '/' in main else 'i'])
        cwd = os.path.join(ctx.dir, name)
        os.makedirs(cwd, exist_ok=True)
        arg = rng.choice([os.path.relpath(os.path.join(ctx.dir, main), cwd), os.path.join(ctx.dir, main)])
    out = os.path.join(ctx.dir, 'out.bin')
    r = ctx.run('assemble', arg, '-o', out, cwd=cwd)
    ctx.case(repr([(f.name, f.text(last_eol)) for f in files]))
    if r.rc == 0:
        raise core.Violation('%s: accepted' % what, key=key, result=r.describe())
    if r.crashed:
        raise core.Violation('%s: crashed' % what, key=key, result=r.describe())
    found, lines = locations(ctx, r.err, cwd)
    ctx.counters['locations seen'] += len(found)
    err = r.err.decode('utf-8', 'replace')
    if expected is None:
        # any of the inclusions that make the cycle
        for path, line, k in found:
            with open(path, newline='') as g:
                text = g.read().split('\n')[line - 1].strip()
            if text.lower().startswith('.include') and any(text in x for x in lines[k:k + 4]):
                break
        else:
            raise core.Violation('%s: no inclusion is located and shown' % what, stderr=err[:3000])
        return r
    for f, mark in expected:
        path, line = os.path.realpath(ctx.path(f.name)), f.line(mark)
        n = f.chunks[f.marks[mark]].count('\n')
        here = [(l, k) for p, l, k in found if p == path and line <= l <= line + n]
        if not here:
            raise core.Violation('%s: %s:%d is not located' % (what, f.name, line), key=key, stderr=err[:3000],
                                 located=[(os.path.relpath(p, ctx.dir), l) for p, l, _ in found])
        if not any(text_shown(f, mark, l - line, lines, k) for l, k in here):
            raise core.Violation('%s: the text of %s:%d is not shown' % (what, f.name, line), key=key, stderr=err[:3000])
        ctx.counters['locations compared'] += 1
    return r


def text_shown(f, mark, offset, lines, k):
    source = f.chunks[f.marks[mark]].split('\n')[offset].strip()
    return any(source in x for x in lines[k:k + 4])


def place(rng):
    return rng.choice(['in.s', 'in.s', 'sub/in.s', 'my dir/prog.asm', 'sub/deep/ünï.s'])


def include_line(rng, a, b):
    rel = os.path.relpath(b.name, os.path.dirname(a.name) or '.')
    return rng.choice([' .include "%s"', ' .include asm "%s"', '.INCLUDE "%s" ; x']) % rel


def nest(rng, filler, files, depth):
    """Adds files that include each other; returns the innermost."""
    f = files[0]
    if rng.random() < 0.01:
        depth = rng.choice([15, 16, 17, 31, 33, 64, 100, 150])
    for d in range(depth):
        name = rng.choice(['part%d.i', 'inc dir/part%d.s', 'sub/part%d', 'sub/x/part%d.i', 'Part%d.S']) % len(files)
        g = File(name, f.eol if rng.random() < 0.6 else rng.choice(['\n', '\r\n']))
        f.add(include_line(rng, f, g))
        files.append(g)
        f = g
    return f


def run_case(ctx, kind, i, rng):
    filler = Filler(rng, ctx)
    main = File(place(rng), rng.choice(['\n', '\n', '\r\n']))
    files = [main]
    if kind == 'included' and i % 40 == 0:
        # a file that includes itself, directly or by way of others
        filler.put(main)
        f = nest(rng, filler, files, rng.randrange(1, 4))
        f.add(include_line(rng, f, rng.choice(files)), 'fault')
        for g in files:
            filler.put(g)
        ctx.counters['endless includes'] += 1
        judge(ctx, rng, files, None, 'endless include')
    elif kind in ('each', 'included'):
        fault = faults.ALL[i // 4 % len(faults.ALL)] if kind == 'each' else rng.choice(faults.ALL)
        where = i % 4 if kind == 'each' else rng.randrange(4)
        if rng.random() < 0.3:
            fault = fault.rstrip() + rng.choice(['  ', ' ; comment', ' ; ✓', '\t'])
        if where != 0:
            filler.put(main, 9)
        f = main
        if kind == 'included':
            f = nest(rng, filler, files, rng.randrange(1, 4))
            if where != 0:
                filler.put(f)
        f.add(fault, 'fault')
        if where < 2:
            filler.put(f)
        for g in files[:-1]:
            filler.put(g)
        last_eol = where != 3
        ctx.counters['faults %s' % ('malformed' if fault in faults.MALFORMED else 'unknown name' if fault in faults.UNKNOWN else
                                    'out of range' if fault in faults.RANGE else 'with comment')] += 1
        r = judge(ctx, rng, files, [(f, 'fault')], 'fault %r' % fault, last_eol, key='fault %r' % fault)
        if i < 3:
            ctx.sample({'program': main.text(), 'stderr': r.err.decode('utf-8', 'replace')[:400]})
    elif kind == 'macros':
        macros(ctx, rng, filler, files)
    else:
        clashes(ctx, rng, filler, files)


def macros(ctx, rng, filler, files):
    main = files[0]
    filler.put(main)
    deffile = main
    if rng.random() < 0.5:
        deffile = nest(rng, filler, files, rng.randrange(1, 3))
        filler.put(deffile)
    mode = rng.choice(['body', 'body', 'definition', 'argument', 'arity', 'undefined', 'endless'])
    expected = []
    label = rng.choice(['', 'here%: nop\n', 'there%:\n nop\n', '']).rstrip('\n')

    def define(name, params, body, mark=None):
        deffile.add('%%macro %s %s' % (name, params))
        if label:
            deffile.add(label)
        for k in range(rng.randrange(3)):
            deffile.add(rng.choice([' nop', ' add #5', ' ; x', ' ld 5']))
        deffile.add(body, mark)
        for k in range(rng.randrange(3)):
            deffile.add(rng.choice([' nop', ' add #5', ' ; x', ' ld 5']))
        deffile.add('%end')

    if mode == 'definition':
        fault = rng.choice(faults.IN_DEFINITION)
        define('mac', '%a', fault, 'fault')
        expected = [(deffile, 'fault')]
        filler.put(main)
        main.add(' mac 5')
    else:
        depth = rng.choice([0, 0, 1, 2, 3]) if rng.random() < 0.99 else rng.choice([9, 15, 16, 17, 31, 33, 64, 100, 150])
        arg = '7'
        if mode == 'body':
            fault = rng.choice(faults.IN_BODY)
            expected.append((deffile, 'fault'))
        elif mode == 'argument':
            fault, arg = rng.choice(faults.BY_ARGUMENT)
        elif mode == 'endless':
            # the macro calls itself, or one that calls it
            fault = rng.choice([' mac0 %a', ' MAC0 5', ' again %a', ' mac0 %a'])
            if fault == ' again %a':
                deffile.add('%macro again %x\n mac0 %x\n%end')
            expected.append((deffile, 'fault'))
        elif mode == 'arity':
            fault = rng.choice([' twoargs %a', ' twoargs', ' twoargs 1, %a, 3'])
            expected.append((deffile, 'fault'))
            deffile.add('%macro twoargs %x, %y\n ld %x\n ld %y\n%end')
        else:
            fault = rng.choice([' notdefined %a', ' notdefined', ' not.defined #%a'])
            expected.append((deffile, 'fault'))
        chain = ['mac%d' % k for k in range(depth + 1)]
        order = list(range(depth + 1))
        rng.shuffle(order)
        for k in order:
            if k == 0:
                define(chain[0], '%a', fault, 'fault')
            else:
                define(chain[k], '%a', rng.choice([' %s %%a', ' %s %%a ; call']) % chain[k - 1], 'call%d' % k)
                if mode != 'argument':
                    expected.append((deffile, 'call%d' % k))
            filler.put(deffile, 3)
        callfile = main
        if deffile is not main and rng.random() < 0.3:
            callfile = deffile
        filler.put(callfile)
        callfile.add(' %s %s' % (rng.choice([chain[-1], chain[-1].upper()]), arg), 'call')
        filler.put(callfile)
        expected.append((callfile, 'call'))
        fault = '%r, called by %d others with %s' % (fault, depth, arg)
        ctx.counters['macro depth %s' % (depth if depth < 4 else '9 to 150')] += 1
    ctx.counters['macro ' + mode] += 1
    judge(ctx, rng, files, expected, 'fault in macro (%s): %s' % (mode, fault))


def clashes(ctx, rng, filler, files):
    main = files[0]
    filler.put(main)
    style = rng.choice(['one file', 'files', 'include', 'local', 'expansions', 'private', 'label and expansion', 'twice included'])
    expected = []
    ctx.counters['clash: ' + style] += 1
    if style in ('one file', 'files', 'include'):
        a, b = rng.choice(faults.CLASHES)
        first = second = main
        if style == 'files':
            first = nest(rng, filler, files, rng.randrange(1, 3))
            filler.put(first)
        first.add(a, 'one')
        if style == 'files':
            filler.put(first)
        filler.put(main)
        if style == 'include':
            second = nest(rng, filler, files, rng.randrange(1, 3))
            filler.put(second)
        second.add(b, 'two')
        filler.put(second)
        expected = [(first, 'one'), (second, 'two')]
    elif style == 'local':
        a, b = rng.choice(faults.LOCAL_CLASHES)
        main.add('global_1:')
        main.add(a, 'one')
        for _ in range(rng.randrange(3)):
            main.add(rng.choice([' nop', '; x', '']))
        main.add(b, 'two')
        filler.put(main)
        expected = [(main, 'one'), (main, 'two')]
    elif style in ('expansions', 'label and expansion', 'private'):
        deffile = main
        if rng.random() < 0.5:
            deffile = nest(rng, filler, files, rng.randrange(1, 3))
            filler.put(deffile)
        deffile.add('%macro mac')
        deffile.add(' nop')
        if style == 'private':
            deffile.add('priv%:', 'one')
            deffile.add(' nop')
            deffile.add(rng.choice(['priv%:', 'PRIV%: nop', 'Priv%:nop']), 'two')
            deffile.add(' br priv%')
        else:
            deffile.add(rng.choice(['shared:', 'shared: nop']), 'one')
        deffile.add('%end')
        filler.put(main)
        if style == 'label and expansion' and rng.random() < 0.5:
            main.add(rng.choice(['shared:', 'Shared = 5']), 'call1')
            filler.put(main)
            main.add(' mac', 'call2')
        else:
            main.add(' mac', 'call1')
            filler.put(main)
            main.add(' mac' if style != 'label and expansion' else rng.choice(['SHARED: nop', 'shared = 5']), 'call2')
        filler.put(main)
        expected = [(deffile, 'one'), (main, 'call1')] + ([(deffile, 'two')] if style == 'private' else [(main, 'call2')])
    else:
        f = File('lib.i', main.eol)
        files.append(f)
        main.add(include_line(rng, main, f))
        filler.put(f)
        f.add('dup_1: nop', 'one')
        filler.put(main)
        main.add(include_line(rng, main, f))
        # Other names of the file may clash before.
        for k, c in enumerate(f.chunks[:-1]):
            f.chunks[k] = ' nop' if '\n' not in c else ' nop\n nop'
        expected = [(f, 'one')]
    judge(ctx, rng, files, expected, 'clash (%s)' % style)
