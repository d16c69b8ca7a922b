"""C25: what diagnostics state is true, and they underline the culprit."""
import os
import re
import select
import subprocess
import time
import tty

from checks import c20
from vlib import core, faults, isa, pictures

TECHNIQUE = ('runtime oracle: programs with one planted fault of known particulars; the numbers, names and operand forms that the '
             'diagnostic states and the columns it underlines are compared with them')
LEVEL_NOTE = 'Every kind of operand of every instruction form, every mnemonic with wrong operands, every directive with limits.'
RULE = ('operands: every operand of every form with a value out of its range; forms: every mnemonic with operands of no form; directives: '
        'values, lengths and positions beyond the limits; names: unknown and twice defined names and macros; pictures: wrong sizes, '
        'colours and attributes, also by the icon command; every: all faults of C20, for what is underlined; assembled: sizes stated on '
        'success; terminal: error, output or both on a terminal. The faults are in main files, included files and macro bodies, after tabs, labels and non-ASCII characters. Distinct: programs.')
ASSUMPTIONS = ['Columns count characters from 0; a character of the workload is one code point wide.',
               'An underlined operand in parentheses or with a unary operator may be underlined in part.']

NUMBER = re.compile(r'(?<![\w.])-?(?:0x[0-9A-Fa-f]+|\d+)\b')
LOCATION = re.compile(r'^([\s|]*)(.+?):(\d+):(\d+)(?:-(\d+))?\s*$')
KIND = {'i8': '#i8', 'ri': '@Ri'}


def tasks(tier):
    n = 1 if tier == 'quick' else 12
    ops = sum(1 for f in isa.FORMS for k in f.kinds if k != 'ri')
    return [('operands', 45 * ops * n), ('forms', 60 * len(MNEMONICS) * n), ('directives', 1500 * n), ('names', 2000 * n),
            ('pictures', 400 * n), ('every', 8 * len(faults.ALL) * n), ('assembled', 300 * n),
            ('terminal', 300 * n)]


MNEMONICS = sorted({f.mnemonic for f in isa.FORMS})


class Shown:
    """A located line of a diagnostic: where it is and what is underlined."""

    def __init__(self, path, line, start, end, source, carets):
        self.path, self.line, self.start, self.end = path, line, start, end
        self.source, self.carets = source, carets

    @property
    def text(self):
        return self.source[self.start:self.end]

    def __repr__(self):
        return '%s:%d:%d-%d %r' % (os.path.basename(self.path), self.line, self.start, self.end, self.text)


def parse(ctx, err, cwd, texts):
    """(message, [Shown]); the message is what is not part of a location."""
    lines = err.decode('utf-8', 'replace').split('\n')
    message, found, k = [], [], 0
    while k < len(lines):
        m = LOCATION.match(lines[k])
        path = os.path.realpath(os.path.join(cwd, m.group(2))) if m else None
        if path not in texts:
            message.append(lines[k])
            k += 1
            continue
        start = int(m.group(4))
        end = int(m.group(5)) if m.group(5) else start
        source = texts[path].split('\n')[int(m.group(3)) - 1].rstrip('\r') if int(m.group(3)) <= texts[path].count('\n') + 1 else None
        if source is None:
            raise core.Violation('a line beyond the end of the file is located', location=lines[k], stderr='\n'.join(lines)[:2000])
        shown = lines[k + 1].rstrip('\r') if k + 1 < len(lines) else ''
        carets = lines[k + 2] if k + 2 < len(lines) else ''
        if not shown.endswith(source):
            raise core.Violation('the line shown is not the one located', location=lines[k], shown=shown, line=source)
        indent = len(shown) - len(source)
        underline(source, start, end, carets[:indent], carets[indent:], shown[:indent], lines[k])
        if end < start:
            end = len(source)
        found.append(Shown(path, int(m.group(3)), start, end, source, carets[indent:]))
        ctx.counters['underlined places'] += 1
        k += 3
    return '\n'.join(message), found


def underline(source, start, end, indent, carets, shown_indent, location):
    """The carets are under the characters from start to end."""
    if end < start and source.count('"') % 2:
        # A token of several lines
        end = start
    if end < start:
        raise core.Violation('the columns are reversed', location=location)
    bad = indent != shown_indent
    count = max(1, end - start)
    for c in range(start):
        here = carets[c:c + 1]
        want = '\t' if source[c:c + 1] == '\t' else ' '
        bad |= here != want and not (here == source[c:c + 1] and here.isspace())
    bad |= carets[start:start + count] != '^' * min(count, max(1, len(carets) - start))
    bad |= carets[start + count:start + count + 1] == '^'
    if start < len(source):
        bad |= len(carets) < start + min(count, len(source) - start)
    if bad:
        raise core.Violation('the carets are not under columns %d to %d' % (start, end), location=location, line=source, carets=carets)


class Place:
    """Puts a statement somewhere into a project, and finds it again."""

    def __init__(self, ctx, rng):
        self.ctx, self.rng = ctx, rng
        self.filler = c20.Filler(rng, ctx)
        self.main = c20.File(c20.place(rng), rng.choice(['\n', '\n', '\r\n']))
        self.files = [self.main]
        self.lines = {}

    def prefix(self, label):
        rng = self.rng
        p = rng.choice([' ', ' ', '\t', '   ', ' \t ']) if rng.random() < 0.98 else \
            rng.choice([' ' * rng.choice([80, 127, 200, 254, 255, 256, 300, 1000, 5000]), '\t' * 100, ' \t' * 150])
        if label and rng.random() < 0.35:
            p = rng.choice(['', ' ', '\t']) + 'pre_%d:' % self.filler.n + rng.choice(['', ' ', '\t', '  '])
            self.filler.n += 1
        return p

    def target(self):
        f = self.main
        self.filler.put(f)
        if self.rng.random() < 0.4:
            f = c20.nest(self.rng, self.filler, self.files, self.rng.randrange(1, 3))
            self.filler.put(f)
        return f

    def put(self, f, text, mark, label=False):
        """Adds the statement; remembers its column."""
        p = self.prefix(label)
        f.add(p + text + self.rng.choice(['', '', ' ; note', '\t; ünï✓ 日本', '  ']), mark)
        self.lines[mark] = (f, len(p), text)

    def run(self, what, tail=True):
        rng, ctx = self.rng, self.ctx
        if tail:
            for f in self.files:
                self.filler.put(f)
        texts = {}
        for f in self.files:
            ctx.write(f.name, f.text())
            texts[os.path.realpath(ctx.path(f.name))] = f.text()
        cwd, arg = ctx.dir, self.main.name
        if rng.random() < 0.2:
            arg = os.path.join(ctx.dir, arg)
        r = ctx.run('assemble', arg, '-o', os.path.join(ctx.dir, 'out.bin'), cwd=cwd)
        ctx.case(repr([(f.name, f.text()) for f in self.files]))
        if r.rc == 0 or r.crashed:
            raise core.Violation('%s: %s' % (what, 'accepted' if r.rc == 0 else 'crashed'), result=r.describe())
        self.what, self.result = what, r
        try:
            self.message, self.shown = parse(ctx, r.err, cwd, texts)
        except core.Violation as v:
            raise core.Violation('%s: %s' % (what, v.what), stderr=r.err.decode('utf-8', 'replace')[:3000], **v.details)
        # The first lines name the command's input, the rest is the message.
        head, sep, rest = self.message.partition('\n')
        self.stated = rest if os.path.basename(self.main.name) in head else self.message

    def fail(self, why, **details):
        raise core.Violation('%s: %s' % (self.what, why), stderr=self.result.err.decode('utf-8', 'replace')[:3000], **details)

    def numbers(self, *expected):
        """The message states these numbers, in this order, and no others."""
        found = [int(x, 16) if 'x' in x else int(x) for x in NUMBER.findall(self.stated)]
        self.ctx.counters['numbers compared'] += len(expected)
        if found != list(expected):
            self.fail('wrong numbers are stated', stated=found, expected=list(expected))

    def names(self, *expected):
        self.ctx.counters['names compared'] += len(expected)
        for n in expected:
            if not re.search(r'(?<![\w.%%])%s(?![\w%%])' % re.escape(n), self.stated, re.I):
                self.fail('%s is not named' % n)

    def under(self, k, mark, span, exact=True):
        """The k-th underlined place is the span of the statement."""
        f, column, text = self.lines[mark]
        start, end = column + span[0], column + span[1]
        self.ctx.counters['spans compared'] += 1
        if k >= len(self.shown):
            self.fail('%d places are shown only' % len(self.shown))
        s = self.shown[k]
        if s.path != os.path.realpath(self.ctx.path(f.name)) or s.line != f.line(mark):
            self.fail('place %d is not the one at fault' % k, shown=repr(s), expected='%s:%d' % (f.name, f.line(mark)))
        if exact and (s.start, s.end) != (start, end):
            self.fail('place %d underlines %r instead of %r' % (k, s.text, text[span[0]:span[1]]), shown=repr(s))
        if not exact and not start <= s.start <= s.end <= end:
            self.fail('place %d underlines %r outside of %r' % (k, s.text, text[span[0]:span[1]]), shown=repr(s))


def expression(place, v, ambiguous=True):
    """(text of an expression with the value, exactly underlined?)"""
    rng = place.rng
    style = rng.choice(['literal', 'literal', 'name', 'sum', 'product', 'logic', 'logic', 'minus', 'parens'] if ambiguous else ['literal', 'name', 'sum'])
    lit = lambda n: ('%d' % n if rng.random() < 0.5 else rng.choice(['$%x', '0x%X', '0x%04x']) % n if n < 1 << 31 else '%d' % n)
    if v < 0 and style in ('literal', 'product'):
        style = 'sum'
    if style == 'literal':
        return lit(v), True
    if style == 'name':
        n = rng.choice(['value_x', 'Wrong.Value', 'v', 'longer_name_of_a_value'])
        if not any(c.startswith(n + ' = ') for c in place.main.chunks):
            place.main.add('%s = %s' % (n, v if v >= 0 else '0 - %d' % -v))
            return rng.choice([n, n.upper()]), True
        style = 'sum'
    if style == 'sum':
        k = rng.randrange(1, 2000)
        op = rng.choice(['+', ' + ', ' +', '\t+ '])
        if v >= k:
            return lit(v - k) + op + lit(k), True
        return lit(k) + rng.choice(['-', ' - ']) + lit(k - v), True
    if style == 'product':
        k = rng.choice([d for d in (1, 2, 3, 5, 7) if v % d == 0])
        return lit(v // k) + rng.choice(['*', ' * ']) + lit(k), True
    if style == 'logic':
        op = rng.choice('|^&/')
        k = rng.randrange(1, 1 << 12)
        pair = {'|': (v & ~k, k & v), '^': (v ^ k, k), '&': (v | k, v | ~k & 0xFFFFFFF), '/': (v * k, k)}[op]
        if v < 0 or not 0 <= min(pair) <= max(pair) < 1 << 31 or op == '&' and v & ~0xFFFFFFF:
            pair, op = (v, 0), '+'
        if v < 0:
            return '%d%s0' % (v, rng.choice(['+', ' - '])), False
        return lit(pair[0]) + rng.choice(['%s', ' %s ', ' %s']) % op + lit(pair[1]), True
    if style == 'minus':
        return ('-%d' % -v if v < 0 else '-(0 - %d)' % v), False
    return '(%s)' % (lit(v) if v >= 0 else '0 - %d' % -v), False


def wrong(rng, kind, next_pos):
    """(operand value out of range, numbers stated, word)"""
    if kind in ('i8', 'd9', 'b3', 'a16'):
        top = 1 << isa.WIDTH[kind]
        v = rng.choice([top, top + 1, -1, rng.randrange(top, 70000), -rng.randrange(1, 70000)])
        return v, [v, isa.WIDTH[kind]], 'unsigned'
    if rng.random() < 0.25:
        v = rng.choice([0x10000, rng.randrange(0x10000, 0x7FFFFFFF), 0x12345])
        return (v, [v, 16], 'unsigned') if kind == 'a12' else (v, [v], 'hex')
    while True:
        v = rng.choice([rng.randrange(0x10000), (next_pos + rng.choice([-1, 1]) * rng.randrange(129, 300)) % 0x10000,
                        (next_pos + rng.choice([-129, 128, -32769, 32767, 32768])) % 0x10000])
        if isa.to_field(kind, v, next_pos) is not None:
            continue
        if kind == 'a12':
            return v, [v, next_pos], 'a12'
        return v, [v - next_pos + (kind == 'r16'), 8 if kind == 'r8' else 16], 'signed'


def operands(ctx, i, rng):
    slots = [(f, j) for f in isa.FORMS for j, k in enumerate(f.kinds) if k != 'ri']
    form, j = slots[i % len(slots)]
    place = Place(ctx, rng)
    kind = form.kinds[j]
    f = place.target()
    in_macro = rng.random() < 0.3
    base = rng.choice([0, 0x100, 0x1000 - 1, rng.randrange(0xF000), 0x8000, 0xE000, 40])
    lead = rng.randrange(3) if in_macro else 0
    pos = base + lead
    next_pos = pos + form.size
    if kind == 'r16':
        # Only the ends of memory are out of reach of each other.
        base = rng.choice([0, 0xE000, 100])
        next_pos = base + lead + form.size
        far = [v for v in (next_pos + 32767, next_pos + 40000, 65535, 0, next_pos - 1 - 32769, 5) if 0 <= v <= 65535
               and isa.to_field(kind, v, next_pos) is None]
        v = rng.choice(far + [0x10000, rng.randrange(0x10000, 1 << 31)])
        stated, word = ([v], 'hex') if v > 65535 else ([v - next_pos + 1, 16], 'signed')
    else:
        v, stated, word = wrong(rng, kind, next_pos)
    texts, exact, spans = [], True, []
    text = rng.choice([form.mnemonic, form.mnemonic.upper()]) + rng.choice([' ', '\t', '  '])
    for n, k in enumerate(form.kinds):
        if n:
            text += rng.choice([', ', ',', ' , '])
        if k == 'ri':
            text += rng.choice(['@r%d', '@R%d']) % rng.randrange(4)
            continue
        if k == 'i8':
            text += '#'
        if n == j:
            t, exact = expression(place, v)
        elif k in ('a12', 'r8', 'r16', 'a16'):
            t = '%d' % next_pos
        else:
            t = '%d' % rng.randrange(1 << isa.WIDTH[k])
        if n == j:
            span = (len(text), len(text) + len(t))
        text += t
    if in_macro:
        d = place.main if rng.random() < 0.5 else f
        d.add('%macro makro' + rng.choice(['', ' %x', ' %x, %y']))
        params = d.chunks[-1].count('%') - 1
        for _ in range(lead):
            d.add(' nop')
        place.put(d, text, 'fault', label=False)
        if rng.random() < 0.5:
            d.add(' nop')
        d.add('%end')
        place.filler.put(f)
        f.add(' .org %d' % base)
        place.put(f, ' makro'.strip() + ' ' * (params > 0) + ', '.join(['5', 'x9'][:params]), 'call', label=True)
        place.main.add('x9 = 9')
    else:
        f.add(' .org %d' % base)
        place.put(f, text, 'fault', label=True)
    place.run('%s with %s %d' % (form.name, kind, v))
    place.under(0, 'fault', span, exact)
    if in_macro:
        place.under(1, 'call', (0, len(place.lines['call'][2])))
    ctx.counters['operands: %s' % word] += 1
    if word == 'a12':
        hexes = [int(x, 16) for x in re.findall(r'0x([0-9A-Fa-f]{4,})', place.stated)]
        bits = re.findall(r'(?<![\w])[01]{4,}\b', place.stated)
        want = ['{:04b}'.format(v >> 12), '{:04b}'.format(next_pos >> 12)]
        ctx.counters['numbers compared'] += 4
        if hexes != stated or bits != want:
            place.fail('wrong numbers are stated', stated=[hexes, bits], expected=[stated, want])
        return
    place.numbers(*stated)
    if word != 'hex' and not re.search(r'\b%s\b' % word, place.stated):
        place.fail('the range is not called %s' % word)
    if word == 'hex' and not re.search(r'address', place.stated, re.I):
        place.fail('the address is not called so')


SHAPES = ['#5', '5', '@r1', '(6)', 'pre_x', '#pre_x', '@R0']


def fits(form, args):
    return len(form.kinds) == len(args) and all(
        (k == 'i8') == a.startswith('#') and (k == 'ri') == a.startswith('@') for k, a in zip(form.kinds, args))


def forms(ctx, i, rng):
    m = MNEMONICS[i % len(MNEMONICS)]
    mine = [f for f in isa.FORMS if f.mnemonic == m]
    while True:
        args = [rng.choice(SHAPES) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4]))]
        if not any(fits(f, args) for f in mine):
            break
    place = Place(ctx, rng)
    f = place.target()
    place.main.add('pre_x = 5')
    text = rng.choice([m, m.upper()]) + (rng.choice([' ', '\t', '  ']) + rng.choice([', ', ',', ' , ']).join(args) if args else '')
    # An immediate or indirect operand in parentheses doesn't exist.
    span = (0, len(text))
    in_macro = rng.random() < 0.3
    if in_macro:
        f.add('%macro makro')
        place.put(f, text, 'fault', label=False)
        f.add('%end')
        place.filler.put(f)
        place.put(f, 'makro', 'call', label=True)
    else:
        place.put(f, text, 'fault', label=True)
    place.run('%s with %s' % (m, ', '.join(args) or 'nothing'))
    place.names(m)
    place.under(0, 'fault', span, not (args and args[-1] == '(6)'))
    if in_macro and len(place.shown) > 1:
        place.under(1, 'call', (0, len('makro')))
    want = sorted(' '.join([m, ', '.join(KIND.get(k, k) for k in f.kinds)]).strip() for f in mine)
    ctx.counters['forms compared'] += len(want)
    if want == [m]:
        place.numbers(0)
        return
    said = sorted({' '.join(line.split()) for line in place.stated.split('\n') if re.match(r'\s*%s\s' % re.escape(m), line, re.I)})
    if said != want:
        place.fail('other operand forms are stated', stated=said, expected=want)


def directives(ctx, i, rng):
    place = Place(ctx, rng)
    f = place.target()
    style = rng.choice(['byte', 'byte', 'word', 'org', 'text', 'string', 'cnop', 'empty', 'zero'])
    ctx.counters['directive: ' + style] += 1
    exact = True
    if style in ('byte', 'word'):
        lo, hi = (-128, 255) if style == 'byte' else (-32768, 65535)
        v = rng.choice([lo - 1, hi + 1, rng.randrange(hi + 1, 1 << 31), -rng.randrange(1 - lo, 1 << 31)])
        if v < -2147480000:
            v += 3000
        t, exact = expression(place, v)
        text = '.' + rng.choice([style, style.upper()]) + ' '
        for _ in range(rng.randrange(4)):
            text += rng.choice(['1, ', '-5,', '$1f , ', '(2+3), ']
                               + (['"é日✓", ', '"a;b", '] if style == 'byte' else []))
        span = (len(text), len(text) + len(t))
        text += t
        for _ in range(rng.randrange(3)):
            text += rng.choice([', 1', ',2', ' , lo_x'])
        place.main.add('lo_x = 1')
        stated = [v]
    elif style == 'org':
        v = rng.choice([0x10000, 0x10001, rng.randrange(0x10000, 1 << 31), rng.randrange(0x10000, 0x20000)])
        t = rng.choice(['%d', '$%x', '0x%X']) % v
        text = rng.choice(['.org ', '.ORG\t']) + t
        span, stated = (0, len(text)), [v]
    elif style in ('text', 'string'):
        s = ''.join(rng.choice(['a', 'b', ' ', 'é', '日', '\\n', '\\"', 'xyz']) for _ in range(rng.randrange(1, 12)))
        size = len(s.replace('\\n', '1').replace('\\"', '1').encode())
        n = rng.randrange(0, size)
        text = '.%s %d "%s"' % (rng.choice([style, style.upper()]), n, s)
        span, stated = (0, len(text)), [size, n]
    elif style == 'cnop':
        t = rng.choice(['lo_x', 'x', 'Long_Name'])
        text = '.cnop ' + rng.choice(['%s, 5', '4, %s']) % t
        span, stated = (text.index(t), text.index(t) + len(t)), []
        if rng.random() < 0.5:
            place.main.add(t + ' = 2')
    elif style == 'empty':
        name = rng.choice(['byte', 'word'])
        text = '.' + name
        span, stated = (0, len(text)), []
    else:
        t, exact = rng.choice([('5/0', True), ('(1 + 3)/(4-4)', False), ('7 / lo_x', True), ('2147483647 + 1', True), ('65536*65536', True)])
        if t == '7 / lo_x':
            place.main.add('lo_x = 0')
        text = rng.choice(['.byte 1, ', '.word ']) + t
        span, stated = (text.index(t), text.index(t) + len(t)), None
    place.put(f, text, 'fault')
    place.run(text)
    if stated is not None:
        place.numbers(*stated)
    if style in ('byte', 'word', 'empty') and not re.search(r'\b%s' % (style if style != 'empty' else name), place.stated, re.I):
        place.fail('the directive is not named')
    if style == 'empty':
        f, column, t = place.lines['fault']
        place.under(0, 'fault', (0, 40), False)
    else:
        place.under(0, 'fault', span, exact)


def names(ctx, i, rng):
    place = Place(ctx, rng)
    f = place.target()
    style = rng.choice(['unknown', 'unknown', 'twice', 'macro', 'macro twice', 'macro named as instruction', 'parameter twice', 'no end',
                        'arity', 'nested'])
    ctx.counters['names: ' + style] += 1
    n = rng.choice(['nowhere', 'No.Where', 'x', 'UNKNOWN_name', 'a_b1', 'q.r.s'])
    if style == 'unknown':
        if rng.random() < 0.25:
            n = '.' + n
        before, after = rng.choice([('.byte ', ''), ('ld ', ''), ('.word 1, ', ', 2'), ('add #', ''), ('mov #1, ', ''), ('jmp ', ''), ('br ', ''),
                                    ('callf 1 + ', ''), ('.word 2 * (3 - ', ')'), ('ld <', ''), ('.byte "é✓", ', ' + 1'), ('mov #', ', 7'),
                                    ('bp 5, ', ', $3'), ('.word -', ''), ('zz = ', ' * 2'), ('.byte 1, >(', ')')])
        place.put(f, before + n + after, 'fault')
        place.run(before + n + after)
        place.names(n)
        place.numbers()
        place.under(0, 'fault', (len(before), len(before) + len(n)))
    elif style == 'nested':
        # An unknown name in a macro in a macro
        f.add('%macro inner %p')
        before, after = rng.choice([('ld ', ''), ('add #', ''), ('mov #1, ', ' + %p'), ('ld %p + ', ''), ('bp 5, 3, ', '')])
        place.put(f, before + n + after, 'fault')
        f.add('%end')
        f.add('%macro outer %p')
        place.put(f, 'inner ' + rng.choice(['5', '%p', '%p + 1']), 'call1')
        f.add('%end')
        place.put(place.main, 'outer ' + rng.choice(['7', '(3)', '4 + 3']), 'call2', label=True)
        place.run(before + n + after)
        place.names(n)
        place.under(0, 'fault', (len(before), len(before) + len(n)))
        for k in (1, 2):
            text = place.lines['call%d' % k][2]
            place.under(k, 'call%d' % k, (0, len(text)), ')' not in text)
    elif style == 'twice':
        a, b = rng.choice([(n + ':', n.upper() + ':'), (n + ':', n + ' = 5'), (n + ' = 4', n + ' EQU 6'), (n + ': nop', n + ':'),
                           (n + ' = 5', n.lower() + ':')])
        for t, mark in ((a, 'one'), (b, 'two')):
            p = rng.choice(['', '', ' ', '\t'])
            f.add(p + t, mark)
            place.lines[mark] = (f, len(p), t)
            if mark == 'one':
                place.filler.put(f)
        place.run('%s and %s' % (a, b))
        place.names(n)
        place.numbers()
        ends = [len(n), len(n) + 1, len(a), len(b)]
        marks = ['two', 'one']
        if ':' in b and ':' not in a and place.shown and place.shown[0].line == f.line('one'):
            # Labels are declared before other names.
            marks.reverse()
        for k, mark in enumerate(marks):
            if k < len(place.shown) and place.shown[k].line != f.line(mark):
                place.fail('the first definition is called the second')
            place.under(k, mark, (0, max(ends)), False)
            s = place.shown[k]
            if s.start != place.lines[mark][1] or s.end < s.start + len(n):
                place.fail('place %d does not underline %s' % (k, n), shown=repr(s))
    elif style in ('macro', 'arity'):
        args = ', '.join(rng.choice(['5', '#1', '@r1', '(2)', 'zz']) for _ in range(rng.randrange(4)))
        if style == 'arity':
            f.add('%macro ' + n + rng.choice([' %a', ' %a, %b']) if args.count(',') not in (0, 1) or not args else '%macro ' + n)
            f.add(' nop')
            f.add('%end')
        text = n + (' ' + args if args else '')
        # A name in parentheses could be called something else.
        in_body = rng.random() < 0.3
        if in_body:
            f.add('%macro outer')
        place.put(f, text, 'fault', label=not in_body)
        if in_body:
            f.add('%end')
            place.put(f, 'outer', 'call')
        place.run(text)
        if not in_body:
            place.names(n)
        place.under(0, 'fault', (0, len(text)), not text.endswith(')'))
        if in_body:
            place.under(1, 'call', (0, 5))
    elif style == 'macro twice':
        params = ', '.join('%%p%d' % k for k in range(rng.randrange(4)))
        for m, mark in ((n, 'one'), (n.upper(), 'two')):
            place.lines[mark] = (f, 0, '%macro ' + m + (' ' + params if params else ''))
            f.add(place.lines[mark][2], mark)
            f.add(' nop')
            f.add('%end')
            if mark == 'one':
                place.filler.put(f)
        place.run('macro %s %s twice' % (n, params))
        place.names(n)
        place.numbers(params.count('%'))
        for k, mark in enumerate(('two', 'one')):
            place.under(k, mark, (len('%macro '), len('%macro ') + len(n)))
    elif style == 'macro named as instruction':
        m = rng.choice(MNEMONICS)
        t = rng.choice([m, m.upper()])
        place.lines['fault'] = (f, 0, '%macro ' + t)
        f.add('%macro ' + t + rng.choice(['', ' %a']), 'fault')
        f.add('%end')
        place.run('macro ' + t)
        place.names(m)
        place.under(0, 'fault', (len('%macro '), len('%macro ') + len(t)))
    elif style == 'parameter twice':
        params = ['%p', '%q', '%P'] if rng.random() < 0.3 else ['%p', '%p'] if rng.random() < 0.5 else ['%a', '%b', '%c', '%b']
        t = '%macro ' + n + ' ' + ', '.join(params)
        place.lines['fault'] = (f, 0, t)
        f.add(t, 'fault')
        f.add('%end')
        place.run(t)
        place.under(0, 'fault', (len(t) - 2, len(t)))
    else:
        m = rng.choice(['mac', 'Mac_1', 'm.n'])
        t = '%macro ' + m
        place.lines['fault'] = (f, 0, t)
        f.add(t + rng.choice(['', ' %a']), 'fault')
        f.add(' nop')
        place.run(t + ' without end', tail=False)
        place.names(m, '%end')
        place.under(0, 'fault', (len('%macro '), len(t)))


def grid(rng, w, h, n):
    """Rows of a picture with exactly n colours."""
    palette = [(17 * k % 256 // 17 * 17, (k // 15) * 17 % 256, 17 * (k % 7), 255) for k in range(n * 3)]
    palette = sorted(set(palette))[:n]
    rng.shuffle(palette)
    flat = [palette[k % len(palette)] for k in range(w * h)]
    return [flat[y * w:(y + 1) * w] for y in range(h)], min(len(palette), w * h)


def images(ctx, rng):
    """Pictures with which icons and sprites fail."""
    style = rng.choice(['icon size', 'icon colours', 'eyecatch size', 'sprite width', 'sprite height', 'sprite type', 'header', 'speed',
                        'missing', 'eyecatch missing'])
    ctx.counters['pictures: ' + style] += 1
    place = Place(ctx, rng)
    f = place.target()
    here = os.path.dirname(f.name)
    name = rng.choice(['pic.png', 'sub dir/pic.png', 'ünï.png'])
    full = os.path.normpath(os.path.join(here, name))
    good, _ = grid(rng, 32, 32, 3)
    also = os.path.normpath(os.path.join(here, 'good.png'))
    ctx.write(also, pictures.png(rng, good).data)
    quote = lambda p: '"%s"' % p
    stated, span, named = None, None, full
    command = note = None
    if style == 'icon size':
        w, h = rng.choice([(31, 32), (32, 31), (33, 32), (32, 33), (16, 16), (64, 64), (1, 1), (32, 64)])
        rows, _ = grid(rng, w, h, 2)
        text, stated = '.include icon ' + quote(name), [32, 32]
    elif style == 'icon colours':
        rows, n = grid(rng, 32, 32, rng.choice([17, 18, 20, 33, 40]))
        text, stated = '.include icon ' + quote(name), [16, n]
        command = [n, 16]
    elif style == 'eyecatch size':
        w, h = rng.choice([(71, 56), (72, 55), (73, 56), (72, 57), (56, 72), (32, 32)])
        rows, _ = grid(rng, w, h, 2)
        text, stated = '.include icon "good.png" eyecatch=' + quote(name), [72, 56]
    elif style == 'sprite width':
        w = rng.choice([256, 257, 300])
        rows, _ = grid(rng, w, 3, 2)
        text, stated, named = '.include sprite ' + quote(name) + rng.choice(['', ' header="yes"', ' type="masked"']), [w], None
        span, note = (16, 16 + len(quote(name))), [w, 255]
    elif style == 'sprite height':
        h = rng.choice([256, 257, 300])
        rows, _ = grid(rng, 3, h, 2)
        text, stated, named = '.include sprite ' + quote(name) + rng.choice(['', ' header="yes"']), [h], None
        span, note = (16, 16 + len(quote(name))), [h, 255]
    elif style in ('sprite type', 'header'):
        rows = good
        value = rng.choice(['q', 'é✓', 'masked2', 'no way', 'Yess'])
        key = 'type=' if style == 'sprite type' else 'header='
        text = '.include sprite ' + quote(name) + ' ' + key + quote(value)
        span, named, stated = (len(text) - len(quote(value)), len(text)), value, [2] if '2' in value else []
    elif style == 'speed':
        rows = good
        v = rng.choice([65536, -1, 70000, 1 << 30])
        t = '%d' % v
        text = '.include icon ' + quote(name) + ' speed=' + t
        named = None
    else:
        rows = None
        text = '.include icon ' + quote(name) if style == 'missing' else '.include icon "good.png" eyecatch=' + quote(name)
    if rows:
        ctx.write(full, pictures.png(rng, rows).data)
    place.put(f, text, 'fault')
    place.run(text)
    if named == full:
        while re.search(r'[^/\n]+/\.\./', place.stated):
            place.stated = re.sub(r'[^/\n]+/\.\./', '', place.stated, count=1)
    if named and named not in place.stated:
        place.fail('%s is not named' % named)
    if stated is not None:
        # Digits in the names of files are no statement.
        rest = place.stated.replace(named, 'X') if named == full else place.stated
        found = [int(x) for x in re.findall(r'\d+', rest.replace(ctx.dir, ''))]
        if found != stated:
            place.fail('wrong numbers are stated', stated=found, expected=stated)
        ctx.counters['numbers compared'] += len(stated)
    if span:
        place.under(0, 'fault', span)
    if note:
        found = [int(x) for x in re.findall(r'\d+', place.shown[0].carets)]
        if found != note:
            place.fail('wrong numbers are stated', stated=found, expected=note)
    if rows and style in ('icon size', 'icon colours', 'eyecatch size') or style in ('missing', 'eyecatch missing'):
        by_command(ctx, rng, style, full, also, command or stated)


def by_command(ctx, rng, style, full, also, stated):
    args = ['icon', full] if not style.startswith('eyecatch') else ['icon', also, rng.choice(['-e', '--eyecatch']), full]
    r = ctx.run(*args, cwd=ctx.dir)
    if r.rc != 1 or r.crashed or r.out:
        raise core.Violation('icon with a fault in the %s: not refused' % style, result=r.describe())
    err = r.err.decode('utf-8', 'replace')
    found = [int(x) for x in re.findall(r'\d+', err.replace(full, 'X'))]
    if full not in err or stated is not None and found != stated:
        raise core.Violation('icon with a fault in the %s: wrong particulars' % style, stderr=err[:1500], stated=found, expected=stated)
    ctx.counters['numbers compared'] += len(stated or [])


def every(ctx, i, rng):
    """What is underlined belongs to the fault."""
    fault = faults.ALL[i % len(faults.ALL)]
    place = Place(ctx, rng)
    f = place.target()
    body = fault.lstrip()
    if rng.random() < 0.5 or body[:1] in '*':
        f.add(fault, 'fault')
        place.lines['fault'] = (f, len(fault) - len(body), body)
    else:
        place.put(f, body, 'fault')
    f.add(' nop')
    place.run(fault)
    ctx.counters['faults'] += 1
    for s in place.shown:
        offset = s.line - f.line('fault')
        chunk = f.chunks[f.marks['fault']].split('\n')
        if s.path != os.path.realpath(ctx.path(f.name)) or not 0 <= offset < len(chunk):
            continue
        # It may be something missing at the end of the line.
        if not 0 <= s.start <= len(chunk[offset]) + 1:
            place.fail('something beyond the line is underlined', shown=repr(s))
        if len(chunk) == 1 and s.end > len(chunk[offset]) + 1:
            place.fail('something beyond the line is underlined', shown=repr(s))
        if s.start < len(chunk[offset].rstrip()) and not s.source[s.start:s.end or 1].strip() and s.end > s.start:
            place.fail('only white space is underlined', shown=repr(s))


def assembled(ctx, i, rng):
    size = rng.choice([0, 1, 2, 255, 256, 1000, 65535, 65536, rng.randrange(65536), 65600, 66000])
    out = rng.choice(['out.bin', 'sub out.bin', 'ünï.vms'])
    text = ''
    if size:
        at = min(size - 1, rng.choice([0, 65535, rng.randrange(65536)]))
        text = ' .org %d\n' % at + ' .byte 7\n' * rng.choice([0, 1]) if size - at > 2000 else ' .org %d\n' % at + ' .byte 7\n' * (size - at)
        size = at if text.endswith('%d\n' % at) else at + text.count('.byte')
    ctx.write('in.s', text)
    r = ctx.run('assemble', 'in.s', '-o', out, cwd=ctx.dir)
    ctx.case((size, out))
    if r.rc:
        raise core.Violation('a program of %d bytes is refused' % size, result=r.describe())
    real = len(ctx.read(out))
    said = (r.err + r.out).decode('utf-8', 'replace')
    ctx.counters['numbers compared'] += 1
    if real != size or [int(x) for x in re.findall(r'\d+', said.replace(out, ''))] != [real] or out not in said:
        raise core.Violation('%d bytes written, but something else is stated' % real, said=said, expected=size)


COLOUR = re.compile(rb'\x1b\[[0-9;]*m')


def on_terminal(ctx, args, which):
    """Runs the command with standard error ('e'), output ('o') or both on a terminal."""
    master, slave = os.openpty()
    try:
        tty.setraw(slave)
        with open(os.path.join(ctx.base, 'out'), 'w+b') as fo:
            p = subprocess.Popen([ctx.exe] + args, cwd=ctx.dir, env=dict(ctx.env, TERM='xterm-256color', PWD=ctx.dir),
                                 stdin=subprocess.DEVNULL, stdout=slave if 'o' in which else fo,
                                 stderr=slave if 'e' in which else fo, close_fds=True)
            os.close(slave)
            slave = None
            shown = b''
            end = time.monotonic() + 60
            while time.monotonic() < end:
                if select.select([master], [], [], 1)[0]:
                    try:
                        data = os.read(master, 65536)
                    except OSError:
                        break
                    if not data:
                        break
                    shown += data
            else:
                p.kill()
                p.wait()
                raise core.Inconclusive('a command on a terminal did not end')
            rc = p.wait()
            fo.seek(0)
            return rc, fo.read(), shown
    finally:
        os.close(master)
        if slave is not None:
            os.close(slave)


def terminal(ctx, i, rng):
    """On a terminal the same is said, in colour."""
    place = Place(ctx, rng)
    f = place.target()
    k = rng.randrange(4)
    if k:
        f.add(' ' + rng.choice(faults.ALL).lstrip(), 'fault')
    for g in place.files:
        ctx.write(g.name, g.text())
    ctx.write('x.bin', bytes(rng.randrange(256) for _ in range(rng.choice([0, 5, 600]))))
    args = ['assemble', place.files[0].name, '-o', 'out.bin']
    if k == 0 or rng.random() < 0.2:
        args = rng.choice([args, ['expand', place.files[0].name], ['disassemble', 'x.bin'], ['icon', 'missing.png'],
                           ['vmi', 'x.bin', '-o', 'x.vmi'], ['version']])
    which = rng.choice(['e', 'o', 'eo'])
    ctx.remove('out.bin')
    plain = ctx.run(*args, cwd=ctx.dir)
    left = ctx.read('out.bin')
    ctx.remove('out.bin')
    rc, out, shown = on_terminal(ctx, args, which)
    ctx.case(repr((args, [g.text() for g in place.files])))
    if (plain.out + plain.err).count(b'\x1b[') and not any('\x1b[' in g.text() for g in place.files):
        raise core.Violation('control sequences for a terminal where there is none', result=plain.describe())
    said = COLOUR.sub(b'', shown)
    if args[0] == 'expand' and not plain.rc:
        # names of private labels differ
        return
    if which == 'eo':
        same = sorted(said.split(b'\n')) == sorted((plain.out + plain.err).split(b'\n'))
    elif which == 'e':
        same = said == plain.err and out == plain.out
    else:
        same = said == plain.out and out == plain.err
    if rc != plain.rc or not same or ctx.read('out.bin') != left:
        raise core.Violation('%s: something else is said on a terminal' % args[0], result=plain.describe(), rc=rc,
                             terminal=shown[:2000].decode('utf-8', 'replace'), output=out[:500])
    ctx.counters['on a terminal'] += 1
    ctx.counters['in colour'] += said != shown


def run_case(ctx, kind, i, rng):
    if kind == 'terminal':
        terminal(ctx, i, rng)
    elif kind == 'operands':
        operands(ctx, i, rng)
    elif kind == 'forms':
        forms(ctx, i, rng)
    elif kind == 'directives':
        directives(ctx, i, rng)
    elif kind == 'names':
        names(ctx, i, rng)
    elif kind == 'pictures':
        images(ctx, rng)
    elif kind == 'every':
        every(ctx, i, rng)
    else:
        assembled(ctx, i, rng)
