"""Writes programs of vlib.model as source text, in a plain or in a random
but equivalent spelling."""

PREC = {'&': 1, '|': 1, '^': 1, '+': 2, '-': 2, '*': 3, '/': 3}

COMMENTS = ['; x', ';', ';;; .byte 1', '; "unclosed', "; %macro foo %a", '; ünïcode ✓', '; a, b: c = d # @r0',
            ';\ttab', '; 0x ', '; ((', '; a\r .byte 9', ';\rnope']


class Plain:
    """One canonical spelling."""
    newline = '\n'

    def number(self, n):
        return str(n)

    def name(self, s):
        return s

    word = name

    def gap(self):
        return ' '

    def opt(self):
        return ''

    def parens(self):
        return False

    def lead(self):
        return ' '

    def tail(self):
        return ''

    def between(self):
        return ''

    def equ(self, style):
        return style

    def string(self, data):
        return quote(data)


class Random(Plain):
    """Random equivalent spelling; every choice comes from rng."""

    def __init__(self, rng, wild=0.5, newline=None):
        self.rng, self.wild = rng, wild
        self.newline = newline or rng.choice(['\n', '\n', '\r\n'])

    def number(self, n):
        rng = self.rng
        style = rng.choice('dddhHbBoxX') if rng.random() < self.wild + 0.2 else 'd'
        if style == 'd':
            digits, pre = str(n), ''
        elif style in 'hH':
            digits, pre = '%x' % n, '$'
        elif style in 'xX':
            digits, pre = '%x' % n, '0' + style
        elif style == 'b':
            digits, pre = bin(n)[2:], '%'
        elif style == 'B':
            digits, pre = bin(n)[2:], rng.choice(['0b', '0B'])
        else:
            digits, pre = oct(n)[2:], rng.choice(['0o', '0O'])
        if rng.random() < 0.2 and pre:
            digits = '0' * rng.randrange(1, 4) + digits
        elif rng.random() < 0.1:
            digits = '0' * rng.randrange(1, 3) + digits
        digits = ''.join(rng.choice((c, c.upper())) for c in digits)
        if len(digits) > 1 and rng.random() < 0.2:
            k = rng.randrange(1, len(digits))
            digits = digits[:k] + "'" + digits[k:]
        return pre + digits

    def name(self, s):
        if self.rng.random() < self.wild:
            return ''.join(self.rng.choice((c.lower(), c.upper())) for c in s)
        return s

    word = name

    def gap(self):
        return self.rng.choice([' ', ' ', '  ', '\t', ' \t ', '     '])

    def opt(self):
        return self.rng.choice(['', '', '', ' ', '\t', '  '])

    def parens(self):
        return self.rng.random() < 0.12 * self.wild * 2

    def lead(self):
        return self.rng.choice(['', ' ', '  ', '\t', '        '])

    def tail(self):
        rng = self.rng
        t = rng.choice(['', '', '', ' ', '\t'])
        if rng.random() < 0.3 * self.wild * 2:
            t += rng.choice(COMMENTS)
        return t

    def between(self):
        rng = self.rng
        out = ''
        while rng.random() < 0.2 * self.wild * 2:
            k = rng.randrange(4)
            if k == 0:
                out += rng.choice(['', ' ', '\t ']) + self.newline
            elif k == 1:
                out += rng.choice(['', '  ']) + rng.choice(COMMENTS) + self.newline
            elif k == 2:
                out += '*' + rng.choice([' star comment', '', '* ; x', ' .byte 3 "', 'a\r .byte 9']) + self.newline
            else:
                out += self.newline
        return out

    def string(self, data):
        return quote(data, self.rng)


_ESC = {0x0A: '\\n', 0x0D: '\\r', 0x09: '\\t', 0x08: '\\b', 0: '\\0', 0x22: '\\"', 0x5C: '\\\\'}


def quote(data, rng=None):
    """A string literal for bytes that are valid UTF-8."""
    out = ''
    for c in data.decode('utf-8'):
        o = ord(c)
        if o in (0x22, 0x5C, 0x0A, 0x0D):
            out += _ESC[o]
        elif o in _ESC:
            # these may stand for themselves as well
            out += _ESC[o] if rng is None or rng.random() < 0.5 else c
        elif rng and 33 <= o < 127 and c not in 'rntb0' and rng.random() < 0.05:
            out += '\\' + c
        else:
            out += c
    return '"' + out + '"'


def expr(e, s, level=0, right=False):
    """Text of an expression that binds at least as tightly as level."""
    if isinstance(e, int):
        if e < 0:
            return expr(('neg', -e) if e != -(1 << 31) else ('-', ('neg', (1 << 31) - 1), 1), s, level, right)
        t = s.number(e)
    elif e[0] == 'name':
        t = s.name(e[1])
    elif e[0] == 'text':
        t = e[1]
    elif e[0] in ('param', 'plabel'):
        t = s.name(e[1])
    elif e[0] == 'paren':
        return '(' + s.opt() + expr(e[1], s) + s.opt() + ')'
    elif e[0] in ('neg', 'hi', 'lo'):
        t = {'neg': '-', 'hi': '>', 'lo': '<'}[e[0]] + s.opt() + expr(e[1], s, 4)
    else:
        p = PREC[e[0]]
        need = p < level or (p == level and right)
        t = expr(e[1], s, p) + s.opt() + e[0] + s.opt() + expr(e[2], s, p, True)
        if need:
            return '(' + s.opt() + t + s.opt() + ')'
    if s.parens():
        return '(' + s.opt() + t + s.opt() + ')'
    return t


def operand(kind, v, s):
    if kind == 'ri':
        return s.word('@R%d' % v)
    if kind == 'i8':
        return '#' + s.opt() + expr(v, s)
    return expr(v, s)


def comma(s):
    return s.opt() + ',' + s.opt() + ' ' * (1 if s.opt() == '' else 0)


def stmt(st, s):
    """Text of a statement without indentation or end of line."""
    k = st[0]
    if k == 'instr':
        ops = comma(s).join(operand(kind, v, s) for kind, v in zip(st[1].kinds, st[2]))
        return s.word(st[1].mnemonic) + (s.gap() + ops if ops else '')
    if k == 'byte':
        return s.word('.byte') + s.gap() + comma(s).join(
            s.string(x) if isinstance(x, bytes) else expr(x, s) for x in st[1])
    if k == 'word':
        return s.word('.word') + s.gap() + comma(s).join(expr(x, s) for x in st[1])
    if k in ('text', 'string'):
        return s.word('.' + k) + s.gap() + s.number(st[1]) + s.gap() + s.string(st[2])
    if k == 'org':
        return s.word('.org') + s.gap() + s.number(st[1])
    if k == 'cnop':
        return s.word('.cnop') + s.gap() + s.number(st[1]) + comma(s) + s.number(st[2])
    if k == 'const':
        if st[3] == 'equ':
            return s.name(st[1]) + s.gap() + s.word('equ') + s.gap() + expr(st[2], s)
        return s.name(st[1]) + s.opt() + '=' + s.opt() + expr(st[2], s)
    if k == 'label':
        return s.name(st[1]) + s.opt() + ':'
    if k in ('raw', 'none'):
        return st[-1]
    raise AssertionError(k)


def program(stmts, s, join_labels=None):
    """Source text; join_labels is the chance that a label shares the line
    of an instruction that follows it."""
    out = []
    i = 0
    while i < len(stmts):
        st = stmts[i]
        out.append(s.between())
        line = stmt(st, s)
        if st[0] == 'label' and i + 1 < len(stmts) and stmts[i + 1][0] == 'instr' and join_labels is not None \
                and join_labels():
            line += s.gap() + stmt(stmts[i + 1], s)
            i += 1
        out.append(('' if st[0] == 'none' else s.lead()) + line + s.tail() + s.newline)
        i += 1
    return ''.join(out)
