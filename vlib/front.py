"""A reference front end: what the text of a program means, as statements of
vlib.model, written from the description of the language and independent of
the code under test. Where the description leaves open what a text means,
Unclear is raised and nothing is judged."""
import posixpath
import re

from vlib import isa, macros, model
from vlib.model import Reject


class Unclear(Exception):
    pass


IDENT = r'[A-Za-z_.][A-Za-z$0-9_.]*'


def _digits(d):
    return "%s(?:'%s|%s)*" % (d, d, d)


TOKEN = re.compile('|'.join([
    '(?P<param>%%%s)' % IDENT, '(?P<plabel>%s%%)' % IDENT, r'(?P<punct>::|[()#,:=+*/&|^<>-])',
    r'(?P<string>"(?:\\[^\n]|[^"\\])*")', '(?P<reg>@[rR][0-3])', '(?P<name>%s)' % IDENT,
    r'(?P<hex>\$%s)' % _digits('[a-fA-F0-9]'), '(?P<oct>0[oO]%s)' % _digits('[0-7]'),
    '(?P<hex2>0[xX]%s)' % _digits('[a-fA-F0-9]'), '(?P<bin>%%%s)' % _digits('[01]'),
    '(?P<bin2>0[bB]%s)' % _digits('[01]'), '(?P<dec>%s)' % _digits('[0-9]')]))
SKIP = re.compile(r'\s+')
BASE = {'hex': (16, 1), 'hex2': (16, 2), 'oct': (8, 2), 'bin': (2, 1), 'bin2': (2, 2), 'dec': (10, 0)}
ESCAPES = {'n': '\n', 'r': '\r', 't': '\t', 'b': '\b', '0': '\0'}


class Token:
    __slots__ = ('kind', 'value', 'start', 'end', 'first')

    def __init__(self, kind, value, start, end, first):
        self.kind, self.value, self.start, self.end, self.first = kind, value, start, end, first

    def __repr__(self):
        return '%s:%s' % (self.kind, self.value)


def unquote(s):
    return re.sub(r'\\(.)', lambda m: ESCAPES.get(m.group(1), m.group(1)), s[1:-1], flags=re.S)


COMMENT = re.compile(r'//[^\n]*|/\*.*?(?:\*/|\Z)', re.S)


def lex(text, header=False):
    """The tokens of a text, or of a C header."""
    out, i, n = [], 0, len(text)
    line = 1
    while i < n:
        m = SKIP.match(text, i)
        if m:
            line += m.group().count('\n')
            i = m.end()
            continue
        if header:
            m = COMMENT.match(text, i)
            if m:
                if '\n' in m.group():
                    raise Unclear('comment of several lines')
                i = m.end()
                continue
        elif text[i] == ';' or text[i] == '*' and (i == 0 or text[i - 1] == '\n'):
            j = text.find('\n', i)
            i = n if j < 0 else j
            continue
        m = TOKEN.match(text, i)
        if not m:
            raise Reject('no token at %r' % text[i:i + 20])
        k, s = m.lastgroup, m.group()
        if k in BASE:
            base, skip = BASE[k]
            v = int(s[skip:].replace("'", ''), base)
            if v > model.INT_MAX:
                raise Reject('number too big')
            k = 'num'
        elif k == 'string':
            v = unquote(s).encode()
        elif k == 'reg':
            v = int(s[2])
        elif k == 'punct':
            k = v = s
        else:
            v = s.lower()
        t = Token(k, v, i, m.end(), line)
        out.append(t)
        i = m.end()
        if k == 'string' and '\n' in s:
            line += s.count('\n')
            j = text.find('\n', i)
            rest = text[i:n if j < 0 else j].strip()
            if rest and not rest.startswith(';'):
                raise Unclear('something after a string of several lines')
    return out


def split(tokens):
    out = []
    for t in tokens:
        if out and out[-1][0].first == t.first:
            out[-1].append(t)
        else:
            out.append([t])
    return out


class Line:
    """The tokens of a line, read one after the other."""

    def __init__(self, tokens):
        self.t, self.i = tokens, 0

    def kind(self, k=0):
        return self.t[self.i + k].kind if self.i + k < len(self.t) else None

    def is_name(self, *names, k=0):
        return self.kind(k) == 'name' and self.t[self.i + k].value in names

    def next(self, *kinds):
        if self.i >= len(self.t) or kinds and self.t[self.i].kind not in kinds:
            raise Reject('%s expected' % (kinds or 'more',))
        self.i += 1
        return self.t[self.i - 1].value

    def done(self):
        return self.i >= len(self.t)

    def end(self):
        if not self.done():
            raise Reject('something superfluous')


LEVEL = {'&': 1, '|': 1, '^': 1, '+': 2, '-': 2, '*': 3, '/': 3}


def expression(ln, level=1):
    if level > 3:
        return primary(ln)
    e = expression(ln, level + 1)
    while LEVEL.get(ln.kind()) == level:
        op = ln.next()
        e = (op, e, expression(ln, level + 1))
    return e


def primary(ln):
    k = ln.kind()
    if k == 'num':
        return ln.next()
    if k == 'name':
        return ('name', ln.next())
    if k == 'param':
        return ('param', ln.next())
    if k == 'plabel':
        return ('plabel', ln.next())
    if k == '(':
        ln.next()
        e = expression(ln)
        ln.next(')')
        return e
    if k in ('-', '<', '>'):
        ln.next()
        return ({'-': 'neg', '<': 'lo', '>': 'hi'}[k], primary(ln))
    raise Reject('no expression')


def some(ln, item):
    out = [item(ln)]
    while not ln.done():
        ln.next(',')
        out.append(item(ln))
    return out


def argument(ln):
    if ln.kind() == 'reg':
        return ('ri', ln.next())
    if ln.kind() == '#':
        ln.next()
        return ('imm', expression(ln))
    e = expression(ln)
    return ('bare', e[1]) if isinstance(e, tuple) and e[0] == 'param' else ('ex', e)


def byte_item(ln):
    return ln.next() if ln.kind() == 'string' else expression(ln)


def instruction(ln):
    n = ln.next('name')
    return ('mi', n, [] if ln.done() else some(ln, argument))


DIRECTIVES = ('.byte', '.word', '.text', '.string', '.org', '.cnop', '.include')


def directive(ln):
    d = ln.next('name')
    if d == '.byte':
        return ('byte', some(ln, byte_item))
    if d == '.word':
        return ('word', some(ln, expression))
    if d == '.org':
        return ('org', ln.next('num'))
    if d in ('.text', '.string'):
        n = ln.next('num')
        return (d[1:], n, ln.next('string'))
    if d == '.cnop':
        a = expression(ln)
        ln.next(',')
        m = expression(ln)
        if not isinstance(a, int) or not isinstance(m, int):
            raise Reject('numbers expected')
        return ('cnop', a, m)
    kind = 'asm'
    if ln.kind() == 'name':
        kind = ln.next()
        if kind in ('icon', 'sprite'):
            n = ln.next('string')
            props = {}
            if not ln.done():
                for k, v in some(ln, prop):
                    if k in props:
                        raise Reject('property given twice')
                    props[k] = v
            return ('include', kind, n, checked(kind, props))
        if kind not in ('asm', 'bytes', 'cpp'):
            raise Reject('no such type of include')
    return ('include', kind, ln.next('string'))


def prop(ln):
    k = ln.next('name')
    ln.next('=')
    return k, byte_item(ln)


def checked(kind, props):
    if kind == 'icon':
        v = props.get('speed', 0)
        if isinstance(v, bytes):
            raise Reject('speed')
        v = model.evaluate(numbers_only(v), lambda n: None)
        if not 0 <= v <= 0xFFFF:
            raise Reject('speed')
        if not isinstance(props.get('eyecatch', b''), bytes):
            raise Reject('eyecatch')
    else:
        if props.get('type', b'simple') not in (b'simple', b'masked'):
            raise Reject('type of sprite')
        if props.get('header', b'yes') not in (b'yes', b'no'):
            raise Reject('header of sprite')
    if not set(props) <= ({'speed', 'eyecatch'} if kind == 'icon' else {'type', 'header'}):
        raise Reject('no such property')
    return props


def numbers_only(e):
    if has(e, ('param', 'plabel', 'bare')):
        raise Reject('parameter outside of a macro')
    return e


def statement(ln):
    """The statements of a line outside of macros."""
    out = []
    if ln.kind() == 'name' and ln.kind(1) == ':':
        out.append(('label', ln.next()))
        ln.next()
        if ln.done():
            return out
        if ln.kind() != 'name' or ln.is_name(*DIRECTIVES) or ln.t[ln.i].value.startswith('.'):
            raise Reject('no instruction after a label')
        out.append(instruction(ln))
        return out
    if ln.kind() != 'name':
        raise Reject('no statement')
    n = ln.t[ln.i].value
    if ln.kind(1) == '=' or ln.is_name('equ', k=1):
        if n in DIRECTIVES:
            raise Reject('directive')
        if n.startswith('.'):
            raise Unclear('constant with a local name')
        ln.next()
        style = ln.next()
        e = expression(ln)
        return [('const', n, e, style)]
    if n in DIRECTIVES:
        return [directive(ln)]
    if n.startswith('.'):
        ln.next()
        if ln.done():
            return [('label', n)]
        raise Reject('no such directive')
    return [instruction(ln)]


def body_statement(ln):
    out = []
    if ln.kind() in ('name', 'plabel') and ln.kind(1) == ':':
        out.append(('label' if ln.kind() == 'name' else 'plabel', ln.next()))
        ln.next()
        if ln.done():
            return out
    elif ln.kind() in ('name', 'plabel') and ln.t[ln.i].value.startswith('.') and len(ln.t) == 1:
        if ln.is_name(*DIRECTIVES):
            raise Unclear('a directive as a label')
        out.append(('label' if ln.kind() == 'name' else 'plabel', ln.next()))
        return out
    if ln.kind() != 'name' or ln.t[ln.i].value.startswith('.'):
        raise Reject('no instruction')
    out.append(instruction(ln))
    return out


class Front:
    """The statements of a program given by its files {name: text or bytes}."""

    def __init__(self, files, main='in.s', pictures=None):
        # pictures: {name: f(kind, properties)}, which gives the bytes or their number
        self.files = files
        self.pictures = pictures or {}
        self.loose = False
        self.macros = []
        self.includes = 0
        flat = []
        for base, tokens in self.lines(main, 0):
            flat.append((base, tokens))
        self.stmts = self.parse(flat)

    def find(self, base, name):
        if not name:
            raise Reject('no file')
        if name.startswith('/') or '..' in name:
            raise Unclear('path')
        for p in (posixpath.normpath(posixpath.join(base, name)), posixpath.normpath(name)):
            if p in self.files:
                return p
            if any(f.startswith(p + '/') for f in self.files):
                raise Reject('a directory')
        raise Reject('no such file')

    def define(self, tokens):
        if len(tokens) < 2 or tokens[0].kind != '#' or (tokens[1].kind, tokens[1].value) != ('name', 'define'):
            raise Unclear('line of a header')
        ln = Line(tokens)
        ln.i = 2
        ln.next('name')
        if ln.done():
            raise Unclear('macro of a header without a value')
        expression(ln)
        ln.end()
        return [tokens[2], Token('name', 'equ', 0, 0, tokens[2].first)] + tokens[3:]

    def lines(self, name, depth):
        if depth > 150:
            raise Reject('included too deeply')
        text = self.files[name]
        if isinstance(text, bytes):
            raise Unclear('binary file as source')
        base = posixpath.dirname(name)
        for tokens in split(lex(text)):
            if (tokens[0].kind == 'name' and tokens[0].value == '.include' and len(tokens) > 1 and tokens[1].kind != ':'):
                ln = Line(tokens)
                inc = directive(ln)
                ln.end()
                if inc[1] == 'asm':
                    self.includes += 1
                    yield from self.lines(self.find(base, self.path(inc[2])), depth + 1)
                    continue
                if inc[1] == 'cpp':
                    self.includes += 1
                    text = self.files[self.find(base, self.path(inc[2]))]
                    if isinstance(text, bytes):
                        raise Unclear('binary file as header')
                    for ts in split(lex(text, True)):
                        yield base, self.define(ts)
                    continue
            yield base, tokens

    def path(self, b):
        s = b.decode()
        if '\0' in s or s != s.strip() or s.endswith('/') or s in ('', '.'):
            raise Unclear('strange path')
        return s

    def parse(self, flat):
        out = []
        body = None
        seen = set()
        calls = []
        for base, tokens in flat:
            ln = Line(tokens)
            if body is not None:
                if ln.kind() == 'param' and ln.t[0].value == '%end':
                    ln.next()
                    ln.end()
                    body = None
                    continue
                body += body_statement(ln)
                ln.end()
            elif ln.kind() == 'param' and ln.t[0].value == '%macro':
                ln.next()
                n = ln.next('name')
                if n.startswith('.'):
                    raise Unclear('macro with a local name')
                params = [] if ln.done() else some(ln, argument)
                if any(p[0] != 'bare' for p in params):
                    raise Reject('parameter expected')
                if any(t.kind == '(' for t in ln.t):
                    raise Unclear('parameter in parentheses')
                if n in isa.BY_MNEMONIC:
                    raise Reject('macro named as an instruction')
                if (n, len(params)) in seen:
                    raise Reject('macro defined twice')
                seen.add((n, len(params)))
                body = []
                self.macros.append(macros.Macro(n, [p[1] for p in params], body))
            else:
                for st in statement(ln):
                    if st[0] == 'mi':
                        calls += [a for a in st[2] if has(a, ('bare', 'param', 'plabel'))]
                    if st[0] == 'include':
                        name = self.find(base, self.path(st[2]))
                        b = self.files[name]
                        if st[1] in ('icon', 'sprite'):
                            if name not in self.pictures:
                                raise Unclear('not a picture') if isinstance(b, bytes) else Reject('not a picture')
                            b = self.pictures[name](st[1], st[3])
                            if 'eyecatch' in st[3]:
                                e = self.find(base, self.path(st[3]['eyecatch']))
                                if e not in self.pictures:
                                    raise Unclear('eyecatch') if isinstance(self.files[e], bytes) else Reject('not a picture')
                                e = self.pictures[e]('eyecatch', {})
                                b = b + e if b and e else None
                            if b is None:
                                raise Reject('unsuitable picture')
                            if isinstance(b, int):
                                self.loose = True
                                b = bytes(b)
                        st = ('raw', b if isinstance(b, bytes) else b.encode())
                    out.append(st)
                ln.end()
        if body is not None:
            raise Reject('macro without end')
        self.private_args = bool(calls)
        return out

    def uncalled(self, x):
        called = {(st[1], len(st[2])) for m in [self] + self.macros for st in (m.stmts if m is self else m.body)
                  if st[0] == 'mi'}
        for m in self.macros:
            if (m.name, len(m.params)) not in called:
                own = set(m.params) | {st[1] for st in m.body if st[0] == 'plabel'}
                for st in m.body:
                    if st[0] == 'mi' and ((st[1], len(st[2])) not in x.macros and st[1] not in isa.BY_MNEMONIC or
                                          not private(st) <= own):
                        raise Unclear('macro that is never called')

    def image(self):
        """The bytes, or Reject or Unclear."""
        x = macros.Expander(self.macros)
        self.expander = x
        out = []
        for st in self.stmts:
            if st[0] != 'mi':
                if has(st, ('param', 'plabel')):
                    raise Reject('parameter outside of a macro')
                out.append(st)
            elif (st[1], len(st[2])) in x.macros:
                if any(has(a, ('bare', 'param', 'plabel')) for a in st[2]):
                    raise Unclear('argument that is a parameter, outside of a macro')
                out += x.call(st[1], st[2])
            elif st[1] in isa.BY_MNEMONIC:
                if any(has(a, ('bare', 'param', 'plabel')) for a in st[2]):
                    raise Reject('parameter outside of a macro')
                out.append(macros.instruction(st[1], st[2]))
            else:
                raise Reject('no such instruction or macro')
        self.flat = out
        self.uncalled(x)
        p = 0
        for st in out:
            if st[0] in ('text', 'string', 'cnop') and max(st[1], st[2] if st[0] == 'cnop' else 0) > 1 << 20:
                raise Unclear('a large image')
            p += model.stmt_size(st, p)
            if not 0 <= p <= 0xFFFF and any(k == 'a12' for s in out if s[0] == 'instr' for k in s[1].kinds):
                raise Unclear('12 bit target after 64K')
        return model.assemble(out)


def has(e, kinds):
    if isinstance(e, (tuple, list)):
        return bool(e) and e[0] in kinds or any(has(x, kinds) for x in e if isinstance(x, (tuple, list)))
    return False


def private(e):
    if not isinstance(e, (tuple, list)):
        return set()
    if e and e[0] in ('bare', 'param', 'plabel'):
        return {e[1]}
    return set().union(*[private(x) for x in e])
