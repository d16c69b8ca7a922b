"""A reference assembler over a small syntax tree: what a program means,
written from the documentation and independent of the code under test.

Expressions: int | ('name', s) | (op, l, r) with op in + - * / & | ^ |
('neg', e) | ('hi', e) | ('lo', e) | ('paren', e)

Statements (tuples, first item is the kind):
  ('label', name)             global, or local when it starts with '.'
  ('instr', form, [operand])  operand: expression (register number for ri)
  ('byte', [expr | bytes])    ('word', [expr])
  ('text', size, bytes)       ('string', size, bytes)
  ('org', n)                  ('cnop', a, m)
  ('const', name, expr, '=' | 'equ')
  ('raw', bytes, source_line) something that contributes bytes
  ('none', source_line)       something that contributes nothing
"""

INT_MIN, INT_MAX = -(1 << 31), (1 << 31) - 1


class Reject(Exception):
    """The program must be rejected."""

    def __init__(self, why, index=None):
        super().__init__(why)
        self.why, self.index = why, index


def _check(v):
    if not INT_MIN <= v <= INT_MAX:
        raise Reject('overflow')
    return v


def evaluate(e, lookup):
    """32-bit signed arithmetic; lookup(name) gives a value or None."""
    if isinstance(e, int):
        return e
    op = e[0]
    if op == 'name':
        v = lookup(e[1])
        if v is None:
            raise Reject('unknown name %s' % e[1])
        return v
    if op == 'paren':
        return evaluate(e[1], lookup)
    if op == 'neg':
        return _check(-evaluate(e[1], lookup))
    if op == 'hi':
        return evaluate(e[1], lookup) >> 8 & 0xFF
    if op == 'lo':
        return evaluate(e[1], lookup) & 0xFF
    l, r = evaluate(e[1], lookup), evaluate(e[2], lookup)
    if op == '+':
        return _check(l + r)
    if op == '-':
        return _check(l - r)
    if op == '*':
        return _check(l * r)
    if op == '/':
        if r == 0:
            raise Reject('division by zero')
        q = abs(l) // abs(r)
        return _check(q if (l < 0) == (r < 0) else -q)
    if op == '&':
        return l & r
    if op == '|':
        return l | r
    if op == '^':
        return l ^ r
    raise AssertionError(op)


def stmt_size(st, pos):
    k = st[0]
    if k == 'instr':
        return st[1].size
    if k == 'byte':
        return sum(len(x) if isinstance(x, bytes) else 1 for x in st[1])
    if k == 'word':
        return 2 * len(st[1])
    if k in ('text', 'string'):
        return st[1]
    if k == 'org':
        return st[1] - pos
    if k == 'cnop':
        a, m = st[1], st[2]
        return a - pos if m == 0 else (pos + m - 1) // m * m + a - pos
    if k == 'raw':
        return len(st[1])
    return 0


class Layout:
    """Positions, scopes and final size of a program."""

    def __init__(self, stmts):
        self.pos = []
        self.labels = {}            # lower-case global label -> position
        self.locals = [{}]          # one scope per global label
        self.scope = []             # scope index of every statement
        p = end = 0
        for i, st in enumerate(stmts):
            self.pos.append(p)
            if st[0] == 'label':
                n = st[1].lower()
                if n.startswith('.'):
                    if n in self.locals[-1]:
                        raise Reject('duplicate label', i)
                    self.locals[-1][n] = p
                else:
                    if n in self.labels:
                        raise Reject('duplicate label', i)
                    self.labels[n] = p
                    self.locals.append({})
            self.scope.append(len(self.locals) - 1)
            p += stmt_size(st, p)
            end = max(end, p)
        self.end = end


def assemble(stmts, layout=None):
    """The bytes of the image, or Reject."""
    lay = layout or Layout(stmts)
    globs = dict(lay.labels)
    for i, st in enumerate(stmts):
        if st[0] == 'const':
            n = st[1].lower()
            try:
                v = evaluate(st[2], lambda x: globs.get(x.lower()) if not x.startswith('.') else None)
            except Reject as e:
                raise Reject(e.why, i)
            if n in globs:
                raise Reject('duplicate name', i)
            globs[n] = v
    out = bytearray(lay.end)
    for i, st in enumerate(stmts):
        k, p = st[0], lay.pos[i]

        def lookup(x):
            x = x.lower()
            return lay.locals[lay.scope[i]].get(x) if x.startswith('.') else globs.get(x)

        try:
            if k == 'instr':
                vals = [v if kind == 'ri' else evaluate(v, lookup) for kind, v in zip(st[1].kinds, st[2])]
                code = st[1].encode(vals, p)
                if code is None:
                    raise Reject('operand out of range')
            elif k == 'byte':
                code = bytearray()
                for x in st[1]:
                    if isinstance(x, bytes):
                        code += x
                    else:
                        v = evaluate(x, lookup)
                        if not -128 <= v <= 255:
                            raise Reject('byte out of range')
                        code.append(v & 0xFF)
            elif k == 'word':
                code = bytearray()
                for x in st[1]:
                    v = evaluate(x, lookup)
                    if not -32768 <= v <= 65535:
                        raise Reject('word out of range')
                    code += bytes((v & 0xFF, v >> 8 & 0xFF))
            elif k in ('text', 'string'):
                if len(st[2]) > st[1]:
                    raise Reject('text too long')
                code = st[2].ljust(st[1], b' ' if k == 'text' else b'\0')
            elif k == 'org':
                if st[1] > 0xFFFF:
                    raise Reject('origin out of range')
                code = b''
            elif k == 'raw':
                code = st[1]
            else:
                code = b''
        except Reject as e:
            raise Reject(e.why, i)
        out[p:p + len(code)] = code
    return bytes(out)
