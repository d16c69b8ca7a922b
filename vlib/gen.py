"""Random programs, expressions and operand values."""
from vlib import isa, model

_SYL = ['foo', 'bar', 'lab', 'x', 'y1', 'loop', 'tmp_', 'a.b', 'v$', 'qux', 'main', 'z9', 'data', '_u', 'end', 'psw',
        'acc', 'sp', 'ext', 'r0', 'e', 'b1', 'x0f', 'o7']
_RESERVED = set(isa.MNEMONICS) | {'equ', 'asm', 'bytes', 'cpp', 'icon', 'sprite'}


def name(rng, used, local=False):
    """A name that isn't in used (lower-case names)."""
    while True:
        n = rng.choice(_SYL) + rng.choice(['', '', rng.choice(_SYL), '_%d' % rng.randrange(1000), '%d' % rng.randrange(50),
                                           '.q', '$'])
        if local:
            n = '.' + n
        if n.lower() in used or n.lower() in _RESERVED:
            continue
        if local and n.lower() in ('.byte', '.word', '.org', '.text', '.string', '.include', '.cnop'):
            continue
        used.add(n.lower())
        return n


_CHARS = ' !#$%&\'()*+,-./0123456789:;<=>?@ABCXYZ[]^_`abcnrtxyz{|}~"\\\n\r\t\b\0éßλ漢✓😀'
# Characters that stand for themselves although they aren't printable
_CONTROLS = '\x01\x02\x06\x07\x0b\x0c\x0e\x1a\x1b\x1f\x7f\x80\x85\xa0\u0301\u200b\u200d\u2028\ufeff\ufffd'


def text(rng, maximum=24):
    """UTF-8 bytes for a string literal."""
    mode = rng.randrange(5)
    n = rng.choice([0, 1, 2, rng.randrange(maximum + 1), rng.randrange(maximum + 1)])
    if mode == 0:
        chars = '"\\\n\r\t\b\0nrtb0; *'
    elif mode == 1:
        chars = 'abc ABC;:#'
    elif mode == 2:
        chars = _CONTROLS + 'a \n"'
    else:
        chars = _CHARS
    return ''.join(rng.choice(chars) for _ in range(n)).encode('utf-8')[:]


def boundary(rng, lo, hi):
    """A value of lo..hi, often near the ends or near a power of two."""
    if hi - lo < 1:
        return lo
    k = rng.randrange(6)
    if k == 0:
        return rng.choice([lo, hi])
    if k == 1:
        return min(hi, lo + rng.randrange(3))
    if k == 2:
        return max(lo, hi - rng.randrange(3))
    if k == 3:
        v = (1 << rng.randrange(17)) + rng.choice([-1, 0, 1])
        if lo <= v <= hi:
            return v
    return rng.randint(lo, hi)


def literal(v):
    """A literal expression for any 32-bit value."""
    if v >= 0:
        return v
    if v == model.INT_MIN:
        return ('-', ('neg', model.INT_MAX), 1)
    return ('neg', -v)


def expr_for(rng, v, names, depth=2):
    """An expression whose value is v; names: list of (name, value)."""
    k = rng.randrange(9) if depth > 0 else rng.randrange(2)
    if k == 0 and names:
        n, nv = rng.choice(names)
        d = v - nv
        if d == 0:
            return ('name', n)
        if depth > 0 and -(1 << 30) < d < 1 << 30:
            if d > 0:
                return ('+', ('name', n), expr_for(rng, d, names, depth - 1))
            return ('-', ('name', n), expr_for(rng, -d, names, depth - 1))
    if k <= 2:
        return literal(v)
    sub = lambda x: expr_for(rng, x, names, depth - 1)  # noqa: E731
    if k == 3:
        d = rng.randint(-300, 300)
        if abs(v - d) < 1 << 30:
            return ('+', sub(v - d), sub(d))
    if k == 4:
        d = rng.randint(-300, 70000)
        if abs(v + d) < 1 << 30:
            return ('-', sub(v + d), sub(d))
    if k == 5 and 0 <= v <= 255:
        other = rng.randrange(1 << rng.randrange(1, 15))
        if rng.random() < 0.5:
            return ('lo', sub(other << 8 | v))
        return ('hi', sub(v << 8 | other & 0xFF))
    if k == 6:
        if v == 0:
            return ('*', sub(0), sub(rng.randrange(-50, 50)))
        for d in rng.sample(range(2, 40), 8):
            if v % d == 0:
                return ('*', sub(v // d), sub(d)) if rng.random() < 0.5 else ('*', sub(d), sub(v // d))
    if k == 7 and 0 <= v < 1 << 20:
        d = rng.randrange(1, 30)
        return ('/', sub(v * d + rng.randrange(d)), sub(d))
    if k == 8 and v >= 0:
        m = rng.randrange(1 << 16)
        op = rng.choice('&|^')
        if op == '^':
            return ('^', sub(v ^ m), sub(m))
        if op == '|':
            return ('|', sub(v & m), sub(v & ~m | v & rng.randrange(1 << 16)))
        return ('&', sub(v | m), sub(v | ~m & 0xFFFF & rng.randrange(1 << 16)))
    return literal(v)


def random_expr(rng, depth, names, big=False):
    """Any expression tree."""
    k = rng.random()
    if depth <= 0 or k < 0.12:
        if names and rng.random() < 0.35:
            return ('name', rng.choice(names)[0])
        m = rng.randrange(8)
        if m == 0:
            return rng.choice([0, 1, 2, 3, 255, 256, 127, 128, 65535, 65536, 32767, 32768])
        if m == 1 and big:
            return rng.choice([model.INT_MAX, model.INT_MAX - 1, 1 << 30, 46341, 46340])
        if m < 6:
            return rng.randrange(1 << rng.choice([2, 4, 8, 12]))
        return rng.randrange(1 << rng.choice([16, 20, 24]))
    if k < 0.3:
        return (rng.choice(['neg', 'hi', 'lo', 'neg']), random_expr(rng, depth - 1, names, big))
    op = rng.choice('++--**//&|^')
    return (op, random_expr(rng, depth - 1, names, big), random_expr(rng, depth - 1, names, big))


def nodes(e):
    if isinstance(e, int) or e[0] in ('name', 'text'):
        return 1
    return 1 + sum(nodes(x) for x in e[1:])


def legal_values(rng, form, pos, targets=()):
    """Legal operand values of an instruction at pos, or None; targets are
    addresses that branches should prefer."""
    nxt = pos + form.size
    out = []
    for k in form.kinds:
        if k in ('i8', 'd9', 'b3', 'ri'):
            out.append(boundary(rng, 0, (1 << isa.WIDTH[k]) - 1))
            continue
        near = [t for t in targets if isa.to_field(k, t, nxt) is not None]
        if near and rng.random() < 0.85:
            out.append(rng.choice(near))
            continue
        if k == 'a16':
            lo, hi = 0, 0xFFFF
        elif k == 'a12':
            if nxt > 0xFFFF:
                return None
            lo, hi = nxt & 0xF000, nxt | 0xFFF
        elif k == 'r8':
            lo, hi = max(0, nxt - 128), min(0xFFFF, nxt + 127)
        else:
            lo, hi = max(0, nxt - 1 - 32768), min(0xFFFF, nxt - 1 + 32767)
        if lo > hi:
            return None
        out.append(boundary(rng, lo, hi))
    return out


class Program:
    """A random legal program whose image the model knows.

    options: dict of statement kind -> weight."""

    DEFAULT = {'instr': 10, 'byte': 2, 'word': 1.5, 'text': 0.7, 'string': 0.7, 'org': 0.4, 'cnop': 0.4, 'label': 3,
               'local': 1.5, 'const': 1}

    def __init__(self, rng, size=25, weights=None, start=None, depth=2, max_end=0xFFFF, back=True, plain=False):
        self.rng = rng
        w = dict(self.DEFAULT)
        w.update(weights or {})
        kinds, ws = zip(*w.items())
        used, local_used = set(), set()
        self.used = used
        skel = []
        pos = 0
        if start:
            skel.append(('org', start))
            pos = start
        for _ in range(size):
            k = rng.choices(kinds, ws)[0]
            if k == 'instr':
                st = ('instr', rng.choice(isa.FORMS), None)
            elif k == 'byte':
                st = ('byte', [text(rng, 12) if rng.random() < 0.25 else None for _ in range(rng.choice([1, 1, 2, 3, 8]))])
            elif k == 'word':
                st = ('word', [None] * rng.choice([1, 1, 2, 4]))
            elif k in ('text', 'string'):
                t = text(rng)
                st = (k, len(t) + rng.choice([0, 0, 1, rng.randrange(40)]), t)
            elif k == 'org':
                lo = 0 if back and rng.random() < 0.2 else pos
                hi = min(max_end - 64, pos + rng.choice([3, 40, 300, 3000]))
                if lo > hi:
                    continue
                st = ('org', rng.randint(lo, hi))
            elif k == 'cnop':
                a = rng.choice([0, 0, 0, 1, 3, rng.randrange(64)])
                m = rng.choice([1, 2, 4, 8, 16, 64, 128, 512, 3, 7, 100, rng.randrange(1, 600)])
                st = ('cnop', a, m)
            elif k == 'label':
                st = ('label', name(rng, used))
                local_used = set()
            elif k == 'local':
                st = ('label', name(rng, local_used, True))
            else:
                st = ('const', name(rng, used), None, rng.choice(['=', 'equ']))
            n = model.stmt_size(st, pos)
            if not 0 <= pos + n <= max_end - 64:
                continue
            pos += n
            skel.append(st)
        self.layout = lay = model.Layout(skel)
        # Fill in values now that every label has a position
        labels = [(n, p) for n, p in lay.labels.items()]
        consts = []
        values = {}
        for i, st in enumerate(skel):
            if st[0] == 'const':
                v = rng.choice([rng.randrange(256), rng.randrange(512), boundary(rng, -1000, 70000)])
                e = expr_for(rng, v, labels + consts, 0 if plain else depth)
                skel[i] = ('const', st[1], e, st[3])
                consts.append((st[1], v))
                values[st[1].lower()] = v
        globs = labels + consts
        self.stmts = []
        for i, st in enumerate(skel):
            names = globs + [(n, p) for n, p in lay.locals[lay.scope[i]].items()]
            pos = lay.pos[i]
            d = 0 if plain else rng.randrange(depth + 1)
            if st[0] == 'instr':
                vals = legal_values(rng, st[1], pos, [p for _, p in names if p <= 0xFFFF])
                if vals is None:
                    # keeps the layout: data of the same size
                    st = ('byte', [0] * st[1].size)
                else:
                    ops = []
                    for kind, v in zip(st[1].kinds, vals):
                        exact = [n for n, p in names if p == v]
                        if kind == 'ri':
                            ops.append(v)
                        elif exact and kind in isa.TARGET_KINDS and rng.random() < 0.8:
                            ops.append(('name', rng.choice(exact)))
                        else:
                            ops.append(expr_for(rng, v, names, d))
                    st = ('instr', st[1], ops)
            elif st[0] == 'byte':
                st = ('byte', [x if x is not None else
                               expr_for(rng, boundary(rng, -128, 255), names, d) for x in st[1]])
            elif st[0] == 'word':
                st = ('word', [expr_for(rng, boundary(rng, -32768, 65535), names, d) for x in st[1]])
            self.stmts.append(st)
        self.globals = globs
        self.image = model.assemble(self.stmts, lay)
