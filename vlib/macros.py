"""Random programs with macros, and what they mean by hand expansion.

Body and caller statements besides those of vlib.model:
  ('call', name, [arg])         arg: ('imm', e) | ('ex', e) | ('ri', n) | ('bare', '%x')
  ('mi', mnemonic, [arg])       an instruction in a body
  ('plabel', 'x%')              a private label
Expressions in bodies: ('param', '%x'), ('plabel', 'x%')."""
from vlib import gen, isa, model, render

INF = 10 ** 9


class Macro:
    def __init__(self, name, params, body):
        self.name, self.params, self.body = name, params, body


def subst(e, args, labels):
    if isinstance(e, int) or e[0] == 'name':
        return e
    if e[0] == 'param':
        a = args.get(e[1].lower())
        if a is None or a[0] != 'ex':
            raise model.Reject('parameter %s is not an expression here' % e[1])
        return ('paren', a[1])
    if e[0] == 'plabel':
        if e[1].lower() not in labels:
            raise model.Reject('no private label %s' % e[1])
        return ('name', labels[e[1].lower()])
    return (e[0],) + tuple(subst(x, args, labels) for x in e[1:])


def subst_arg(a, args, labels):
    if a[0] in ('imm', 'ex'):
        return (a[0], subst(a[1], args, labels))
    if a[0] == 'bare':
        if a[1].lower() not in args:
            raise model.Reject('no parameter %s' % a[1])
        return args[a[1].lower()]
    return a


SHAPE = {'imm': '#', 'ex': 'e', 'ri': '@'}


def instruction(mnemonic, args):
    shape = ''.join(SHAPE[a[0]] for a in args)
    for f in isa.BY_MNEMONIC.get(mnemonic.lower(), ()):
        if ''.join({'i8': '#', 'ri': '@'}.get(k, 'e') for k in f.kinds) == shape:
            return ('instr', f, [a[1] for a in args])
    raise model.Reject('no such instruction')


class Expander:
    def __init__(self, macros):
        self.macros = {}
        for m in macros:
            key = (m.name.lower(), len(m.params))
            if key in self.macros:
                raise model.Reject('macro defined twice')
            if len({p.lower() for p in m.params}) != len(m.params):
                raise model.Reject('parameter named twice')
            self.macros[key] = m
        self.unique = 0
        self.expansions = 0
        self.depth = 0

    def call(self, name, args, depth=0):
        self.depth = max(self.depth, depth)
        if depth > 150:
            raise model.Reject('recursion')
        m = self.macros.get((name.lower(), len(args)))
        if m is None:
            raise model.Reject('no such macro')
        self.expansions += 1
        bound = {p.lower(): a for p, a in zip(m.params, args)}
        labels = {}
        for st in m.body:
            if st[0] == 'plabel':
                if st[1].lower() in labels:
                    raise model.Reject('private label defined twice')
                self.unique += 1
                labels[st[1].lower()] = '%s?%d' % (st[1].rstrip('%'), self.unique)
        out = []
        for st in m.body:
            if st[0] == 'plabel':
                out.append(('label', labels[st[1].lower()]))
            elif st[0] == 'label':
                out.append(st)
            else:
                new = [subst_arg(a, bound, labels) for a in st[2]]
                if (st[1].lower(), len(new)) in self.macros:
                    out += self.call(st[1], new, depth + 1)
                elif st[0] == 'call' and st[1].lower() not in isa.BY_MNEMONIC:
                    raise model.Reject('no such macro')
                else:
                    out.append(instruction(st[1], new))
        return out

    def program(self, stmts):
        out = []
        for st in stmts:
            if st[0] == 'call':
                out += self.call(st[1], [subst_arg(a, {}, {}) for a in st[2]])
            else:
                out.append(st)
        return out


def arg_text(a, s):
    if a[0] == 'imm':
        return '#' + s.opt() + render.expr(a[1], s)
    if a[0] == 'ex':
        return render.expr(a[1], s)
    if a[0] == 'ri':
        return s.word('@R%d' % a[1])
    return s.name(a[1])


def stmt_text(st, s):
    if st[0] in ('call', 'mi'):
        ops = render.comma(s).join(arg_text(a, s) for a in st[2])
        return s.name(st[1]) + (s.gap() + ops if ops else '')
    if st[0] == 'plabel':
        if st[1].startswith('.') and s.opt() == '' and s.parens() is False and len(st[1]) % 2:
            return s.name(st[1])
        return s.name(st[1]) + ':'
    if st[0] == 'label' and st[1].startswith('.') and s.parens() is False and len(st[1]) % 2 == 0:
        return s.name(st[1])
    return render.stmt(st, s)


def macro_text(m, s):
    nl = s.newline
    out = [s.lead() + s.word('%macro') + s.gap() + s.name(m.name) +
           (s.gap() + render.comma(s).join(s.name(p) for p in m.params) if m.params else '') + s.tail() + nl]
    k = 0
    while k < len(m.body):
        text = stmt_text(m.body[k], s)
        # an instruction may follow its label
        if (text.endswith(':') and k + 1 < len(m.body) and m.body[k + 1][0] in ('mi', 'call')
                and (len(text) + k) % 3 == 0):
            k += 1
            text += s.gap() + stmt_text(m.body[k], s)
        out.append(s.between() + s.lead() + text + s.tail() + nl)
        k += 1
    out.append(s.between() + s.lead() + s.word('%end') + s.tail() + nl)
    return ''.join(out)


def source(macros, stmts, s, rng):
    """Definitions and statements, with the definitions anywhere."""
    lines = [s.between() + s.lead() + stmt_text(st, s) + s.tail() + s.newline for st in stmts]
    k = rng.randrange(3)
    for m in macros:
        t = macro_text(m, s)
        lines.insert(0 if k == 0 else len(lines) if k == 1 else rng.randrange(len(lines) + 1), t)
    return ''.join(lines)


PNAMES = ['%x', '%y', '%val', '%b1', '%arg_2', '%e', '%A', '%lab', '%r0']
# A parameter is used as one of: a small number, an address, an immediate, a register, a label
TYPES = ['num', 'num', 'num', 'imm', 'ri', 'lab']


def number_expr(rng, params, depth=2):
    """A small number in terms of number parameters, kept in 0..255 by masking."""
    def tree(d):
        if d == 0 or rng.random() < 0.3:
            if params and rng.random() < 0.7:
                return ('param', rng.choice(params))
            return rng.randrange(40)
        k = rng.random()
        if k < 0.15:
            return (rng.choice(['neg', 'hi', 'lo']), tree(d - 1))
        return (rng.choice('+-*&|^+-*'), tree(d - 1), tree(d - 1))
    e = tree(depth)
    return rng.choice([('&', e, 255), ('lo', e)]) if rng.random() < 0.9 else e


def loose_arg(rng, names, depth=2):
    """An argument with operators that bind loosely."""
    def tree(d):
        if d == 0 or rng.random() < 0.25:
            if names and rng.random() < 0.4:
                return ('name', rng.choice(names))
            return rng.randrange(60)
        if rng.random() < 0.1:
            return ('neg', tree(d - 1))
        return (rng.choice('+-|&^*'), tree(d - 1), tree(d - 1))
    return tree(depth)


IMM8 = ['add', 'addc', 'sub', 'subc', 'and', 'or', 'xor']
D9 = ['add', 'sub', 'and', 'ld', 'st', 'push', 'pop', 'inc', 'dec', 'xch', 'xor']
RI = ['add', 'ld', 'st', 'inc', 'dec', 'xch', 'sub', 'or']
NOARG = ['nop', 'mul', 'div', 'rol', 'ror', 'ret', 'ldc']


def make_macro(rng, name, types, lower, glob_private, names):
    """A macro whose parameters have the given types; lower: [(name, types)]
    of macros that it may call."""
    pool = rng.sample(PNAMES, len(PNAMES))
    params, seen = [], set()
    for p in pool:
        if p.lower() not in seen and len(params) < len(types):
            params.append(p)
            seen.add(p.lower())
    by = {t: [p for p, x in zip(params, types) if x == t] for t in ('num', 'imm', 'ri', 'lab')}
    labels = rng.sample(['loop%', 'a%', 'x%'] if glob_private else ['.loop%', '.a%', '.x%', '.no_carry%'],
                        rng.choice([0, 1, 2]))
    body = []

    def label_expr():
        c = [('plabel', l) for l in labels] + [('param', p) for p in by['lab']]
        return rng.choice(c) if c else None

    for _ in range(rng.choice([1, 2, 4, 7])):
        k = rng.randrange(9)
        le = label_expr()
        if k == 0 and lower:
            n, ts = rng.choice(lower)
            args = []
            for t in ts:
                if by[t] and rng.random() < 0.6:
                    args.append(('bare', rng.choice(by[t])))
                elif t == 'num':
                    args.append(('ex', number_expr(rng, by['num']) if rng.random() < 0.6 else loose_arg(rng, names)))
                elif t == 'imm':
                    args.append(('imm', number_expr(rng, by['num'])))
                elif t == 'ri':
                    args.append(('ri', rng.randrange(4)))
                elif le:
                    args.append(('ex', le))
                else:
                    args.append(('ex', ('name', names[0])) if names else ('ex', 5))
            body.append(('mi', n, args))
        elif k == 1 and le:
            body.append(('mi', rng.choice(['br', 'bz', 'bnz']), [('ex', le)]))
        elif k == 2 and le:
            body.append(rng.choice([
                ('mi', 'mov', [('imm', ('lo', le)), ('ex', rng.randrange(512))]),
                ('mi', 'mov', [('imm', ('hi', le)), ('ex', rng.randrange(512))]),
                ('mi', rng.choice(['jmpf', 'callf']), [('ex', ('+', le, rng.randrange(3)))]),
                ('mi', rng.choice(['bn', 'bp']), [('ex', rng.randrange(512)), ('ex', rng.randrange(8)), ('ex', le)]),
                ('mi', 'dbnz', [('ri', rng.randrange(4)), ('ex', le)])]))
        elif k == 3 and by['imm']:
            body.append(('mi', rng.choice(IMM8), [('bare', rng.choice(by['imm']))]) if rng.random() < 0.6 else
                        ('mi', 'mov', [('bare', rng.choice(by['imm'])), ('ex', ('&', number_expr(rng, by['num']), 255))]))
        elif k == 4 and by['ri']:
            body.append(('mi', rng.choice(RI), [('bare', rng.choice(by['ri']))]) if rng.random() < 0.6 else
                        ('mi', 'mov', [('imm', number_expr(rng, by['num'])), ('bare', rng.choice(by['ri']))]))
        elif k in (5, 6):
            body.append(('mi', rng.choice(IMM8), [('imm', number_expr(rng, by['num']))]))
        elif k == 7:
            body.append(('mi', rng.choice(D9), [('ex', number_expr(rng, by['num']))]))
        else:
            body.append(('mi', rng.choice(NOARG), []))
    for l in labels:
        body.insert(rng.randrange(len(body) + 1), ('plabel', l))
    if rng.random() < 0.1:
        # labels that are not private
        l = rng.choice(['.plain', '.Plain2', 'outer_%s' % name.strip('.')])
        k = rng.randrange(len(body) + 1)
        body[k:k] = [('label', l)] + [('mi', 'br', [('ex', ('name', l))])] * rng.randrange(2)
    return Macro(name, params, body)


def random_program(rng):
    """(macros, caller statements)"""
    glob_private = rng.random() < 0.3
    used = set()
    consts = [(gen.name(rng, used), rng.randrange(200)) for _ in range(rng.randrange(3))]
    # Names of the caller that look like private ones
    glabels = [n for n in rng.sample(['loop', 'a', 'x', 'start', 'x_1'], rng.randrange(0, 4)) if n not in used]
    used |= set(glabels)
    names = [n for n, _ in consts] + glabels
    macros, sigs = [], []
    for _ in range(rng.choice([1, 2, 3, 5])):
        n = rng.choice([s[0] for s in sigs]) if sigs and rng.random() < 0.4 else gen.name(rng, used)
        types = [rng.choice(TYPES) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
        if any(s[0] == n and len(s[1]) == len(types) for s in sigs):
            continue
        macros.append(make_macro(rng, n, types, list(sigs), glob_private, names))
        sigs.append((n, types))
    stmts = [('const', n, v, rng.choice(['=', 'equ'])) for n, v in consts]
    local = set()
    pending = list(glabels)
    for _ in range(rng.choice([2, 5, 10])):
        k = rng.randrange(6)
        if k == 0 and pending:
            stmts.append(('label', pending.pop()))
            local = set()
        elif k == 1 and not glob_private:
            l = rng.choice(['.loop', '.a', '.x'])
            if l not in local:
                local.add(l)
                stmts.append(('label', l))
                stmts.append(('instr', isa.BY_MNEMONIC['br'][0], [('name', l)]))
        elif k == 2:
            stmts.append(('instr', isa.BY_MNEMONIC['nop'][0], []))
        else:
            n, types = rng.choice(sigs)
            args = []
            for t in types:
                if t == 'num':
                    args.append(('ex', loose_arg(rng, names)))
                elif t == 'imm':
                    args.append(('imm', ('&', loose_arg(rng, names), 255)))
                elif t == 'ri':
                    args.append(('ri', rng.randrange(4)))
                else:
                    args.append(('ex', ('name', rng.choice(glabels)) if glabels else rng.randrange(100)))
            stmts.append(('call', n, args))
    for n in pending:
        stmts.append(('label', n))
    return macros, stmts
