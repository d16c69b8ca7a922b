"""C05: expressions evaluate to their mathematical value under 32-bit signed
arithmetic, or are rejected."""
from vlib import core, gen, isa, model, pictures, project, render, scatter
from vlib.common import expect_image, expect_reject

TECHNIQUE = 'runtime differential monitoring against a reference evaluator'
LEVEL_NOTE = 'Random expression trees to depth ~6 and deep chains, over all operators; sampled.'
RULE = ('value: programs with a batch of random expression trees over all operators, whose 32-bit value V is shown by '
        '.word (E)-(V) and by its bytes; bare: unparenthesised expressions directly as operands; elsewhere: expressions in C '
        'headers, as the speed of an icon, and in operands and arguments of statements spread over files and macros; error: trees that '
        'divide by zero or overflow. Distinct: expressions with at least two operators.')
ASSUMPTIONS = ['Division truncates towards zero; precedence bitwise < sum < product < prefix, all left-associative '
               '(README and the parser tests).']


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    return [('value', 1200 * n), ('bare', 800 * n), ('elsewhere', 700 * n), ('error', 2500 * n), ('constant', 500 * n), ('deep', 60 * n)]


def ev(e, names):
    return model.evaluate(e, lambda n: names.get(n.lower()))


def names_for(rng):
    used = set()
    out = []
    for _ in range(rng.randrange(5)):
        out.append((gen.name(rng, used), rng.choice([0, 1, 5, 255, 256, 65535, -1, -7, rng.randrange(1 << 20),
                                                     -rng.randrange(1 << 20), model.INT_MAX, model.INT_MIN])))
    return out


def consts(names, rng):
    return [('const', n, gen.literal(v), rng.choice(['=', 'equ'])) for n, v in names]


def explicit(e):
    """With parentheses around every operation, as C understands it too."""
    if isinstance(e, int) or e[0] == 'name':
        return e
    return (e[0],) + tuple(x if isinstance(x, int) or x[0] == 'name' else ('paren', explicit(x)) for x in e[1:])


def no_bytes(e):
    return isinstance(e, int) or e[0] == 'name' or (e[0] not in ('hi', 'lo') and all(no_bytes(x) for x in e[1:]))


def header(ctx, rng, names, table):
    """Macros of a C header; they join the names."""
    out, lines, known = [], [], []
    used = set(table)
    for _ in range(rng.randrange(1, 9)):
        e = gen.random_expr(rng, rng.choice([1, 2, 3, 4]), known, big=rng.random() < 0.3)
        try:
            v = ev(e, dict((n.lower(), x) for n, x in known))
        except model.Reject:
            continue
        n = gen.name(rng, used).replace('.', '_').replace('$', 'S')
        if n.lower() in table or not no_bytes(e) or n.lower() in gen._RESERVED:
            continue
        used.add(n.lower())
        table[n.lower()] = v
        known.append((n, v))
        lines.append('#define %s %s' % (n, render.expr(('paren', explicit(e)), render.Plain())))
        out.append(('const', n, e, '='))
        ctx.case('header ' + repr(e), gen.nodes(e) > 3)
        ctx.counters['macros of C headers'] += 1
    names += known
    ctx.write('values.h', '\n'.join(lines) + '\n')
    # the include is written once, in place of the first of them
    return [st + (' .include cpp "values.h"' if k == 0 else '; ',) for k, st in enumerate(out)]


def speed(ctx, rng):
    """The speed of an icon is an expression of literals."""
    while True:
        e = gen.random_expr(rng, rng.choice([2, 3, 4]), [])
        try:
            v = ev(e, {})
        except model.Reject:
            continue
        if 0 <= v <= 65535:
            break
    i = project.icon(rng)
    ctx.write('icon' + i.ext, i.data)
    text = '.include icon "icon%s" speed%s%s\n' % (i.ext, rng.choice(['=', ' = ']), render.expr(e, render.Plain()))
    ctx.case('speed ' + text, gen.nodes(e) > 3)
    data, r = ctx.assemble_text(text)
    if data is None:
        raise core.Violation('icon with a legal speed rejected', result=r.describe(), program=text)
    problem = pictures.check_icon(data, i, v, None)
    if problem:
        raise core.Violation('speed of an icon: %s' % problem, program=text)
    ctx.counters['speeds of icons'] += 1


def run_case(ctx, kind, i, rng):
    names = names_for(rng)
    table = {n.lower(): v for n, v in names}
    pre = consts(names, rng)
    if kind in ('value', 'constant'):
        stmts, shown = list(pre), []
        for n in range(12):
            e = gen.random_expr(rng, rng.choice([1, 2, 3, 4, 5]), names, big=rng.random() < 0.3)
            try:
                v = ev(e, table)
            except model.Reject:
                continue
            ctx.case(repr(e), gen.nodes(e) > 3)
            ctx.counters['operators'] += gen.nodes(e)
            if kind == 'constant':
                stmts.append(('const', 'k%d' % n, e, rng.choice(['=', 'equ'])))
                e = ('name', 'K%d' % n)
            shown.append((e, v))
            stmts.append(('word', [('-', ('paren', e), ('paren', gen.literal(v)))]))
            stmts.append(('byte', [('lo', ('paren', e)), ('hi', ('paren', e))]))
            if -32768 <= v <= 65535:
                stmts.append(('word', [e]))
                ctx.counters['values shown directly'] += 1
        src = render.program(stmts, render.Random(rng, rng.choice([0.1, 0.6])))
        ctx.write('in.s', src)
        expect_image(ctx, 'in.s', model.assemble(stmts), 'expressions')
        ctx.sample({'source': src[:600]})
    elif kind == 'elsewhere' and rng.random() < 0.2:
        speed(ctx, rng)
    elif kind in ('bare', 'elsewhere'):
        stmts = list(pre)
        if kind == 'elsewhere':
            stmts = header(ctx, rng, names, table) + stmts
        end = len(stmts) + 20
        while len(stmts) < end:
            e = gen.random_expr(rng, rng.choice([2, 3, 4]), names)
            try:
                v = ev(e, table)
            except model.Reject:
                continue
            if not -32768 <= v <= 65535:
                op = rng.choice(['lo', 'hi', '&'])
                e = ('&', e, rng.choice([255, 65535])) if op == '&' else (op, e)
                v = ev(e, table)
            if 0 <= v <= 255 and rng.random() < 0.5:
                f = rng.choice([f for f in isa.FORMS if f.kinds and all(k in ('i8', 'd9') for k in f.kinds)])
                stmts.append(('instr', f, [e] * len(f.kinds)))
            else:
                stmts.append(('word', [e]))
            ctx.case(repr(e), gen.nodes(e) > 3)
        if kind == 'elsewhere':
            # the model takes the constants of the header as ordinary ones
            image = model.assemble([st[:-1] if len(st) == 5 else st for st in stmts])
            scatter.write(ctx, rng, [('none', st[-1]) if len(st) == 5 else st for st in stmts], share=rng.choice([0.2, 0.5]))
        else:
            image = model.assemble(stmts)
            ctx.write('in.s', render.program(stmts, render.Random(rng, rng.choice([0.1, 0.6]))))
        expect_image(ctx, 'in.s', image, 'bare expressions' if kind == 'bare' else 'expressions elsewhere')
    elif kind == 'error':
        for _ in range(200):
            e = gen.random_expr(rng, rng.choice([1, 2, 3, 4]), names, big=True)
            if rng.random() < 0.4:
                z = ('-', e, e) if rng.random() < 0.5 else ('*', 0, e)
                e = ('/', gen.random_expr(rng, 2, names), z)
            try:
                ev(e, table)
            except model.Reject as r:
                why = r.why
                break
        else:
            return
        # show only the low byte: a wrapped value must not slip through
        st = rng.choice([('byte', [('lo', ('paren', e))]), ('word', [('&', ('paren', e), 65535)]),
                         ('const', 'unused', e, '='), ('instr', isa.BY_MNEMONIC['ld'][0], [('lo', ('paren', e))])])
        ctx.write('in.s', render.program(pre + [st], render.Random(rng, 0.3)))
        ctx.case(repr(e))
        ctx.counters[why] += 1
        expect_reject(ctx, 'in.s', 'expression with %s' % why)
    else:
        # long chains and deep nesting
        n = rng.choice([20, 60, 100, 120])
        k = rng.randrange(4)
        e = rng.randrange(100)
        for _ in range(n):
            d = rng.randrange(100)
            if k == 0:
                e = (rng.choice('+-'), e, d)
            elif k == 1:
                e = (rng.choice('+-'), d, e)
            elif k == 2:
                e = ('neg', e) if rng.random() < 0.6 else ('paren', e)
            else:
                e = (rng.choice('+-&|^'), e, d) if rng.random() < 0.5 else (rng.choice('+-&|^'), d, e)
        v = ev(e, table)
        stmts = pre + [('word', [('-', ('paren', e), ('paren', gen.literal(v)))])]
        ctx.write('in.s', render.program(stmts, render.Plain()))
        ctx.case(repr(e))
        expect_image(ctx, 'in.s', model.assemble(stmts), 'deep expression')
