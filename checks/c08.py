"""C08: macro calls mean the same as their hand-expanded bodies."""
from vlib import core, gen, large, macros, model, render
from vlib.common import expect_image, expect_reject

TECHNIQUE = 'runtime differential monitoring against a reference macro expander'
LEVEL_NOTE = 'Random macro sets with nesting, overloading, private labels and hostile argument expressions; sampled.'
RULE = ('program: random macros (parameters used as numbers, immediates, registers, labels; private labels; nested '
        'calls; overloading by arity) called with loosely binding arguments from callers whose names look like the '
        'private ones; the reference expander gives the image or a rejection; hand: the expansion written out by hand '
        'assembles to the same bytes; misuse: calls and definitions that must be rejected. Distinct: source texts.')


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    return [('program', 4000 * n), ('hand', 700 * n), ('misuse', 1200 * n), ('nest', 150 * n), ('many', 2 * n), ('large', 150 * n)]


def run_case(ctx, kind, i, rng):
    if kind == 'program':
        ms, stmts = macros.random_program(rng)
        order = rng.sample(ms, len(ms))
        src = macros.source(order, stmts, render.Random(rng, rng.choice([0, 0.3, 0.6])), rng)
        ctx.write('in.s', src)
        x = macros.Expander(ms)
        try:
            image = model.assemble(x.program(stmts))
        except model.Reject as r:
            ctx.counters['rejected'] += 1
            ctx.case(src, False)
            expect_reject(ctx, 'in.s', 'program with macros (%s)' % r.why)
            return
        ctx.case(src, x.expansions > 0)
        ctx.counters['expansions'] += x.expansions
        ctx.counters['private labels'] += x.unique
        ctx.counters['deepest nesting %d' % min(x.depth, 9)] += 1
        expect_image(ctx, 'in.s', image, 'macros')
        if x.unique > 1:
            ctx.sample({'source': src[:900]})
    elif kind == 'hand':
        ms, stmts = macros.random_program(rng)
        x = macros.Expander(ms)
        try:
            flat = [tuple(y.replace('?', '__p') if isinstance(y, str) and st[0] == 'label' else y for y in st)
                    for st in x.program(stmts)]
            flat = [rename(st) for st in flat]
            model.assemble(flat)
        except model.Reject:
            return
        ctx.write('hand.s', render.program(flat, render.Plain()))
        ctx.write('in.s', macros.source(ms, stmts, render.Plain(), rng))
        a, r1 = ctx.assemble('hand.s', 'hand.bin')
        b, r2 = ctx.assemble('in.s', 'out.bin')
        ctx.case(repr((flat, stmts)), x.expansions > 0)
        ctx.counters['hand expansions compared'] += 1
        if a is None or a != b:
            raise core.Violation('hand-expanded program differs: %s' % core.diff(a, b), hand=r1.describe(),
                                 macros=r2.describe())
    elif kind == 'many':
        # so many private labels that names made up for them must be long enough
        n = 25000
        k = rng.randrange(1, 4)
        src = '%%macro many\n%s.y%%:\n br .y%%\n%%end\n%s' % (''.join('x%d%%:\n' % j for j in range(k - 1)), ' many\n' * n)
        ctx.write('in.s', src)
        ctx.case('%d private labels %d times' % (k, n))
        ctx.counters['private labels'] += k * n
        expect_image(ctx, 'in.s', bytes([1, 0xFE]) * n, '%d expansions' % n)
    elif kind == 'large':
        what, src, image = large_macro(rng)
        ctx.write('in.s', src)
        ctx.case(src)
        ctx.counters['large: ' + what.split(' ', 1)[1]] += 1
        if image is None:
            expect_reject(ctx, 'in.s', what)
        else:
            expect_image(ctx, 'in.s', image, what)
    elif kind == 'nest':
        # chains of nested calls with the argument growing on the way
        depth = rng.choice([2, 5, 20, 60, 120])
        ops = rng.choice(['+1', '*1+0', '|0', '-0', '^0', ''])
        if depth > 60 and ops == '*1+0':
            ops = '+1'
        v = rng.randrange(0, 100)
        lines = ['%%macro m0 %%a\n .q%%:\n add #%%a\n br .q%%\n%%end']
        for d in range(1, depth + 1):
            lines.append('%%macro m%d %%a\n m%d %%a%s\n%%end' % (d, d - 1, ops))
        rng.shuffle(lines)
        src = ('\n'.join(lines)).replace('%%', '%') + '\n m%d %d\n m%d %d\n' % (depth, v, depth, v)
        w = v + (depth if ops == '+1' else 0)
        ctx.write('in.s', src)
        ctx.case(src)
        if w > 255:
            expect_reject(ctx, 'in.s', 'nested argument out of range')
        else:
            expect_image(ctx, 'in.s', bytes([0x81, w, 1, 0xFC]) * 2, 'nest of %d calls' % depth)
    else:
        what, src = misuse(rng)
        if rng.random() < 0.5:
            src = src + ' nop\n'
        ctx.write('in.s', src)
        ctx.case(src)
        ctx.counters['misuse: ' + what] += 1
        expect_reject(ctx, 'in.s', what)


def large_macro(rng):
    """(what, source, image or None): macros of which one thing is large."""
    n = rng.choice([8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000])
    k = rng.randrange(8)
    if k == 0:
        # every parameter is used, each has its own value
        n = min(n, 257)
        ps = ['%%p%d' % j for j in range(n)]
        vals = [rng.randrange(256) for _ in ps]
        order = rng.sample(range(n), n) if rng.random() < 0.5 else range(n)
        body = ''.join(' add #%s\n' % ps[j] for j in order)
        image = b''.join(bytes([0x81, vals[j]]) for j in order)
        return '%d parameters' % n, '%%macro m %s\n%s%%end\n m %s\n' % (', '.join(ps), body, ', '.join(map(str, vals))), image
    if k == 1:
        # one argument too many, one too few
        d = rng.choice([-1, 1])
        return '%d arguments but for one' % n, '%%macro m %s\n nop\n%%end\n m %s\n' % (
            ', '.join('%%p%d' % j for j in range(n)), ', '.join('1' for _ in range(n + d))), None
    if k == 2:
        # overloads by number of arguments
        ar = rng.sample(range(1, 60), min(n, 20))
        src = ''.join('%%macro m %s\n add #%d\n%%end\n' % (', '.join('%%p%d' % j for j in range(a)), a) for a in ar)
        calls = [rng.choice(ar) for _ in range(30)]
        return '%d overloads' % len(ar), src + ''.join(' m %s\n' % ', '.join(['0'] * a) for a in calls), b''.join(
            bytes([0x81, a]) for a in calls)
    if k == 3:
        # many macros
        n = rng.choice([n, 3000])
        calls = [rng.randrange(n) for _ in range(30)] + [0, n - 1]
        defs = ['%%macro m%d\n add #%d\n%%end\n' % (j, j & 255) for j in range(n)]
        rng.shuffle(defs)
        return '%d macros' % n, ''.join(defs) + ''.join(' %s%d\n' % (rng.choice('mM'), j) for j in calls), b''.join(
            bytes([0x81, j & 255]) for j in calls)
    if k == 4:
        # a long body, every private label of it used
        body, image = '', b''
        for j in range(n):
            body += rng.choice(['l%d%%:\n br l%d%%\n', '.l%d%%:\n br .l%d%%\n']) % (j, j) if rng.random() < 0.7 else ' add #%d\n' % (j & 255)
            image += bytes([0x81, j & 255]) if body.endswith('#%d\n' % (j & 255)) else b'\x01\xfe'
        c = rng.randrange(1, 4)
        # a private label that is not local opens a scope of its own: only br to the label before
        return '%d statements in a body' % n, '%%macro m\n%s%%end\n%s' % (body, ' m\n' * c), image * c
    if k == 5:
        # long names that differ late
        a = large.name(rng, n)
        b = a[:-1] + ('y' if a[-1] not in 'yY' else 'z')
        p, q = 'p' + a, 'p' + b
        v, w = rng.randrange(256), rng.randrange(256)
        src = ('%%macro %s %%%s, %%%s\n add #%%%s\n sub #%%%s\n%%end\n%%macro %s %%x, %%y\n nop\n%%end\n %s %d, %d\n %s 1, 2\n'
               % (a, p, q, q, p, b, a.upper(), v, w, b))
        return '%d characters in names' % n, src, bytes([0x81, w, 0xA1, v, 0])
    if k == 6:
        # the same private label twice, near or far
        d = rng.choice([0, 1, 2, 5, n])
        lab = rng.choice(['x%', '.x%', '.Loop%'])
        again = rng.choice([lab, lab.upper(), lab.lower()])
        return '%d statements between two private labels of a name' % d, '%%macro m\n%s:\n%s%s:\n nop\n%%end\n m\n' % (
            lab, ' nop\n' * d, again), None
    # a call with an argument that only means something inside of a macro
    a = rng.choice(['%a', '%b', '%c', '%a+1', '#%a', 'x%', '.l%'])
    args = [a, '5'] if rng.random() < 0.5 else ['5', a]
    user = rng.choice([' m %s\n', ' m 1, 2\n m %s\n', '%%macro k %%d, %%e\n nop\n%%end\n m %s\n'])
    body = rng.choice([' add #%%a\n sub #%%b\n', ' ld %%a\n st %%b\n', ' br %%a\n br %%b\n', ' push %%b\n inner %%a\n'])
    if 'inner' in body:
        user = '%%macro inner %%a\n ld %%a\n%%end\n' + (user if '%%' in user else user.replace('%s', '%%s') % ()).replace('%%s', '%s')
    return '1 parameter outside of macros', ('%%macro m %%a, %%b\n.l%%:\nx%%:\n' + body + '%%end\n').replace('%%', '%') + (
        user.replace('%%', '%') % ', '.join(args) if '%%' not in user else user % ', '.join(args)), None


def rename(st):
    def r(e):
        if isinstance(e, tuple):
            if e[0] == 'name':
                return ('name', e[1].replace('?', '__p'))
            return (e[0],) + tuple(r(x) for x in e[1:])
        return e
    if st[0] == 'instr':
        return ('instr', st[1], [r(x) for x in st[2]])
    return st


def misuse(rng):
    used = set()
    m, n = gen.name(rng, used), gen.name(rng, used)
    a, b = rng.sample(['%x', '%y', '%z1'], 2)
    cases = [
        ('too few arguments', '%%macro %s %s, %s\n add #%s\n%%end\n %s 1\n' % (m, a, b, a, m)),
        ('too many arguments', '%%macro %s %s\n add #%s\n%%end\n %s 1, 2\n' % (m, a, a, m)),
        ('argument to a macro without parameters', '%%macro %s\n nop\n%%end\n %s 1\n' % (m, m)),
        ('call without arguments', '%%macro %s %s\n add #%s\n%%end\n %s\n' % (m, a, a, m)),
        ('unknown macro', ' %s 1\n' % m),
        ('unknown macro in a body', '%%macro %s\n %s 1\n%%end\n %s\n' % (m, n, m)),
        ('same macro twice', '%%macro %s %s\n add #%s\n%%end\n%%macro %s %s\n sub #%s\n%%end\n %s 1\n'
         % (m, a, a, m.upper(), b, b, m)),
        ('same parameter twice', '%%macro %s %s, %s\n add #%s\n%%end\n %s 1, 2\n' % (m, a, a.upper(), a, m)),
        ('macro named like an instruction', '%%macro %s %s\n add #%s\n%%end\n' % (rng.choice(['add', 'NOP', 'br']), a, a)),
        ('unknown parameter', '%%macro %s %s\n add #%s\n%%end\n %s 1\n' % (m, a, b, m)),
        ('private label twice', '%%macro %s\n.l%%:\n nop\n.L%%:\n%%end\n %s\n' % (m, m)),
        ('unknown private label', '%%macro %s\n br .l%%\n%%end\n %s\n' % (m, m)),
        ('private label outside', '%%macro %s\n.l%%:\n nop\n%%end\n %s\n br .l%%\n' % (m, m)),
        ('private label by its plain name', '%%macro %s\n.l%%:\n nop\n%%end\n %s\n br .l\n' % (m, m)),
        ('private global label by its plain name', '%%macro %s\nl%%:\n nop\n%%end\n %s\n jmpf l\n' % (m, m)),
        ('private label of another expansion', '%%macro %s\n.l%%:\n %s\n%%end\n%%macro %s\n br .l%%\n%%end\n %s\n'
         % (m, n, n, m)),
        ('missing end', '%%macro %s %s\n add #%s\n %s 1\n' % (m, a, a, m)),
        ('end without macro', ' nop\n%end\n'),
        ('text after end', '%%macro %s\n nop\n%%end %s\n %s\n' % (m, a, m)),
        ('parameter that is not a parameter', '%%macro %s %s\n nop\n%%end\n' % (m, rng.choice(['x', '#1', '5', '@R0']))),
        ('missing macro name', '%macro\n nop\n%end\n'),
        ('immediate where an expression is needed', '%%macro %s %s\n add #%s\n%%end\n %s #1\n' % (m, a, a, m)),
        ('immediate within an expression', '%%macro %s %s\n ld %s+1\n%%end\n %s #1\n' % (m, a, a, m)),
        ('register within an expression', '%%macro %s %s\n ld %s+1\n%%end\n %s @R1\n' % (m, a, a, m)),
        ('register where no register can be', '%%macro %s %s\n push %s\n%%end\n %s @R1\n' % (m, a, a, m)),
        ('parameter outside of a macro', ' add #%s\n' % a),
        ('directive in a body', '%%macro %s\n .byte 1\n%%end\n %s\n' % (m, m)),
        ('endless recursion', '%%macro %s\n %s\n%%end\n %s\n' % (m, m, m)),
        ('mutual recursion', '%%macro %s\n %s\n%%end\n%%macro %s\n %s\n%%end\n %s\n' % (m, n, n, m, m)),
        ('argument out of range', '%%macro %s %s\n add #%s\n%%end\n %s 256\n' % (m, a, a, m)),
        ('plain label of a macro twice', '%%macro %s\n%s:\n nop\n%%end\n %s\n %s\n' % (m, n, m, m)),
    ]
    return rng.choice(cases)
