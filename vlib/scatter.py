"""The statements of a program spread over nested include files and macros
that are called once, which changes nothing."""
from vlib import macros, render


class Scatter:
    """files(): {name: text}, of which in.s is the program."""

    def __init__(self, rng, stmts, share=0.5, wild=0.3, calls=True):
        self.rng, self.wild = rng, wild
        self.used = {str(n).lower() for st in stmts for n in names(st)}
        self.files = {}
        self.macros = []
        self.counts = {'files': 0, 'macros': 0, 'depth': 0, 'parameters': 0}
        self.plain_dirs = any(st[0] in ('raw', 'none') and '"' in st[-1] for st in stmts)
        # the definitions of macros can be anywhere, also in a file
        main = self.part(stmts, 0, '', share, calls)
        text = [self.render(p) for p in main]
        for m in self.macros:
            t = macros.macro_text(m, self.style())
            k = rng.randrange(4)
            if k == 0:
                n = self.new('')
                self.files[n] = t
                t = ' .include "%s"\n' % n
            text.insert(0 if k == 1 else len(text) if k == 2 else rng.randrange(len(text) + 1), t)
        self.files['in.s'] = ''.join(text)

    def style(self):
        return render.Random(self.rng, self.wild) if self.rng.random() < 0.7 else render.Plain()

    def new(self, base):
        self.counts['files'] += 1
        d = '' if self.plain_dirs else self.rng.choice(['', '', 'deeper/', 'with space/'])
        return base + d + 'part%d%s' % (self.counts['files'], self.rng.choice(['.s', '.i', '.asm', '']))

    def name(self, stem):
        n = 0
        while True:
            n += 1
            if '%s%d' % (stem, n) not in self.used:
                self.used.add('%s%d' % (stem, n))
                return '%s%d' % (stem, n)

    def render(self, item):
        if isinstance(item, str):
            return item
        if item[0] == 'call':
            s = self.style()
            return s.lead() + macros.stmt_text(item, s) + s.tail() + s.newline
        return render.program([item], self.style())

    def part(self, stmts, depth, base, share, calls):
        rng = self.rng
        self.counts['depth'] = max(depth, self.counts['depth'])
        out = []
        i = 0
        while i < len(stmts):
            st = stmts[i]
            if rng.random() < share and depth < 6:
                n = rng.choice([0, 1, 1, 2, 4, 9, 20])
                if calls and rng.random() < 0.5:
                    j = i
                    while j < len(stmts) and j < i + n and stmts[j][0] in ('instr', 'label'):
                        j += 1
                    out.append(self.macro(stmts[i:j]))
                    i = j
                    continue
                name = self.new(base)
                d = name[:name.rfind('/') + 1]
                self.files[name] = ''.join(self.render(p) for p in self.part(stmts[i:i + n], depth + 1, d, share, calls))
                out.append(' .include %s"%s"\n' % (rng.choice(['', '', 'asm ']), name[len(base):]))
                i += n
                continue
            out.append(st)
            i += 1
        return out

    def macro(self, stmts):
        rng = self.rng
        body, params, given = [], [], []
        for st in stmts:
            if st[0] == 'label':
                body.append(st)
                continue
            args = []
            for k, v in zip(st[1].kinds, st[2]):
                a = {'i8': 'imm', 'ri': 'ri'}.get(k, 'ex')
                if rng.random() < 0.4 and len(params) < 9:
                    p = '%%p%d' % len(params)
                    params.append(p)
                    given.append((a, v))
                    a, v = ('bare', p) if rng.random() < 0.7 or a == 'ri' else ('bare', p.upper())
                    args.append((a, v))
                elif a != 'ri' and isinstance(v, tuple) and rng.random() < 0.5:
                    args.append((a, self.lift(v, params, given)))
                else:
                    args.append((a, v))
            body.append(('mi', st[1].mnemonic, args))
        m = macros.Macro(self.name('mac'), params, body)
        self.macros.append(m)
        self.counts['macros'] += 1
        self.counts['parameters'] += len(params)
        return ('call', m.name, given)

    def lift(self, e, params, given):
        """Turns some operands of an expression into parameters."""
        if self.rng.random() < 0.3 and len(params) < 9:
            p = '%%p%d' % len(params)
            params.append(p)
            given.append(('ex', e))
            return ('param', p)
        if isinstance(e, int) or e[0] in ('name', 'text'):
            return e
        return (e[0],) + tuple(self.lift(x, params, given) for x in e[1:])


def names(st):
    def of(e):
        if isinstance(e, tuple):
            if e[0] == 'name':
                yield e[1]
            else:
                for x in e[1:]:
                    yield from of(x)
    if st[0] in ('label', 'const'):
        yield st[1]
    for x in st[1:]:
        if isinstance(x, (list, tuple)):
            for y in x if isinstance(x, list) else [x]:
                yield from of(y)


def write(ctx, rng, stmts, **options):
    """Writes the files and gives a key of them."""
    sc = Scatter(rng, stmts, **options)
    for n, t in sc.files.items():
        ctx.write(n, t)
    for k, v in sc.counts.items():
        if k != 'depth':
            ctx.counters['scattered over: ' + k] += v
    return repr(sorted(sc.files.items()))
