"""C26: exactly the well-formed programs are accepted."""
import re

from vlib import core, front, gen, macros, model, pictures, png, render, scatter
from vlib.common import expect_image, expect_reject

TECHNIQUE = ('runtime differential monitoring against a reference assembler that reads the source text: damaged programs must be '
             'rejected or give the image of what is left')
LEVEL_NOTE = 'Programs of several files and macros with one or two tokens, characters or lines removed, added, moved or replaced; sampled.'
RULE = ('A random program (data, instructions, names, macros, included files, sprites, icons, C headers, random spelling) is damaged: a token is removed, '
        'doubled, inserted, replaced or swapped with its neighbour, a line is removed, doubled, moved, joined or split, an operand is removed, doubled, added or '
        'replaced, a number changed, a character is '
        'removed, doubled, inserted or replaced. An independent lexer, parser, macro expander and assembler decides whether what is left is a '
        'program and what its image is; where the language leaves that open, the case is dropped. tokens: main file; files: '
        'included files and macros; twice: two damages; whole: no damage; long: lines with many operands and arguments with many operators. Files are also cut at any line, in the middle of macros too. Distinct: damaged sources.')
ASSUMPTIONS = ['The grammar is that of the documentation and of the examples: one statement a line, an instruction (no directive) '
               'may follow a label, macro bodies hold labels, instructions and macro calls.']

POOL = (', , : = + * - / & | ^ < > ( ) # # @R0 @r3 0 1 255 256 $1F %101 0x100 70000 -1 "a" "" %end %macro %x %a x% .x% .loop start '
        'equ .byte .word .org .cnop .text .string .include asm bytes nop add br ld mov x_1 :: ; * \' ~ ? ! $ % 0x @ \\ '
        'ret lab: .l1: .l2').split(' ')
CHARS = ',:=+*-/&|^<>()#@$%"\'.;_0179abxzAF \t\\\n~?!'


def tasks(tier):
    n = 1 if tier == 'quick' else 14
    return [('tokens', 18000 * n), ('files', 12000 * n), ('twice', 6000 * n), ('whole', 2000 * n), ('long', 300 * n)]


def base(rng, spread):
    """{name: text or bytes} of a program, which usually is a legal one."""
    k = rng.randrange(3)
    if k == 0:
        ms, stmts = macros.random_program(rng)
        return {'in.s': macros.source(ms, stmts, style(rng), rng)}
    p = gen.Program(rng, rng.choice([3, 6, 12, 20]), {'local': 2, 'byte': 3, 'word': 2, 'text': 1, 'string': 1, 'org': 0.3, 'cnop': 0.6})
    stmts = list(p.stmts)
    if spread or k == 1:
        return dict(scatter.Scatter(rng, stmts, share=rng.choice([0.1, 0.3, 0.5]), wild=0.3).files)
    return {'in.s': render.program(stmts, style(rng), lambda: rng.random() < 0.3)}


def cut(rng, files):
    """Moves lines into included files, wherever they begin and end."""
    for n in range(rng.choice([1, 1, 2, 4])):
        name = rng.choice(sorted(f for f in files if isinstance(files[f], str) and not f.endswith('.h')))
        if '/' in name:
            continue
        lines = files[name].split('\n')
        a = rng.randrange(len(lines))
        b = min(len(lines), a + rng.choice([0, 1, 1, 2, 3, 5, 9]))
        new = 'cut%d.s' % n
        files[new] = '\n'.join(lines[a:b]) + rng.choice(['\n', '', '', ' ', ' ; x', '\n\n'])
        lines[a:b] = [' .include "%s"' % new]
        files[name] = '\n'.join(lines)


def long_line(rng):
    """(name of the form, a statement with many or long operands, bytes)"""
    n = rng.choice([60, 124, 125, 126, 249, 250, 251, 300, 499, 501, 1000, 3000])
    items = [rng.choice(['(%d-1)', '%d+1', '-%d+%d', '%d*2-%d', '<%d', '((%d))', '%d|1&3', 'one+%d', '>%d*(2-1)']) for _ in range(n)]
    items = [x.replace('%d', str(rng.randrange(1, 60))) for x in items]
    k = rng.randrange(3)
    if k == 0:
        return '.byte', '.byte ' + ', '.join(items)
    if k == 1:
        return '.word', '.word ' + ','.join(items)
    # arguments with many operators each
    m = rng.choice([2, 3, 5, 9])
    args = ['+'.join(['0'] * rng.choice([40, 100, 126, 200]) + ['%d' % j]) for j in range(m)]
    params = ', '.join('%%p%d' % j for j in range(m))
    text = '%%macro many %s\n%s%%end\n many %s' % (params, ''.join(' add #%%p%d\n' % j for j in range(m)), ', '.join(args))
    return 'arguments', text


class Picture:
    """What front.Front wants to know of a picture."""

    def __init__(self, rng, w, h):
        colours = [(0, 0, 0, 255), (255, 255, 255, 255), (200, 10, 30, 255), (0, 0, 0, 0)]
        self.rows = [[rng.choice(colours) for _ in range(w)] for _ in range(h)]
        self.data = png.encode(w, h, self.rows)
        self.icon = (w, h) == (32, 32)
        self.eyecatch = (w, h) == (72, 56)

    def __call__(self, kind, props):
        if kind == 'eyecatch':
            return 2016 + 32 if self.eyecatch else None
        if kind == 'icon':
            return 64 + 512 if self.icon else None
        return pictures.sprite([self.rows], props.get('type') == b'masked', props.get('header') != b'no')


def extras(rng, files):
    """Includes of pictures, binary files and C headers."""
    known = {}
    lines = files['in.s'].split('\n')

    def put(text):
        lines.insert(rng.choice([0, 0, len(lines) - 1 if lines[-1] == '' else len(lines)]), text)

    def pair(name, *values):
        return '%s%s%s' % (name, rng.choice(['=', '=', ' = ']), rng.choice(values))

    while True:
        k = rng.randrange(4)
        if k == 0:
            known['p.png'] = Picture(rng, rng.randrange(1, 20), rng.randrange(1, 6))
            options = rng.sample([pair('type', '"simple"', '"masked"'), pair('header', '"yes"', '"no"')], rng.randrange(3))
            put(' .include sprite "p.png" ' + rng.choice([', ', ',']).join(options))
        elif k == 1:
            known['i.png'] = Picture(rng, 32, 32)
            speed = pair('speed', '0', '10', '$FFFF', '2*(3+4)', '>$1234', '7|8')
            props = rng.choice([[], [speed], [speed]])
            if rng.random() < 0.4:
                known['e.png'] = Picture(rng, 72, 56)
                props.insert(rng.randrange(len(props) + 1), pair('eyecatch', '"e.png"'))
            put(' .include icon "i.png" ' + ', '.join(props))
        elif k == 2:
            files['data.bin'] = rng.randbytes(rng.randrange(20))
            put(' .include bytes "data.bin"')
        else:
            files['defs.h'] = ''.join('#define %s %s%s\n%s' % (
                n, rng.choice(['5', '0x1F', '(1 + 2)', '(FIRST_1 * 2)' if n != 'FIRST_1' else '7', '-3', '077']),
                rng.choice(['', ' // x', ' /* a, b */']), rng.choice(['', '', '\n', '// define\n', '/* ; */\n'])) for n in ('FIRST_1', 'SECOND_2', 'Third3')[:rng.randrange(4)])
            put(' .include cpp "defs.h"')
            if 'SECOND' in files['defs.h']:
                put(' .word FIRST_1, second_2 + 1')
        if rng.random() < 0.5:
            break
    for n, p in known.items():
        files[n] = p.data
    files['in.s'] = '\n'.join(lines)
    return known


def style(rng):
    return render.Plain() if rng.random() < 0.4 else render.Random(rng, rng.choice([0.1, 0.4]))


def spans(text, header):
    try:
        return [(t.start, t.end) for t in front.lex(text, header)]
    except (front.Reject, front.Unclear):
        return []


def lines_of(text, header):
    try:
        return front.split(front.lex(text, header))
    except (front.Reject, front.Unclear):
        return []


def operands(line):
    """[(start, end)] of what stands between commas after the first word."""
    i = 2 if len(line) > 1 and line[1].kind == ':' else 0
    if line[i:] and line[i].value == '%macro':
        i += 1
    groups = [[]]
    for t in line[i + 1:]:
        if t.kind == ',':
            groups.append([])
        else:
            groups[-1].append(t)
    return [(g[0].start, g[-1].end) for g in groups if g]


OPERANDS = ['#5', '5', '@R1', '#$ff', '300', '@r2', '%x', '"ab"', '0', '(1)', '-1', '# 3+4', '.byte', 'x%']


def operand(rng, text, header):
    """Damage to the operands of a statement."""
    choice = [ln for ln in lines_of(text, header) if len(ln) > 1]
    if not choice:
        return None
    if rng.random() < 0.5:
        word = rng.choice(sorted({str(ln[0].value) for ln in choice}))
        choice = [ln for ln in choice if str(ln[0].value) == word]
    line = rng.choice(choice)
    ops = operands(line)
    if not ops:
        return None
    new = rng.choice(OPERANDS) if rng.random() < 0.7 else text[slice(*rng.choice(operands(rng.choice(choice)) or ops))]
    a, b = rng.choice(ops)
    word = text[a:b]
    op = rng.choice(['append', 'remove', 'hash', 'replace', 'double', 'swap', 'repeat'])
    if op == 'append':
        e = ops[-1][1]
        return text[:e] + ', ' + new + text[e:], 'operand added'
    if op == 'hash':
        return text[:a] + (word.lstrip('# ') if word.startswith('#') else '#' + word) + text[b:], 'operand: # changed'
    if op == 'replace':
        return text[:a] + new + text[b:], 'operand replaced'
    if op == 'double' or len(ops) == 1 and op != 'remove':
        return text[:b] + ', ' + word + text[b:], 'operand doubled'
    if op == 'remove':
        rest = [text[x:y] for x, y in ops if (x, y) != (a, b)]
        return text[:ops[0][0]] + ', '.join(rest) + text[ops[-1][1]:], 'operand removed'
    k = rng.randrange(len(ops) - 1)
    (x1, y1), (x2, y2) = ops[k], ops[k + 1]
    if op == 'repeat':
        return text[:x2] + text[x1:y1] + text[y2:], 'operand replaced by the one before'
    return text[:x1] + text[x2:y2] + text[y1:x2] + text[x1:y1] + text[y2:], 'operands swapped'


def number(rng, text, header):
    """Damage to a number."""
    nums = [t for ln in lines_of(text, header) for t in ln if t.kind == 'num']
    if not nums:
        return None
    t = rng.choice(nums)
    w = text[t.start:t.end]
    k = rng.randrange(1, len(w) + 1)
    new = rng.choice([w + "'", w[:k] + "''" + w[k:], w[:k] + "'" + w[k:], "'" + w, w + '_', w[:k] + '_' + w[k:], w + '.', w + 'h', '0x' + w, '%' + w,
                      '$' + w, '0b' + w, '0o' + w, w + '9', w + 'g', w + '8', w + '0000000', '2147483648', '2147483647', '$80000000', '4294967297',
                      '99999999999999999999', w[:k] + ' ' + w[k:], '0x', '$', "0'x1", '0X1F', '0B101', '0O17', '1.5', '1e3', w + w])
    return text[:t.start] + new + text[t.end:], 'number changed'


def damage(rng, files, name):
    """(new text, what was done)"""
    text = files[name]
    toks = spans(text, name.endswith('.h'))
    k = rng.random()
    if k < 0.25:
        done = (operand if k < 0.19 else number)(rng, text, name.endswith('.h'))
        if done:
            return done
    k = rng.random()
    if k < 0.62 and toks:
        # rare tokens as likely as those of many data
        a, b = rng.choice(toks)
        if rng.random() < 0.5:
            word = text[a:b]
            kind = rng.choice(sorted({text[x:y] for x, y in toks}))
            same = [t for t in toks if text[t[0]:t[1]] == kind]
            a, b = rng.choice(same)
        if rng.random() < 0.15:
            # at the end of a line
            e = text.find('\n', a)
            a = b = len(text) if e < 0 else e
        word = text[a:b]
        new = rng.choice(POOL) if rng.random() < 0.6 else text[slice(*rng.choice(toks))]
        op = rng.choice(['remove', 'double', 'insert', 'insert', 'replace', 'swap', 'glue'])
        sp = rng.choice([' ', ' ', '', '\t'])
        if op == 'remove':
            return text[:a] + text[b:], 'token removed'
        if op == 'double':
            return text[:b] + sp + word + text[b:], 'token doubled'
        if op == 'insert':
            if rng.random() < 0.5:
                return text[:a] + new + sp + text[a:], 'token inserted'
            return text[:b] + sp + new + text[b:], 'token inserted'
        if op == 'replace':
            return text[:a] + new + text[b:], 'token replaced'
        if op == 'glue':
            e = b
            while e < len(text) and text[e] in ' \t':
                e += 1
            return text[:b] + text[e:], 'space removed'
        after = [t for t in toks if t[0] >= b][:1]
        if after:
            c, d = after[0]
            return text[:a] + text[c:d] + text[b:c] + word + text[d:], 'tokens swapped'
        return text[:a] + text[b:], 'token removed'
    lines = text.split('\n')
    if k < 0.82 and len(lines) > 1:
        j = rng.randrange(len(lines))
        op = rng.choice(['remove', 'double', 'move', 'join', 'split', 'from another file'])
        if op == 'remove':
            del lines[j]
        elif op == 'double':
            lines.insert(j, lines[j])
        elif op == 'move':
            ln = lines.pop(j)
            lines.insert(rng.randrange(len(lines) + 1), ln)
        elif op == 'join':
            lines[j:j + 2] = [lines[j] + rng.choice([' ', '', ' , ']) + ''.join(lines[j + 1:j + 2])]
        elif op == 'split':
            parts = lines[j].split(' ')
            c = rng.randrange(len(parts) + 1)
            lines[j:j + 1] = [' '.join(parts[:c]), ' ' + ' '.join(parts[c:])]
        else:
            other = files[rng.choice(sorted(n for n in files if isinstance(files[n], str)))].split('\n')
            lines.insert(j, rng.choice(other))
        return '\n'.join(lines), 'line: ' + op
    if not text:
        return rng.choice(POOL), 'token inserted'
    j = rng.randrange(len(text))
    op = rng.choice(['remove', 'double', 'insert', 'replace'])
    c = rng.choice(CHARS)
    return {'remove': text[:j] + text[j + 1:], 'double': text[:j] + text[j] + text[j:], 'insert': text[:j] + c + text[j:],
            'replace': text[:j] + c + text[j + 1:]}[op], 'character: ' + op


def run_case(ctx, kind, i, rng):
    known = {}
    if kind == 'long':
        form, text = long_line(rng)
        files = {'in.s': 'one = 1\n %s%s\n nop\n' % (rng.choice(['', 'nop\n ']), text)}
        ctx.counters['long lines of %s' % form] += 1
    else:
        files = base(rng, kind == 'files')
        if rng.random() < 0.35:
            known = extras(rng, files)
        if rng.random() < 0.3:
            cut(rng, files)
            ctx.counters['cut at any line'] += 1
    done = []
    for _ in range({'whole': 0, 'long': 0, 'twice': 2}.get(kind, 1)):
        texts = sorted(n for n in files if isinstance(files[n], str))
        name = 'in.s' if kind == 'tokens' else rng.choice(texts)
        files[name], what = damage(rng, files, name)
        done.append('%s: %s' % (name, what))
        ctx.counters[what] += 1
    for n, t in files.items():
        ctx.write(n, t)
    key = repr(sorted(files.items()))
    shown = {n: t if isinstance(t, str) else repr(t) for n, t in files.items()}
    what = '; '.join(done) or 'no damage'
    try:
        f = front.Front(files, 'in.s', known)
        image = f.image()
    except model.Reject as r:
        ctx.case(key)
        ctx.counters['must be rejected'] += 1
        ctx.counters['why: ' + re.sub(r' (at|%|[.]|name) ?.*', '', str(r.why))] += 1
        expect_reject(ctx, 'in.s', '%s (%s)' % (what, r.why), existing=rng.choice([None, b'old']), files=shown)
        return
    except front.Unclear as u:
        ctx.counters['not judged: ' + str(u)] += 1
        ctx.case(key, False)
        return
    ctx.case(key)
    ctx.counters['still programs' if done else 'whole programs'] += 1
    if f.loose:
        # C14 knows what an icon is
        data, r = ctx.assemble('in.s', 'out.bin')
        if data is None or len(data) != len(image):
            raise core.Violation('%s: %s' % (what, 'legal program rejected' if data is None else 'output of %d bytes instead of %d' % (
                len(data), len(image))), result=r.describe(), files=shown)
    else:
        expect_image(ctx, 'in.s', image, what, files=shown)
    if done and len(f.macros) and rng.random() < 0.1:
        ctx.sample({'damage': done, 'files': shown})

