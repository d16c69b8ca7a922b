"""C04: labels denote the position of the next statement, and control
transfers reach exactly that position."""
from vlib import core, gen, isa, large, model, png, render, scatter
from vlib.common import expect_image, expect_reject, source_of

TECHNIQUE = "runtime trace oracle: decode the produced image and check each transfer's destination"
LEVEL_NOTE = 'Random programs and complete sweeps of the reach limits. Trusts the documented processor semantics of branches.'
RULE = ('program: random programs (instructions, data, origins, alignment, includes of source, bytes, sprites) in which '
        'branches and words refer to labels, global and local, forwards and backwards; after assembly every transfer is '
        'decoded from the image by the documented processor semantics and its destination compared with the label; '
        'scattered: the same with the statements spread over nested include files and macros that are called once, so that '
        'transfers and their labels are in different files and expansions; reach: one transfer with its label at and around the limits of its reach, and across 4K pages; large: many labels and statements, labels around and after position 65535. Distinct: '
        '(form, distance, position) of the transfers observed.')
ASSUMPTIONS = ['r8 displacements count from the next instruction, r16 ones from the last byte of the instruction, as '
               'documented and as on the hardware.']

TRANSFERS = [f for f in isa.FORMS if any(k in isa.TARGET_KINDS for k in f.kinds)]


def tasks(tier):
    n = 1 if tier == 'quick' else 14
    return [('program', 2500 * n), ('mixed', 1200 * n), ('scattered', 1000 * n), ('reach', len(TRANSFERS) * 40 * n), ('page', 250 * n), ('large', 250 * n)]


def observe(ctx, stmts, lay, image, what):
    """Decodes the transfers to labels from the image."""
    for i, st in enumerate(stmts):
        if st[0] != 'instr':
            continue
        for kind, op in zip(st[1].kinds, st[2]):
            if kind in isa.TARGET_KINDS and isinstance(op, tuple) and op[0] == 'name':
                n = op[1].lower()
                want = lay.locals[lay.scope[i]].get(n) if n.startswith('.') else lay.labels.get(n)
                if want is None:
                    continue
                pos = lay.pos[i]
                got = isa.decode(image, pos)
                if image_overwritten(stmts, lay, i):
                    continue
                if got is None or got[0] is not st[1] or isa.target(*got) != want:
                    raise core.Violation('%s: %s at $%X goes to %s instead of label %s at $%X' % (
                        what, st[1].name, pos, got and isa.target(*got), op[1], want))
                ctx.counters['transfers ' + st[1].mnemonic + (' back' if want <= pos else ' ahead')] += 1
                ctx.case('%s %d %d' % (st[1].name, want - pos, pos))


def image_overwritten(stmts, lay, i):
    lo, hi = lay.pos[i], lay.pos[i] + stmts[i][1].size
    for j in range(i + 1, len(stmts)):
        p = lay.pos[j]
        n = model.stmt_size(stmts[j], p)
        if stmts[j][0] in ('instr', 'byte', 'word', 'text', 'string', 'raw') and p < hi and p + n > lo:
            return True
    return False


def run_case(ctx, kind, i, rng):
    if kind in ('program', 'mixed', 'scattered'):
        p = gen.Program(rng, rng.choice([8, 25, 50]),
                        {'instr': 12, 'label': 5, 'local': 5, 'const': 0.3, 'byte': 2, 'cnop': 0.7, 'org': 0.5},
                        start=rng.choice([None, None, rng.randrange(0x8000)]))
        stmts = list(p.stmts)
        # a table of all global labels at the end, which shows their values
        names = [n for n, _ in p.globals if n.lower() in p.layout.labels and p.layout.labels[n.lower()] < 65536]
        if names:
            stmts.append(('word', [('name', n) for n in names]))
        if kind == 'mixed' or kind == 'scattered' and rng.random() < 0.3:
            stmts = mix(ctx, stmts, rng)

        def write():
            if kind == 'scattered':
                return scatter.write(ctx, rng, stmts, share=rng.choice([0.05, 0.2, 0.5]))
            src = source_of(stmts, rng)
            ctx.write('in.s', src)
            return src

        try:
            lay = model.Layout(stmts)
            image = model.assemble(stmts, lay)
        except model.Reject:
            ctx.counters['mixed programs that do not fit'] += 1
            write()
            expect_reject(ctx, 'in.s', 'program with a target out of reach')
            return
        src = write()
        data = expect_image(ctx, 'in.s', image, 'labels')
        observe(ctx, stmts, lay, data, 'labels')
        ctx.counters['label values in tables'] += len(names)
        ctx.sample({'source': src[:700]})
    elif kind == 'large':
        large.check(ctx, rng, [large.beyond, large.beyond, large.many_names, large.statements])
    elif kind == 'reach':
        form = TRANSFERS[i % len(TRANSFERS)]
        k = [k for k in form.kinds if k in isa.TARGET_KINDS][0]
        pos = rng.choice([0x300, 0x10000 - form.size if k != 'a12' else 0x400, rng.randrange(0x200, 0xF000), (rng.randrange(1, 15) << 12) - rng.randrange(5)])
        nxt = pos + form.size
        d = {'r8': [-130, -129, -128, -127, -form.size, 0, 1, 126, 127, 128, 129],
             'r16': [-32769 - 1, -32768 - 1, -32767 - 1, -3, 0, 1, 32765, 32766, 32767],
             'a12': [-4096, -2048, -3, 0, 1, 2000, 4000], 'a16': [-pos, 0, 1, 65535 - nxt, 3]}[k]
        t = nxt + rng.choice(d + [rng.randint(-140, 140)])
        if k == 'a12' and rng.random() < 0.5:
            t = rng.choice([nxt & 0xF000, nxt | 0xFFF, (nxt & 0xF000) - 1, (nxt | 0xFFF) + 1])
        if not 0 <= t <= 0xFFFF:
            return
        ops = [('name', 'target') if x in isa.TARGET_KINDS else rng.randrange(1 << isa.WIDTH[x]) for x in form.kinds]
        part = [[('org', pos), ('instr', form, ops)], [('org', t), ('label', 'target'), ('none', '')]]
        if rng.random() < 0.5:
            part.reverse()
        stmts = part[0] + part[1]
        ctx.write('in.s', source_of(stmts, rng))
        ctx.case('%s %d %d' % (form.name, t - nxt, pos))
        try:
            lay = model.Layout(stmts)
            image = model.assemble(stmts, lay)
        except model.Reject:
            ctx.counters['out of reach'] += 1
            expect_reject(ctx, 'in.s', '%s from $%X to $%X, out of reach' % (form.name, pos, t))
            return
        ctx.counters['within reach'] += 1
        data = expect_image(ctx, 'in.s', image, '%s from $%X to $%X' % (form.name, pos, t))
        observe(ctx, stmts, lay, data, 'reach')
    else:
        # jmp and call around a page boundary: the page is that of the next instruction
        page = rng.randrange(1, 15) << 12
        form = rng.choice([f for f in isa.FORMS if 'a12' in f.kinds])
        pos = page - rng.randrange(0, 5)
        tp = (page if pos + 2 >= page else page - 4096) + rng.choice([0, 1, 0xFFF, rng.randrange(4096)])
        stmts = [('org', tp), ('label', 'there'), ('org', pos), ('instr', form, [('name', 'there')])]
        ctx.write('in.s', source_of(stmts, rng))
        lay = model.Layout(stmts)
        data = expect_image(ctx, 'in.s', model.assemble(stmts, lay), '%s at $%X' % (form.name, pos))
        observe(ctx, stmts, lay, data, 'page boundary')


def mix(ctx, stmts, rng):
    """Puts includes between the statements."""
    out = []
    n = 0
    for st in stmts:
        out.append(st)
        if rng.random() < 0.12:
            n += 1
            k = rng.randrange(4)
            if k == 0:
                data = rng.randbytes(rng.choice([0, 1, 5, 200]))
                ctx.write('d%d.bin' % n, data)
                out.append(('raw', data, '.include bytes "d%d.bin"' % n))
            elif k == 1:
                sub = gen.Program(rng, 4, {'label': 0, 'const': 0, 'org': 0, 'cnop': 0, 'local': 0, 'instr': 0}, plain=True)
                ctx.write('s%d.s' % n, render.program(sub.stmts, render.Plain()))
                out.append(('raw', sub.image, '.include "s%d.s"' % n))
            elif k == 2:
                w, h = rng.randrange(1, 20), rng.randrange(1, 6)
                ctx.write('p%d.png' % n, png.encode(w, h, [[(0, 0, 0, 255)] * w] * h))
                row = bytearray(b'\xff' * (w // 8) + (bytes([0xFF << (8 - w % 8) & 0xFF]) if w % 8 else b''))
                out.append(('raw', bytes([w, h]) + bytes(row) * h, '.include sprite "p%d.png"' % n))
            else:
                ctx.write('h%d.h' % n, '#define LIMIT_%d %d\n' % (n, rng.randrange(100)))
                out.append(('none', '.include cpp "h%d.h"' % n))
    return out
