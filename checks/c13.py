"""C13: the disassembly classifies exactly the reachable code as instructions."""
import re

from checks.c12 import TYPES, disassemble
from vlib import core, dis, isa

TECHNIQUE = 'runtime trace oracle: listings with positions parsed and compared with an independent reachability model'
LEVEL_NOTE = 'Complete comparison of every line of the listings of sampled images, overlapping code included.'
RULE = ('built: images with generated code; mutated: the same with some bytes changed, so that code overlaps, leaves the image or '
        'runs into data; random: short random images; shape: large images, see C12; switch: firmware switches followed by jumps, with look-alikes. Every '
        'instruction, operand, datum, label and annotation is compared. Distinct: images.')
ASSUMPTIONS = ['A jump after the firmware switch is reached only from the switch; annotations list fall-through predecessors too.']


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    return [('built', 1300 * n), ('mutated', 1300 * n), ('random', 1500 * n), ('switch', 700 * n), ('large', 12 * n),
            ('shape', 150 * n)]


HEX = re.compile(r'\b[0-9A-F]{4,5}\b')


def examine(ctx, image, typ, what):
    reach = dis.Reach(image, dis.ENTRIES[typ or 'raw'])
    if reach.ambiguous or reach.outside:
        ctx.counters['not defined'] += 1
        return
    arrived = len(image) % 4 != 3
    text, r = disassemble(ctx, image, typ, '-p', *(['-a'] if arrived else []))
    ctx.case((typ, image), len(reach.instrs) > 2)
    if reach.cut is not None:
        ctx.counters['cut off'] += 1
        if r.rc == 0 or r.crashed or text is not None:
            raise core.Violation('%s: reachable instruction at $%X is cut off, but disassembly does not fail cleanly'
                                 % (what, reach.cut), result=r.describe(), type=typ)
        return
    if r.rc != 0 or text is None:
        raise core.Violation('%s: disassembly failed' % what, result=r.describe(), type=typ)
    text = text.decode('utf-8')
    fail = lambda msg: core.Violation('%s: %s' % (what, msg), type=typ, listing=text[:3000])  # noqa: E731
    lst = dis.Listing(text)
    if lst.problems:
        raise fail(lst.problems[0])
    extra = sorted(set(lst.instrs) - set(reach.instrs))
    missing = sorted(set(reach.instrs) - set(lst.instrs))
    if extra or missing:
        raise fail('instructions at %s are not reachable' % ['%04X' % p for p in extra] if extra else
                   'reachable instructions at %s are not listed' % ['%04X' % p for p in missing])
    if lst.order != sorted(lst.order):
        raise fail('positions are not in order')
    names = dict(lst.equs)
    for n in lst.labels:
        if n in names:
            raise fail('label %s is also a constant' % n)
    names.update(lst.labels)
    for n, p in lst.labels.items():
        h = HEX.findall(n.upper().replace('_', ' '))
        if h and int(h[-1], 16) != p:
            raise fail('label %s stands at %04X' % (n, p))
        if p not in reach.instrs:
            raise fail('label %s stands on data' % n)
    overlapping = reach.overlap
    for p, (form, vals) in reach.instrs.items():
        mnem, ops, comment = lst.instrs[p]
        if mnem != form.mnemonic or len(ops) != len(form.kinds):
            raise fail('at %04X: expected %s, listed %s %s' % (p, form, mnem, ops))
        for k, op, v in zip(form.kinds, ops, vals):
            t = op
            if k == 'ri':
                if t != '@r%d' % v:
                    raise fail('at %04X: register %d is listed as %s' % (p, v, op))
                continue
            if k == 'i8':
                if not t.startswith('#'):
                    raise fail('at %04X: immediate is listed as %s' % (p, op))
                t = t[1:]
            x = dis.value(t, names)
            if x != v:
                raise fail('at %04X: operand %s is listed as %s, which is %s instead of %s' % (p, k, op, x, v))
            if k in isa.TARGET_KINDS:
                ctx.counters['targets compared'] += 1
                if v in reach.instrs and p not in reach.firmware and t not in lst.labels:
                    raise fail('at %04X: the target %04X has no label' % (p, v))
                if p in reach.firmware and t in lst.labels:
                    raise fail('at %04X: the jump into the firmware is shown as one to the label %s' % (p, t))
        if arrived:
            want = {q for q in reach.preds.get(p, ()) if q not in reach.firmware}
            got = {int(h, 16) for h in HEX.findall(comment)}
            if got != want:
                raise fail('at %04X: arrived from %s, annotated %s' % (p, sorted(want), sorted(got)))
            ctx.counters['annotations compared'] += len(want)
    code = reach.code()
    for p, b in lst.data.items():
        if p in code:
            raise fail('byte %04X is listed as data, but is code' % p)
        if p >= len(image) or image[p] != b:
            raise fail('data byte %04X is listed as %s' % (p, b))
    for p, b in enumerate(image):
        if b and p not in code and p not in lst.data:
            raise fail('data byte %04X is not listed' % p)
    ctx.counters['instructions'] += len(reach.instrs)
    ctx.counters['data bytes'] += len(lst.data)
    ctx.counters['images with overlaps'] += overlapping
    ctx.counters['firmware jumps'] += len(reach.firmware)
    for f, _ in reach.instrs.values():
        ctx.counters['instr ' + f.name] += 1
    if len(reach.instrs) > 8:
        ctx.sample({'type': typ, 'image': core.short(image, 50), 'listing': text[:600]})


def sample(kind, rng):
    """An image, the type to disassemble it as, and what it is."""
    typ = rng.choice(TYPES)
    entries = dis.ENTRIES[typ or 'raw']
    if kind in ('built', 'mutated', 'large'):
        size = rng.choice([3, 12, 60, 0x140, 300, 0x205, 900]) + rng.randrange(5) if kind != 'large' else \
            rng.choice([8192, 32768, 65535, 65536])
        image = None
        while image is None:
            image = dis.image(rng, size, entries, rng.choice([0.3, 1]), rng.choice([0, 0.05, 0.3]))
        if kind == 'mutated':
            image = bytearray(image)
            for _ in range(rng.choice([1, 1, 2, 5, 20])):
                image[rng.randrange(len(image))] = rng.randrange(256)
            image = bytes(image)
            if rng.random() < 0.2:
                image = image[:rng.randrange(len(image))]
        return image, typ, kind + ' image'
    elif kind == 'shape':
        image, what = dis.shape(rng)
        return image, typ, 'large image (%s)' % what
    elif kind == 'random':
        image = rng.randbytes(rng.choice([0, 1, 2, 5, 20, 80, 400]))
        if rng.random() < 0.5:
            # fewer ways to leave the image
            image = bytes(b if b not in (0x20, 0x21, 0x10, 0x11) and rng.random() < 0.9 else 0xA0 for b in image)
        return image, typ, 'random image'
    else:
        # firmware switches and what looks like them
        image = bytearray([0xA0] * 0x200)
        p = 0x150
        for e in rng.sample(entries, rng.randrange(1, 5)):
            if e + 3 in (0x0B, 0x13):
                continue
            if rng.random() < 0.2:
                # directly at the entry point
                code = dis.SWITCH + isa.BY_MNEMONIC['jmpf'][0].encode([rng.choice([0, 0x150, 0x1A0, 0xF000])], 0)
                image[e:e + 5] = code
                continue
            j = isa.BY_MNEMONIC['jmpf'][0].encode([p], e)
            if any(x in entries for x in range(e + 1, e + 3)):
                continue
            image[e:e + 3] = j
            a = rng.choice([[0x10D, 0], [0x10D, 0], [0x10D, rng.randrange(1, 8)], [0x0D, 0], [0x10C, 0], [rng.randrange(512), 0]])
            f = rng.choice(['not1', 'not1', 'not1', 'set1', 'clr1'])
            code = isa.BY_MNEMONIC[f][0].encode(a, p)
            if rng.random() < 0.25:
                code += b'\0'
            t = rng.choice([0x1A0, 0x1B0, 0x1C3, 0, 0x130, 0xF000, rng.randrange(0x150, 0x200)])
            m = rng.choice(['jmpf', 'jmpf', 'jmpf', 'jmp', 'callf', 'br'])
            if m == 'br':
                t = min(max(t, p), p + 100)
            elif m == 'jmp':
                t &= 0xFFF
            x = isa.BY_MNEMONIC[m][0].encode([t], p + len(code))
            if x is None:
                continue
            code += x
            image[p:p + len(code)] = code
            p += len(code) + rng.randrange(3)
            if p > 0x190:
                break
        return bytes(image), typ, 'firmware switch'


def run_case(ctx, kind, i, rng):
    examine(ctx, *sample(kind, rng))
