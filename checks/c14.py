"""C14: icons and eyecatches are converted to the exact VMU header format."""
from vlib import core, pictures

TECHNIQUE = 'runtime oracle: icon headers in assembled images are decoded and compared with the pixels the generated files hold'
LEVEL_NOTE = 'Every byte and every pixel of the headers of sampled icons and eyecatches in many file formats.'
RULE = ('icon: still and animated icons with and without eyecatches among other statements, at the limits of the colour counts; '
        'many: up to 300 frames; colours: every 8-bit channel value in every channel; reject: one image of the wrong size, with too many colours, '
        'damaged, missing or with a bad speed. Distinct: image contents with options.')
ASSUMPTIONS = ['The order of the palette entries and the content of unused entries are free; a channel is quantised to the '
               'nearest of its 16 levels.']


def tasks(tier):
    n = 1 if tier == 'quick' else 12
    return [('icon', 3000 * n), ('many', 40 * n), ('colours', 24 * n), ('reject', 1000 * n)]


def make_icon(rng, count=None, size=(32, 32), frames=None):
    w, h = size
    style = rng.choice(['any', 'binary', 'none'])
    count = count or rng.choice([1, 2, 3, 8, 15, 16, 16])
    palette = pictures.colours(rng, count, style, rng.random() < 0.6)
    n = frames or rng.choice([1, 1, 1, 2, 3, 9])
    if n > 1 or rng.random() < 0.4:
        return pictures.animation(rng, w, h, palette, n)
    return pictures.still(rng, pictures.fill(rng, w, h, palette))


def make_eyecatch(rng, size=(72, 56), alpha=None):
    w, h = size
    count = rng.choice([1, 5, 16, 17, 17, 100, 255, 256, 257, 257, 1500])
    palette = pictures.colours(rng, count, alpha or rng.choice(['any', 'binary', 'none']), count > 300 or rng.random() < 0.7)
    if rng.random() < 0.15:
        return pictures.animation(rng, w, h, palette[:200], rng.choice([1, 2]))
    rows = pictures.fill(rng, w, h, palette)
    if rng.random() < 0.6:
        # all of them are there
        flat = [c for row in rows for c in row]
        places = rng.sample(range(w * h), min(len(palette), w * h))
        for p, c in zip(places, palette):
            flat[p] = c
        rows = [flat[y * w:(y + 1) * w] for y in range(h)]
    return pictures.still(rng, rows)


SPEEDS = ['0', '1', '10', '5 * 3', '$ff', '65535', '%1010', '(2 + 3) * 4', '300 / 7', "1'000"]


def speed_value(text):
    return eval(text.replace("'", '').replace('$', '0x').replace('%1', '0b1').replace('/', '//'))  # noqa: S307 - our own constants


def statement(rng, icon, eyecatch, speed):
    w = lambda s: rng.choice([s, s, s.upper()])  # noqa: E731
    props = []
    if speed is not None:
        props.append('%s%s=%s%s' % (w('speed'), rng.choice(['', ' ']), rng.choice(['', ' ']), speed))
    if eyecatch is not None:
        props.append('%s = "%s"' % (w('eyecatch'), eyecatch))
    rng.shuffle(props)
    return ' %s %s "%s" %s' % (w('.include'), w('icon'), icon, ', '.join(props))


def run_case(ctx, kind, i, rng):
    if kind == 'colours':
        # 16 colours at a time, so that the icon has no more
        base = [rng.randrange(256) for _ in range(4)]
        ch = i % 3
        values = [(i // 3 % 8) * 32 + x for x in range(32)]
        rows = []
        for y in range(32):
            row = []
            for x in range(32):
                c = list(base)
                c[3] = 255
                c[ch] = values[x]
                row.append(tuple(c))
            rows.append(row)
        # quantised, 32 values are at most four
        picture = pictures.still(rng, rows)
        return accept(ctx, rng, picture, None, None, 'channel values')
    if kind == 'icon':
        icon = make_icon(rng)
        eyecatch = make_eyecatch(rng) if rng.random() < 0.6 else None
        speed = rng.choice(SPEEDS + [str(rng.randrange(65536))]) if rng.random() < 0.6 else None
        return accept(ctx, rng, icon, eyecatch, speed, 'icon')
    if kind == 'many':
        # many frames
        frames = rng.choice(pictures.MANY[i % 3:])
        icon = make_icon(rng, frames=frames)
        if rng.random() < 0.6:
            palette = pictures.colours(rng, rng.choice([2, 16, 16, 17]), rng.choice(['any', 'binary', 'none']), True)
            icon = pictures.late(rng, 32, 32, palette, frames)
        return accept(ctx, rng, icon, make_eyecatch(rng) if rng.random() < 0.3 else None, rng.choice([None, '300']), 'icon with many frames')
    fault = rng.choice(['size', 'colours', 'eyecatch size', 'missing', 'eyecatch missing', 'damaged', 'eyecatch damaged', 'speed', 'property', 'eyecatch property',
                        'one frame too colourful'])
    icon, eyecatch, speed = make_icon(rng, frames=1), make_eyecatch(rng), None
    present = {'icon', 'eyecatch'}
    if fault == 'size':
        size = rng.choice([(31, 32), (32, 31), (33, 32), (32, 33), (64, 64), (16, 64), (1, 1), (72, 56), (32, 16)])
        icon = make_icon(rng, size=size)
    elif fault == 'colours':
        palette = pictures.colours(rng, rng.choice([17, 18, 30]))
        rows = [[c] for c in palette]
        flat = [rng.choice(palette[:16]) for _ in range(1024)]
        for p, c in zip(rng.sample(range(1024), len(palette)), palette):
            flat[p] = c
        rows = [flat[y * 32:y * 32 + 32] for y in range(32)]
        icon = pictures.still(rng, rows)
    elif fault == 'one frame too colourful':
        palette = pictures.colours(rng, 17, 'none')
        sets = [palette[:10]] * rng.randrange(1, 4) + [palette[6:]]
        icon = pictures.apng(rng, 32, 32, lambda fw, fh: pictures.fill(rng, fw, fh, sets.pop(0) if len(sets) > 1 else sets[0]),
                             len(sets))
    elif fault == 'eyecatch size':
        eyecatch = make_eyecatch(rng, size=rng.choice([(71, 56), (72, 55), (73, 56), (72, 57), (32, 32), (56, 72), (36, 112)]))
    elif fault.endswith('missing'):
        present.discard('eyecatch' if fault.startswith('eyecatch') else 'icon')
    elif fault.endswith('damaged'):
        p = eyecatch if fault.startswith('eyecatch') else icon
        if p.how == 'pgm' or p.how == 'ppm' or rng.random() < 0.5:
            p.data = p.data[:rng.randrange(min(len(p.data) // 2, 40))]
        else:
            p.data = rng.randbytes(200)
    elif fault.endswith('property'):
        pass
    else:
        speed = rng.choice(['65536', '-1', '100000', '1 / 0', 'unknown', '"10"'])
    if fault in ('size', 'colours', 'one frame too colourful', 'eyecatch size') and pictures.icon_ok(icon, eyecatch):
        ctx.counters['fault did not come about'] += 1
        return
    use_eye = fault.startswith('eyecatch') or rng.random() < 0.3
    if 'icon' in present:
        ctx.write('icon' + icon.ext, icon.data)
    if 'eyecatch' in present:
        ctx.write('eye' + eyecatch.ext, eyecatch.data)
    st = statement(rng, 'icon' + icon.ext, 'eye' + eyecatch.ext if use_eye else None, speed)
    if fault == 'property':
        st += (', ' if use_eye else '') + rng.choice(['sped=3', 'header="no"', 'x="y"', 'eyecatches="eye%s"' % eyecatch.ext, 'speed=1, speed=2', 'speed=1, SPEED=1'])
    elif fault == 'eyecatch property':
        st = ' .include icon "icon%s" eyecatch=%s' % (icon.ext, rng.choice(['1', 'eye', '0', '1+1', '<5', '-1']))
    ctx.write('in.s', ' nop\n%s\n nop\n' % st)
    ctx.case((fault, icon.data, eyecatch.data if use_eye else 0, speed))
    ctx.counters['rejected: ' + fault] += 1
    data, r = ctx.assemble()
    if r.rc == 0 or r.crashed or not r.err.strip():
        raise core.Violation('icon with the fault "%s" was not rejected cleanly' % fault, result=r.describe(), icon=icon.how,
                             eyecatch=eyecatch.how)


def accept(ctx, rng, icon, eyecatch, speed, what):
    sub = rng.choice(['', '', 'pics/', 'some dir/'])
    ctx.write(sub + 'icon' + icon.ext, icon.data)
    if eyecatch is not None:
        ctx.write(sub + 'eye' + eyecatch.ext, eyecatch.data)
    ok = pictures.icon_ok(icon, eyecatch)
    before = rng.randrange(4)
    times = rng.choice([1, 1, 1, 2])
    st = statement(rng, sub + 'icon' + icon.ext, sub + 'eye' + eyecatch.ext if eyecatch else None, speed)
    text = ''.join(' .byte $%02X\n' % (0xA0 + k) for k in range(before)) + (st + '\n .byte $5A\n') * times + 'end: .byte <end, >end\n'
    if rng.random() < 0.2:
        # a nested file: paths are relative to it
        ctx.write(sub + 'inc.i', statement(rng, 'icon' + icon.ext, 'eye' + eyecatch.ext if eyecatch else None, speed) + '\n')
        text = text.replace(st, ' .include "%sinc.i"' % sub)
    text = text.replace('end: .byte', 'end:\n .byte')
    data, r = ctx.assemble_text(text)
    ctx.case((icon.data, eyecatch.data if eyecatch else 0, speed))
    describe = dict(icon=icon.how, eyecatch=eyecatch.how if eyecatch else None, program=text)
    if not ok:
        if r.rc == 0 or r.crashed:
            raise core.Violation('%s: a wrong image was not rejected' % what, result=r.describe(), **describe)
        ctx.counters['rejected'] += 1
        return
    if data is None:
        raise core.Violation('%s: rejected' % what, result=r.describe(), **describe)
    n = pictures.icon_length(icon, eyecatch)
    total = before + times * (n + 1)
    if len(data) != total + 2:
        raise core.Violation('%s: the image has %d bytes instead of %d' % (what, len(data), total + 2), **describe)
    if data[:before] != bytes(range(0xA0, 0xA0 + before)) or data[total:] != bytes((total & 255, total >> 8 & 255)):
        raise core.Violation('%s: surrounding statements are wrong' % what, data=data, **describe)
    for k in range(times):
        p = before + k * (n + 1)
        problem = pictures.check_icon(data[p:p + n], icon, 10 if speed is None else speed_value(speed), eyecatch)
        if problem:
            raise core.Violation('%s: %s' % (what, problem), header=data[p:p + 64], **describe)
        if data[p + n] != 0x5A:
            raise core.Violation('%s: the next statement is wrong' % what, **describe)
    ctx.counters['pixels compared'] += times * (1024 * len(icon.frames) + (4032 if eyecatch else 0))
    ctx.counters['frames %d' % len(icon.frames)] += 1
    ctx.counters['eyecatch type %d' % pictures.eyecatch_type(eyecatch)] += 1
    ctx.counters['file ' + icon.how] += 1
    if eyecatch:
        ctx.counters['file ' + eyecatch.how] += 1
    ctx.sample({'program': text, 'icon': icon.how, 'eyecatch': eyecatch.how if eyecatch else None, 'header': core.short(data, 64)})
