"""C15: sprites are converted to exact 1-bit bitmaps and masks."""
from vlib import core, pictures

TECHNIQUE = 'runtime oracle: assembled sprite bytes compared with bitmaps computed from the pixels the generated files hold'
LEVEL_NOTE = 'Every bit of the bitmaps and masks of sampled sprites of every width and height up to 300 and some larger.'
RULE = ('sprite: stills and animations of random sizes with every option; sizes: every width, and every height, from 1 to 255 and beyond '
        'where a header is impossible; large: sprites of several thousand pixels across without a header, many frames; channels: sweeps of gray values and alphas around the thresholds; same: one picture in several '
        'file formats; reject: wrong options, damaged or missing files. Distinct: file contents with options.')
ASSUMPTIONS = ['A pixel is dark if 0.3 red + 0.59 green + 0.11 blue is below 127.5 and transparent if its alpha is below 128; mask '
               'padding is set (transparent).']


def tasks(tier):
    n = 1 if tier == 'quick' else 12
    return [('sizes', 640), ('sprite', 4000 * n), ('channels', 500 * n), ('same', 250 * n), ('reject', 400 * n), ('large', 40 * n)]


def options(rng):
    """(masked, header, text)"""
    w = lambda s: rng.choice([s, s, s.upper()])  # noqa: E731
    props, masked, header = [], False, True
    t = rng.random()
    if t < 0.6:
        masked = rng.random() < 0.7
        props.append('%s="%s"' % (w('type'), 'masked' if masked else 'simple'))
    t = rng.random()
    if t < 0.5:
        header = rng.random() < 0.4
        props.append('%s%s=%s"%s"' % (w('header'), rng.choice(['', ' ']), rng.choice(['', ' ']), 'yes' if header else 'no'))
    rng.shuffle(props)
    return masked, header, ', '.join(props)


def examine(ctx, rng, picture, what, opts=None):
    masked, header, props = opts or options(rng)
    name = 'sprite' + picture.ext
    ctx.write(name, picture.data)
    lead = rng.choice([0, 0, 1, 3])
    text = ' .byte %s\n' % ', '.join(['$A5'] * lead) if lead else ''
    big = what.startswith('large')
    text += ' .include sprite "%s" %s\nend:\n %s\n' % (name, props, '.byte <end, >end' if big else '.word end')
    data, r = ctx.assemble_text(text)
    ctx.case((picture.data, masked, header))
    want = pictures.sprite(picture.rows, masked, header)
    w, h = picture.size
    info = dict(file=picture.how, size='%dx%d' % (w, h), frames=len(picture.frames), options=props)
    if want is not None and not big and lead + len(want) > 65535:
        ctx.counters['beyond the address space'] += 1
        want = None
    if want is None:
        if r.rc == 0 or r.crashed:
            raise core.Violation('%s: a sprite too large for its header was not rejected' % what, result=r.describe(), **info)
        ctx.counters['too large'] += 1
        return None
    end = lead + len(want)
    want = b'\xa5' * lead + want + bytes((end & 255, end >> 8 & 255))
    if data is None:
        raise core.Violation('%s: rejected' % what, result=r.describe(), **info)
    if data != want:
        raise core.Violation('%s: %s' % (what, core.diff(want, data)), expected=want, actual=data, **info)
    ctx.counters['masked' if masked else 'simple'] += 1
    ctx.counters['header' if header else 'no header'] += 1
    ctx.counters['pixels compared'] += w * h * len(picture.frames)
    ctx.counters['file ' + picture.how] += 1
    if len(picture.frames) > 1:
        ctx.counters['animations'] += 1
        ctx.sample({'program': text, 'info': info, 'image': core.short(data, 40)})
    return data


def run_case(ctx, kind, i, rng):
    if kind == 'sizes':
        k = 1 + i % 320
        other = rng.choice([1, 2, 7, 8, 9, 30])
        w, h = (k, other) if i < 320 else (other, k)
        palette = pictures.colours(rng, 6, rng.choice(['any', 'none']))
        picture = pictures.still(rng, pictures.fill(rng, w, h, palette))
        header = k <= 255 and rng.random() < 0.6 or rng.random() < 0.1
        masked = rng.random() < 0.5
        opts = (masked, header, ', '.join((['type="masked"'] if masked else []) + (['header="no"'] if not header else [])))
        examine(ctx, rng, picture, 'size %dx%d' % (w, h), opts)
        ctx.counters['sizes'] += 1
    elif kind == 'sprite':
        w, h = rng.choice([(rng.randrange(1, 50), rng.randrange(1, 40)), (48, 32), (rng.randrange(1, 20), rng.randrange(1, 20)),
                           (rng.randrange(1, 330), rng.randrange(1, 12))])
        palette = pictures.colours(rng, rng.choice([1, 2, 3, 10, 40]), rng.choice(['any', 'any', 'binary', 'none']))
        n = rng.choice([1, 1, 2, 3, 8])
        p = pictures.animation(rng, w, h, palette, n) if n > 1 or rng.random() < 0.3 else \
            pictures.still(rng, pictures.fill(rng, w, h, palette))
        examine(ctx, rng, p, 'sprite')
    elif kind == 'large':
        palette = pictures.colours(rng, 6, rng.choice(['any', 'none']))
        if i % 3 == 0:
            w, h = rng.choice([(256, 256), (257, 300), (1000, 300), (800, 700), (5000, 3), (3, 5000), (65535, 1), (1, 65535), (40000, 2)])
            p = pictures.still(rng, pictures.fill(rng, w, h, palette))
            opts = rng.choice([(True, False, 'header="no", type="masked"'), (False, False, 'header="no"')])
        else:
            w, h = rng.choice([(1, 1), (8, 8), (17, 3), (9, 9)])
            p = pictures.animation(rng, w, h, palette, rng.choice(pictures.MANY))
            opts = None
        examine(ctx, rng, p, 'large sprite', opts)
    elif kind == 'channels':
        # colours around the dark/light threshold, alphas around the transparent one
        w, h = rng.choice([16, 30, 64]), rng.choice([8, 20])
        rows = []
        for _ in range(h):
            row = []
            while len(row) < w:
                r, g = rng.randrange(256), rng.randrange(256)
                b = (12750 - 30 * r - 59 * g) // 11 + rng.choice([-2, -1, 0, 1, 2])
                if not 0 <= b <= 255:
                    v = rng.choice([r, 126, 127, 128, 129])
                    r, g, b = v, v, v
                if rng.random() < 0.15:
                    r, g, b = rng.choice([(255, 0, 0), (0, 255, 0), (0, 0, 255), (255, 255, 0), (0, 255, 255), (255, 0, 255)])
                c = (r, g, b, rng.choice([0, 1, 126, 127, 128, 129, 254, 255, rng.randrange(256)]))
                if pictures.tie(c):
                    continue
                row.append(c)
            rows.append(row)
        examine(ctx, rng, pictures.png(rng, rows, rng.choice([('rgba', 8), ('rgba', 16)])), 'threshold colours',
                rng.choice([(True, True, 'type="masked"'), (True, False, 'header="no", type="masked"'), (False, True, '')]))
    elif kind == 'same':
        w, h = rng.randrange(1, 40), rng.randrange(1, 20)
        gray = rng.random() < 0.5
        alpha = rng.choice(['none', 'binary'])
        palette = pictures.colours(rng, rng.choice([2, 5, 16]), alpha)
        if gray:
            palette = [(c[0], c[0], c[0], c[3]) for c in palette]
            palette = [c for c in dict.fromkeys(palette) if not pictures.tie(c)] or [(0, 0, 0, 255)]
        rows = pictures.fill(rng, w, h, palette)
        opts = options(rng)
        masked, header, props = opts
        lines, want = [], b''
        for k in range(6):
            p = pictures.still(rng, rows)
            ctx.write('p%d%s' % (k, p.ext), p.data)
            lines.append(' .include sprite "p%d%s" %s\n' % (k, p.ext, props))
            want += pictures.sprite([rows], masked, header)
            ctx.counters['file ' + p.how] += 1
        data, r = ctx.assemble_text(''.join(lines))
        ctx.case((repr(rows), masked, header))
        if data != want:
            raise core.Violation('the same pixels in different files: %s' % core.diff(want, data), result=r.describe())
        ctx.counters['same pixels in six files'] += 1
    else:
        fault = rng.choice(['missing', 'damaged', 'type', 'header', 'text', 'property', 'twice'])
        palette = pictures.colours(rng, 4)
        p = pictures.still(rng, pictures.fill(rng, 9, 9, palette))
        name = 'sprite' + p.ext
        props = ''
        if fault == 'damaged':
            p.data = p.data[:rng.randrange(min(30, len(p.data) // 2))]
        elif fault == 'type':
            props = 'type=' + rng.choice(['"mask"', '"simpl"', '1', 'masked', '""', '"masked "'])
        elif fault == 'header':
            props = 'header=' + rng.choice(['"maybe"', '0', 'no', '""', '"true"'])
        elif fault in ('property', 'twice'):
            good = rng.choice(['type="masked"', 'header="no"'])
            props = [rng.choice(['tpye="masked"', 'types="simple"', 'speed=3', 'headers="no"', 'x=1', 'header.="no"'])] if fault == 'property' else \
                [good, rng.choice([good, good.upper().replace('MASKED', 'simple').replace('NO', 'yes')])]
            if fault == 'property' and rng.random() < 0.5:
                props.insert(rng.randrange(2), good)
            props = ', '.join(props)
        elif fault == 'text':
            p.data = b' .byte 1\n'
        if fault != 'missing':
            ctx.write(name, p.data)
        data, r = ctx.assemble_text(' nop\n .include sprite "%s" %s\n nop\n' % (name, props))
        ctx.case((fault, p.data, props))
        ctx.counters['rejected: ' + fault] += 1
        if r.rc == 0 or r.crashed or not r.err.strip():
            raise core.Violation('sprite with the fault "%s" was not rejected cleanly' % fault, result=r.describe(), options=props)
