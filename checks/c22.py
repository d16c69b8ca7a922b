"""C22: image export to JSON is lossless."""
import json
from fractions import Fraction

from vlib import core, pictures

TECHNIQUE = 'runtime oracle: exported JSON parsed and compared with the pixels and delays the generated files hold'
LEVEL_NOTE = 'Every channel of every pixel and every delay of sampled images in many file formats, both styles and both destinations.'
RULE = ('still and animation: images of random sizes, colours and file formats, exported four times (compact and pretty, to a file and to '
        'standard output), and compared with the pixels; large, many: wide and high images, up to 300 frames; channels: images holding every channel value; reject: damaged or '
        'missing files. Distinct: file contents.')
ASSUMPTIONS = ['A delay is a fraction of milliseconds; for images without animation no delay is defined. 16-bit channels are '
               'compared where they are exact in 8 bits.']


def tasks(tier):
    n = 1 if tier == 'quick' else 12
    return [('still', 1500 * n), ('animation', 1500 * n), ('channels', 120 * n), ('large', 14 * n), ('many', 60 * n), ('reject', 300 * n)]


def no_constants(x):
    raise ValueError('the constant %s is not JSON' % x)


def unique(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError('duplicate keys')
    return d


def parse(data, what):
    try:
        return json.loads(data.decode('utf-8'), parse_constant=no_constants, object_pairs_hook=unique)
    except ValueError as e:
        raise core.Violation('%s: not well-formed JSON: %s' % (what, e), output=data[:500])


def compare(doc, picture, what):
    if not isinstance(doc, dict) or not isinstance(doc.get('frames'), list):
        raise core.Violation('%s: no list of frames' % what)
    if len(doc['frames']) != len(picture.frames):
        raise core.Violation('%s: %d frames instead of %d' % (what, len(doc['frames']), len(picture.frames)), file=picture.how)
    for k, (f, (delay, rows)) in enumerate(zip(doc['frames'], picture.frames)):
        got = f['rows']
        if len(got) != len(rows):
            raise core.Violation('%s: frame %d has %d rows instead of %d' % (what, k, len(got), len(rows)), file=picture.how)
        for y, (a, b) in enumerate(zip(got, rows)):
            if len(a) != len(b):
                raise core.Violation('%s: frame %d, row %d has %d pixels instead of %d' % (what, k, y, len(a), len(b)),
                                     file=picture.how)
            for x, (c, d) in enumerate(zip(a, b)):
                v = (c.get('red'), c.get('green'), c.get('blue'), c.get('alpha'))
                if v != d:
                    raise core.Violation('%s: frame %d, pixel (%d, %d) is %s instead of %s' % (what, k, x, y, v, d),
                                         file=picture.how)
        if delay is not None:
            d = f['delay']
            if not (isinstance(d, list) and len(d) == 2 and d[1] and Fraction(d[0], d[1]) == delay):
                raise core.Violation('%s: the delay of frame %d is %s instead of %s ms' % (what, k, d, delay), file=picture.how)


def export(ctx, name, style, to_file):
    if to_file:
        ctx.write('out.json', b'x' * 100000 if to_file == 'replace' else b'')
        r = ctx.run('image', name, '-f', style, '-o', 'out.json')
        data = ctx.read('out.json')
    else:
        r = ctx.run('image', name, '-f', style)
        data = r.out
    return data, r


def examine(ctx, rng, picture, what):
    name = rng.choice(['', 'dir/', 'a dir/']) + 'picture' + picture.ext
    ctx.write(name, picture.data)
    ctx.case(picture.data)
    docs = []
    for style, to_file in [('json', False), ('json-pretty', False), ('json', 'replace'), ('json-pretty', True)]:
        data, r = export(ctx, name, style, to_file)
        if r.rc != 0:
            raise core.Violation('%s: exporting as %s failed' % (what, style), result=r.describe(), file=picture.how)
        label = '%s as %s%s' % (what, style, ' to a file' if to_file else '')
        doc = parse(data, label)
        if not docs:
            compare(doc, picture, label)
        elif doc != docs[0]:
            raise core.Violation('%s: the data differ from the compact form on standard output' % label, file=picture.how)
        docs.append(doc)
        ctx.counters['documents'] += 1
    w, h = picture.size
    ctx.counters['pixels compared'] += 4 * w * h * len(picture.frames)
    ctx.counters['frames'] += len(picture.frames)
    ctx.counters['delays compared'] += sum(1 for d, _ in picture.frames if d is not None)
    ctx.counters['file ' + picture.how] += 1
    if w * h < 5:
        ctx.sample({'file': picture.how, 'document': docs[0]})


def run_case(ctx, kind, i, rng):
    if kind == 'reject':
        p = pictures.still(rng, pictures.fill(rng, 5, 4, pictures.colours(rng, 3)))
        fault = rng.choice(['missing', 'short', 'junk', 'directory'])
        name = 'picture' + p.ext
        if fault == 'short':
            ctx.write(name, p.data[:rng.randrange(min(len(p.data) // 2, 30))])
        elif fault == 'junk':
            ctx.write(name, rng.randbytes(100))
        elif fault == 'directory':
            ctx.write(name + '/x', b'')
        ctx.case((fault, p.data))
        ctx.counters['rejected: ' + fault] += 1
        for args in (['image', name, '-f', rng.choice(['json', 'json-pretty'])], ['image', name, '-f', 'json', '-o', 'out.json']):
            r = ctx.run(*args)
            if r.rc == 0 or r.crashed or not r.err.strip() or r.out or ctx.read('out.json') is not None:
                raise core.Violation('an unreadable image (%s) was not rejected cleanly' % fault, result=r.describe(), file=p.how)
        return
    if kind == 'channels':
        # all 256 values in each channel
        vals = [list(range(256)) for _ in range(4)]
        for v in vals:
            rng.shuffle(v)
        flat = list(zip(*vals))
        if rng.random() < 0.4:
            flat = [c[:3] + (255,) for c in flat]
        elif rng.random() < 0.3:
            flat = [(c[0],) * 3 + (c[3],) for c in flat]
        w = rng.choice([16, 1, 256, 32])
        p = pictures.still(rng, [flat[k:k + w] for k in range(0, 256, w)])
        return examine(ctx, rng, p, 'channel values')
    w, h = rng.choice([(1, 1), (2, 2), (rng.randrange(1, 40), rng.randrange(1, 40)), (32, 32), (rng.randrange(1, 300), 2),
                       (2, rng.randrange(1, 300))])
    if kind == 'large':
        w, h = [(300, 260), (72, 700), (1000, 70), (5000, 1), (1, 5000), (65535, 1), (1, 65535)][i % 7]
    palette = pictures.colours(rng, rng.choice([1, 2, 5, 30, 200, 300]), rng.choice(['any', 'binary', 'none']))
    if kind == 'many':
        examine(ctx, rng, pictures.animation(rng, min(w, 7), min(h, 5), palette, rng.choice(pictures.MANY)), 'animation of many frames')
    elif kind == 'animation':
        examine(ctx, rng, pictures.animation(rng, min(w, 40), min(h, 40), palette, rng.choice([1, 2, 3, 12])), 'animation')
    else:
        if rng.random() < 0.15:
            palette = [(c[0],) * 3 + (255,) for c in palette]
        examine(ctx, rng, pictures.still(rng, pictures.fill(rng, w, h, palette)), 'still image')
