"""C23: generated assembly equals what including the image gives."""
import os
import re

from checks.c14 import make_eyecatch, make_icon
from vlib import core, pictures

TECHNIQUE = 'runtime differential oracle: text printed by the icon and image commands is assembled and compared with the include of the same image'
LEVEL_NOTE = 'Whole images of sampled pictures, correct and incorrect, in many file formats, options and file names.'
RULE = ('icon and image: the printed text, to standard output and to a file, assembled without edits, against a program that includes the '
        'image with the equivalent options; names: unusual file names and arguments, which the text mentions in comments; reject: '
        'images that one of the two refuses. The comments of the printed texts and of expanded includes are compared with the facts. Distinct: file contents with options.')
ASSUMPTIONS = ['A text that the assembler refuses counts as refused, too.']

NAMES = ['a b', 'semi;colon', "qu'ote", 'hash#1', 'p%c', 'ünïcode✓', 'new\nline', 'cr\rname', 'nl\n .byte 1\n', 'tab\tname', 'nel\u0085x',
         'ls\u2028x', 'ff\fx', 'vt\vx', '-dash', 'back\\slash', 'q"uote', '{}', 'a,b', 'crlf\r\n nop', '*/', '\u00a0', 'end\n']


def tasks(tier):
    n = 1 if tier == 'quick' else 12
    return [('icon', 350 * n), ('image', 450 * n), ('names', 160 * n), ('many', 40 * n), ('reject', 250 * n)]


def assemble(ctx, text, name):
    ctx.write(name, text)
    data, r = ctx.assemble(name, 'out-%s.bin' % name)
    if r.crashed:
        raise core.Violation('assembling crashed', result=r.describe())
    return data, r


def generated(ctx, args, to_file, what):
    """The bytes that the generated text assembles to, or None."""
    if to_file:
        r = ctx.run(*args, '-o', 'gen.s')
        text = ctx.read('gen.s')
    else:
        r = ctx.run(*args)
        text = r.out
    if r.crashed:
        raise core.Violation('%s: the command crashed' % what, result=r.describe())
    if r.rc != 0:
        if (text if to_file else text.strip()):
            raise core.Violation('%s: refused, but there is output' % what, result=r.describe())
        return None, r, ''
    if text is None:
        raise core.Violation('%s: success without output' % what, result=r.describe())
    data, r2 = assemble(ctx, text, 'generated.s')
    ctx.counters['generated texts assembled'] += 1
    return data, r2, text.decode('utf-8', 'replace')


FRAME = re.compile(r'Frame\s+(\d+)$')


def names_file(ctx, stated, name):
    return os.path.realpath(os.path.join(ctx.dir, stated)) == os.path.realpath(ctx.path(name))


def facts(ctx, text, what, files, frames, speed=None, eyecatch=None, size=None, masked=None, header=None):
    """What the comments of a listing say is true.

    files: those mentioned, in order; eyecatch: its type."""
    def fail(why, line):
        raise core.Violation('%s: a comment of the listing states %s' % (what, why), line=line, text=text[:3000])

    lines = text.split('\n')
    marks, rows = [], 0
    about = []
    for line in lines:
        if not line.lstrip().startswith(';'):
            if line.lstrip().lower().startswith('.byte'):
                rows += 1
            continue
        c = line.strip().lstrip('; ')
        if 'waterbear' in c and 'Frames' not in c and '"' not in c:
            continue
        for key, want in (('Frames', frames), ('Speed', speed), ('Width', size and size[0]), ('Height', size and size[1])):
            m = re.search(r'\b%s:\s*(\d+)' % key, c)
            if m and want is not None:
                ctx.counters['facts compared'] += 1
                if int(m.group(1)) != want:
                    fail('%s %s instead of %d' % (key, m.group(1), want), line)
        m = re.match(r'Eyecatch type is (\d)', c)
        if m and eyecatch is not None:
            ctx.counters['facts compared'] += 1
            kinds = [k for k, w in ((0, r'\bno\b'), (1, r'true.?colou?r'), (2, r'\b256\b'), (3, r'\b16.colou?r')) if re.search(w, c)]
            if int(m.group(1)) != eyecatch or kinds and kinds != [eyecatch]:
                fail('another type of eyecatch than %d' % eyecatch, line)
        m = re.match(r'(Palette for |Pixel data for |Sprite |)"(.*)"', c)
        if m:
            about.append((m.group(1).strip(), m.group(2), line))
        m = re.search(r'\((simple|masked), (include|exclude) header\)$', c)
        if m and masked is not None:
            ctx.counters['facts compared'] += 1
            if m.groups() != ('masked' if masked else 'simple', 'include' if header else 'exclude'):
                fail('other options', line)
        m = FRAME.match(c)
        if m:
            marks.append((int(m.group(1)), rows))
    plain = [f for f in files if not re.search(r'[\x00-\x1f\x85\u2028"]', f)]
    if plain == files:
        for kind in {k for k, _, _ in about}:
            mine = [(n, line) for k, n, line in about if k == kind]
            for k, (n, line) in enumerate(mine):
                ctx.counters['facts compared'] += 1
                if k >= len(files) or not names_file(ctx, n, files[k]):
                    fail('another file than the %s' % (files[k:k + 1] or ['none']), line)
    if marks:
        ctx.counters['frame markers compared'] += len(marks)
        if [n for n, _ in marks] != list(range(1, frames + 1)) or [r - marks[0][1] for _, r in marks] != [32 * k for k in range(frames)]:
            fail('frames other than 1 to %d' % frames, repr(marks))


def expanded(ctx, name):
    """The expanded source, or None."""
    r = ctx.run('expand', name)
    return r.out.decode('utf-8', 'replace') if r.rc == 0 else None


def judge(ctx, included, inc_result, gen, gen_result, text, what, **info):
    if included is None and gen is None:
        ctx.counters['refused by both'] += 1
        return
    if gen != included:
        if gen is None:
            msg = 'the include is accepted, but the generated text is not'
        elif included is None:
            msg = 'the include is refused, but the generated text is accepted'
        else:
            msg = core.diff(included, gen)
        raise core.Violation('%s: %s' % (what, msg), include=inc_result.describe(), generated=gen_result.describe(), text=text[:2000],
                             **info)
    ctx.counters['equal'] += 1
    ctx.counters['bytes compared'] += len(gen)


def quote(name):
    out = ''
    for c in name:
        out += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t'}.get(c, c)
    return '"%s"' % out


def icon(ctx, rng, picture, eyecatch, what, name='icon', eyename='eye', dash=None):
    name, eyename = name + picture.ext, eyename + (eyecatch.ext if eyecatch else '')
    ctx.write(name, picture.data)
    props, args = [], []
    if eyecatch:
        ctx.write(eyename, eyecatch.data)
        props.append('eyecatch=%s' % quote(eyename))
        args += ['%s%s' % (rng.choice(['-e', '--eyecatch=']), eyename)]
    speed = rng.choice([None, 0, 1, 10, 11, 255, 256, 65535, rng.randrange(65536)])
    if speed is not None:
        props.append('speed=%d' % speed)
        args += rng.choice([['-s', str(speed)], ['--speed', str(speed)], ['-s%d' % speed], ['--speed=%d' % speed]])
    ctx.case((picture.data, eyecatch.data if eyecatch else 0, speed, name))
    inc, r = assemble(ctx, ' .include icon %s %s\n' % (quote(name), ', '.join(props)), 'include.s')
    if name.startswith('-'):
        cmd = ['icon'] + args + ['--', name]
    else:
        cmd = rng.choice([['icon', name] + args, ['icon'] + args + [name]])
    gen, r2, text = generated(ctx, cmd, False, what)
    judge(ctx, inc, r, gen, r2, text, what, file=picture.how, eyecatch=eyecatch.how if eyecatch else None)
    ctx.counters['icons'] += 1
    if inc is not None and gen is not None:
        known = dict(frames=len(picture.frames), speed=10 if speed is None else speed,
                     eyecatch=pictures.eyecatch_type(eyecatch))
        files = [name] + [eyename] * bool(eyecatch)
        facts(ctx, text, what, files, **known)
        if rng.random() < 0.4:
            listing = expanded(ctx, 'include.s')
            if listing is not None:
                facts(ctx, listing, what + ', expanded', files, **known)
    if gen and len(text) < 9000:
        ctx.sample({'command': cmd, 'text': text[:500], 'image': core.short(gen, 40)})


def image(ctx, rng, picture, what, name='image'):
    name += picture.ext
    ctx.write(name, picture.data)
    masked = rng.random() < 0.5
    ctx.case((picture.data, masked, name))
    inc, r = assemble(ctx, ' .include sprite %s type="%s"\n' % (quote(name), 'masked' if masked else 'simple'), 'include.s')
    fmt = ['-f', '1bit-asm-masked' if masked else '1bit-asm']
    if not masked and rng.random() < 0.3:
        fmt = []
    elif rng.random() < 0.2:
        fmt = ['--format=' + fmt[1]]
    args = ['image'] + fmt + (['--'] if name.startswith('-') else []) + [name]
    if name.startswith('-'):
        to_file = False
    else:
        to_file = rng.random() < 0.5
    gen, r2, text = generated(ctx, args, to_file, what)
    judge(ctx, inc, r, gen, r2, text, what, file=picture.how, masked=masked)
    ctx.counters['sprites'] += 1
    if inc is not None and gen is not None:
        size = (len(picture.rows[0][0]), len(picture.rows[0])) if picture.rows and picture.rows[0] else None
        facts(ctx, text, what, [name], len(picture.frames), size=size, masked=masked, header=True)
        header = rng.random() < 0.5
        ctx.write('include.s', ' .include sprite %s type="%s", header="%s"\n'
                  % (quote(name), 'masked' if masked else 'simple', 'yes' if header else 'no'))
        listing = expanded(ctx, 'include.s')
        if listing is not None:
            facts(ctx, listing, what + ', expanded', [name], len(picture.frames), size=size, masked=masked, header=header)
    if gen is not None and inc is not None:
        want = pictures.sprite(picture.rows, masked, True)
        if gen != want:
            raise core.Violation('%s: %s' % (what, core.diff(want, gen)), file=picture.how)


def some_picture(rng, limit=60):
    w, h = rng.randrange(1, limit), rng.randrange(1, limit)
    palette = pictures.colours(rng, rng.choice([1, 2, 5, 40]), rng.choice(['any', 'binary', 'none']))
    n = rng.choice([1, 1, 1, 2, 5])
    if n > 1 or rng.random() < 0.3:
        return pictures.animation(rng, w, h, palette, n)
    return pictures.still(rng, pictures.fill(rng, w, h, palette))


def run_case(ctx, kind, i, rng):
    if kind == 'icon':
        icon(ctx, rng, make_icon(rng), make_eyecatch(rng) if rng.random() < 0.5 else None, 'icon')
    elif kind == 'image':
        image(ctx, rng, some_picture(rng), 'image')
    elif kind == 'many':
        frames = rng.choice(pictures.MANY)
        if rng.random() < 0.4:
            icon(ctx, rng, make_icon(rng, frames=frames), None, 'icon with many frames')
        else:
            w, h = rng.choice([(1, 1), (8, 3), (17, 5)])
            image(ctx, rng, pictures.animation(rng, w, h, pictures.colours(rng, 5, 'any'), frames), 'image with many frames')
    elif kind == 'names':
        name = rng.choice(NAMES) if i >= len(NAMES) else NAMES[i]
        if rng.random() < 0.3:
            name = rng.choice(NAMES).strip('-') + name
        if rng.random() < 0.6:
            icon(ctx, rng, make_icon(rng), make_eyecatch(rng) if rng.random() < 0.5 else None, 'icon named %r' % name, name,
                 rng.choice(NAMES))
        else:
            image(ctx, rng, some_picture(rng, 10), 'image named %r' % name, name)
        ctx.counters['unusual names'] += 1
    else:
        fault = rng.choice(['icon size', 'icon colours', 'eyecatch size', 'wide', 'high', 'damaged', 'empty'])
        if fault == 'icon size':
            size = rng.choice([(31, 32), (32, 31), (33, 32), (64, 64), (72, 56), (1, 1)])
            icon(ctx, rng, make_icon(rng, size=size), None, fault)
        elif fault == 'icon colours':
            icon(ctx, rng, make_icon(rng, count=rng.choice([16, 17, 40])), None, fault)
        elif fault == 'eyecatch size':
            size = rng.choice([(71, 56), (72, 55), (73, 56), (72, 57), (32, 32), (56, 72)])
            icon(ctx, rng, make_icon(rng), make_eyecatch(rng, size=size), fault)
        elif fault in ('wide', 'high'):
            k = rng.choice([254, 255, 256, 257, 300, 512])
            size = (k, rng.randrange(1, 9)) if fault == 'wide' else (rng.randrange(1, 9), k)
            image(ctx, rng, pictures.still(rng, pictures.fill(rng, *size, pictures.colours(rng, 3))), fault)
        else:
            p = make_icon(rng)
            p.data = p.data[:rng.randrange(len(p.data))] if fault == 'damaged' else b''
            p.frames = [(None, p.frames[0][1])]
            inc_ok = rng.random() < 0.5
            if inc_ok:
                icon(ctx, rng, p, None, fault)
            else:
                name = 'image' + p.ext
                ctx.write(name, p.data)
                ctx.case(p.data)
                inc, r = assemble(ctx, ' .include sprite "%s"\n' % name, 'include.s')
                gen, r2, text = generated(ctx, ['image', name], rng.random() < 0.5, fault)
                judge(ctx, inc, r, gen, r2, text, fault, file=p.how)
        ctx.counters['faults: ' + fault] += 1
