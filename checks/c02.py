"""C02: decoding of instructions is total, exact and the inverse of encoding."""
import re
import subprocess

from checks.c12 import TYPES
from checks.c13 import examine
from vlib import build, core, dis, isa

TECHNIQUE = ('exhaustive execution of the real decoder and encoder over all byte sequences, against an independent table, with inaccessible '
             'pages around the input; the same under Miri in the thorough run; listings of the executable against the same table')
LEVEL_NOTE = ('Every sequence of up to three bytes, which is every instruction with every operand, through decode, encode and size of the '
              'library; listings of images sampled.')
RULE = ('all: the 2^24 sequences of three bytes, and every shorter one, each also with bytes following, per first byte; listing: images '
        'with long runs of all instructions, disassembled by the executable; cut: images that end within an instruction; odd: random '
        'images; miri: samples of the sequences in exact allocations. Distinct: first bytes and images.')
ASSUMPTIONS = ['The oracle is a table transcribed from docs/instructions.md.',
               'Which instruction was decoded is read from the Debug form of the instruction type.']
LEVEL = 'exploration'


def table():
    def line(f):
        return ' '.join([f.mnemonic, str(f.size), str(f.mask), str(f.value)] +
                        ['%s:%s' % (k, '+'.join('%d.%d' % b for b in f.fields[isa._LETTER[k]])) for k in f.kinds])
    return [line(f) for f in isa.FORMS]


def tasks(tier):
    n = 1 if tier == 'quick' else 25
    return ([('miri', 8)] if tier != 'quick' else []) + \
        [('all', 256), ('listing', 96 * n), ('cut', 256 * (1 if tier == 'quick' else 8)), ('odd', 1500 * n)]


def prepare(tier):
    return {'codec': build.codec(), 'miri': build.miri() if tier != 'quick' else None}


def driver(ctx, cmd, what, env=None, timeout=None):
    p = subprocess.run(cmd, cwd=ctx.dir, env=env or ctx.env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=timeout)
    out, err = p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    info = dict(stdout=out[-2000:], stderr=err[-3000:], rc=p.returncode)
    bad = re.search(r'^BAD (.*)$', out, re.M)
    if bad:
        raise core.Violation('%s: %s' % (what, bad.group(1)), **info)
    done = re.search(r'^DONE decoded=(\d+) too-short=(\d+) none=(\d+) bad=(\d+)$', out, re.M)
    if 'Undefined Behavior' in err:
        raise core.Violation('%s: Miri: %s' % (what, re.search(r'[^\n]*Undefined Behavior[^\n]*', err).group(0)), **info)
    if p.returncode < 0:
        raise core.Violation('%s: ended by signal %d: the decoder leaves its input' % (what, -p.returncode), **info)
    if p.returncode or not done:
        raise core.Inconclusive('%s: the driver failed: %s' % (what, err[-500:]))
    decoded, short, none, _ = map(int, done.groups())
    ctx.counters['sequences decoded, compared and encoded again'] += decoded
    ctx.counters['sequences too short for their instruction'] += short
    ctx.counters['sequences without an instruction'] += none
    return decoded


def listing_image(rng, size):
    """Every instruction is reached by falling through, or past a branch
    around those that don't fall through."""
    out = bytearray()
    size = min(size, 0xFFF0)
    # the fixed entries stand in runs of one-byte instructions
    bz = isa.BY_MNEMONIC['bz'][0]
    starts = [0]
    forms = list(isa.FORMS)
    rng.shuffle(forms)
    n = 0
    while len(out) < size:
        p = len(out)
        if p < 0x200:
            out += isa.BY_MNEMONIC['nop'][0].encode_raw([])
            starts.append(p)
            continue
        form = forms[n % len(forms)] if n % 3 else rng.choice(isa.FORMS)
        n += 1
        code = b''
        if form.mnemonic in isa.NO_FALL:
            code = bz.encode([p + 2 + form.size], p)
            starts.append(p)
            p += 2
        nxt = p + form.size
        vals = []
        for k in form.kinds:
            if k in isa.TARGET_KINDS:
                t = None
                for _ in range(30):
                    c = rng.choice(starts[-120:]) if rng.random() < 0.8 else rng.choice(starts)
                    if isa.to_field(k, c, nxt) is not None:
                        t = c
                        break
                if t is None:
                    break
                vals.append(t)
            else:
                w = isa.WIDTH[k]
                vals.append(rng.choice([0, (1 << w) - 1, 1 << w - 1, rng.randrange(1 << w), rng.randrange(1 << w)]))
        else:
            if dis.is_switch(form, vals):
                continue
            out += code + form.encode(vals, p)
            starts.append(p)
    return bytes(out)


def run_case(ctx, kind, i, rng):
    if kind in ('all', 'miri'):
        if kind == 'all':
            if not ctx.extra['codec']:
                ctx.counters['library interface not available'] += 1
                return
            ctx.write('table', '\n'.join(table()) + '\n')
            n = driver(ctx, [ctx.extra['codec'], 'table', 'all', str(i), str(i + 1)], 'first byte %02X' % i)
            ctx.case(('all', i), n > 0)
            ctx.counters['first bytes'] += 1
        elif ctx.extra['miri']:
            cmd, env = ctx.extra['miri']
            n = driver(ctx, cmd + ['=' + ';'.join(table()), 'some', '6000', str(rng.randrange(1 << 60))], 'Miri', dict(env), 3000)
            ctx.case(('miri', i))
            ctx.counters['sequences under Miri'] += n
        else:
            ctx.counters['Miri not available'] += 1
        return
    typ = rng.choice(TYPES)
    if kind == 'listing':
        image = listing_image(rng, rng.choice([0x400, 0x1000, 0x2000, 0x6000] + ([0xFFF0] if i % 8 == 0 else [])))
    elif kind == 'cut':
        # ends within the instruction that starts with byte i
        form = isa.FIRST[i % 256]
        if form is None or form.size == 1:
            image = bytes(rng.randrange(0x200)) + bytes([i % 256])
        else:
            room = form.size - 1 if i < 256 else rng.randrange(1, form.size)
            lead = rng.choice([0, 3, 0x13, 0x130, 0x200, 0x345, rng.randrange(0x400)])
            image = bytes(lead) + bytes([i % 256]) + rng.randbytes(room - 1)
    else:
        image = rng.randbytes(rng.choice([1, 2, 3, 4, 6, 9, 12]))
    examine(ctx, image, typ, kind)
