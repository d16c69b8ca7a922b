"""C17: no input makes the tools crash, hang or run away."""
import os
import resource
import select
import signal
import struct
import subprocess
import time

from vlib import build, core, dis, hostile, png, project
from checks.c21 import hostile as hostile_args

TECHNIQUE = ('runtime monitors on the real executable (built with overflow checks and debug assertions): exit status, signals, explanation on stderr, '
             'CPU time, blocking and peak memory of every run (wait4), under fuzzed sources, headers, images, binaries and command lines; growth '
             'of time and memory on inputs of scaled sizes; coverage-guided fuzzing in the thorough tier')
LEVEL_NOTE = ('Sampled malformed inputs of every kind that a command reads; time and memory are compared with generous absolute bounds for small '
              'inputs and must grow about linearly from size n to 8n for the listed families.')
RULE = ('edge: well-formed statements, images and binaries whose values lie at or next to the limits of what is allowed; source: malformed sources through assemble and expand; header, image, bomb, binary, vms: malformed files of that kind through every command that '
        'reads them; args: hostile argument vectors; path: files that are directories, devices, links in a circle, long names, unwritable places; scale: '
        'families of inputs of size n and 8n; deep: nesting of every kind; large: the families at four times the size; afl: coverage-guided runs. Distinct: file contents with command lines.')
ASSUMPTIONS = ['An input whose expansion or output is exponentially larger than itself may take time proportionate to that.',
               'Named pipes and terminals as inputs may block for as long as nothing is written to them.']

CPU = 10          # seconds for a small input
RSS = 700 << 20   # bytes for a small input


def tasks(tier):
    n = 1 if tier == 'quick' else 15
    t = [('scale', len(FAMILIES)), ('deep', 60 * n), ('edge', 8000 * n), ('source', 12000 * n), ('header', 1500 * n), ('image', 6000 * n), ('bomb', 500 * n), ('binary', 3000 * n),
         ('vms', 600 * n), ('args', 2500 * n), ('path', 600 * n)]
    if tier == 'thorough':
        t += [('large', len(FAMILIES)), ('afl', 16)]
    return t


def prepare(tier):
    return {'afl': build.afl() if tier == 'thorough' else None}


def run(ctx, args, limit=CPU, memory=RSS, env=None, stdout=None, what=''):
    """Runs the executable; judges how it ended. Returns (rc, cpu, rss, stdout size, stderr)."""
    ctx.runs += 1
    with open(os.path.join(ctx.base, 'xerr'), 'w+b') as fe, open(stdout or os.path.join(ctx.base, 'xout'), 'w+b' if not stdout else 'wb') as fo:
        start = time.monotonic()
        p = subprocess.Popen(args, executable=ctx.exe, cwd=ctx.dir, env=dict(ctx.env, PWD=ctx.dir, **(env or {})), stdin=subprocess.DEVNULL, stdout=fo, stderr=fe)
        try:
            resource.prlimit(p.pid, resource.RLIMIT_CPU, (limit, limit + 2))
            resource.prlimit(p.pid, resource.RLIMIT_AS, (core.AS_LIMIT, core.AS_LIMIT))
            resource.prlimit(p.pid, resource.RLIMIT_CORE, (0, 0))
        except (ProcessLookupError, PermissionError):
            pass
        fd = os.pidfd_open(p.pid)
        try:
            poll = select.poll()
            poll.register(fd, select.POLLIN)
            asleep = 0
            while not poll.poll(10000 if asleep == 0 else 2000):
                # asleep for long, without having to wait for the processor?
                try:
                    with open('/proc/%d/stat' % p.pid) as f:
                        state = f.read().rsplit(')', 1)[1].split()[0]
                except OSError:
                    state = ''
                asleep = asleep + 1 if state == 'S' else 0
                if asleep > 8 or time.monotonic() - start > 600:
                    p.kill()
                    p.wait()
                    if asleep > 8:
                        raise core.Violation('%s: blocked' % what, args=[repr(a[:300]) for a in args])
                    raise core.Inconclusive('wall clock limit')
        finally:
            os.close(fd)
        _, st, ru = os.wait4(p.pid, 0)
        p.returncode = os.waitstatus_to_exitcode(st)
        size = os.fstat(fo.fileno()).st_size
        fe.seek(0)
        err = fe.read(1 << 20)
    return p.returncode, ru.ru_utime + ru.ru_stime, ru.ru_maxrss << 10, size, err


def judge(ctx, args, what, limit=CPU, memory=RSS, out=None, **kw):
    """Runs the command line and raises a violation if it ended badly."""
    args = [a if isinstance(a, bytes) else a.encode('utf-8', 'surrogateescape') for a in args]
    rc, cpu, rss, size, err = run(ctx, args, limit, memory, what=what, **kw)
    if out:
        try:
            size += os.path.getsize(os.path.join(ctx.dir, out))
        except OSError:
            pass
    info = dict(args=[repr(a[:300]) for a in args], rc=rc, cpu_s=round(cpu, 2), memory=rss, stderr=err[:1500].decode('utf-8', 'replace'))
    if rc == -signal.SIGXCPU or rc == -signal.SIGKILL and cpu >= limit:
        raise core.Violation('%s: still running after %d seconds of CPU time' % (what, limit), **info)
    if rc < 0:
        raise core.Violation('%s: ended by signal %d' % (what, -rc), **info)
    if rc == 101 or b'panicked at' in err:
        line = next((x for x in err.split(b'\n') if b'panicked' in x), b'')
        raise core.Violation('%s: panic %s' % (what, line.decode('utf-8', 'replace')), **info)
    if rc > 100:
        raise core.Violation('%s: exit status %d' % (what, rc), **info)
    if rc and not err.strip():
        raise core.Violation('%s: exit status %d without an explanation' % (what, rc), **info)
    if rss > memory + 16 * size:
        raise core.Violation('%s: %d MB of memory' % (what, rss >> 20), **info)
    ctx.counters[what + (' accepted' if rc == 0 else ' refused')] += 1
    ctx.counters['most memory of a small input, MB'] = max(ctx.counters['most memory of a small input, MB'], rss >> 20)
    ctx.counters['most CPU time of a small input, ms'] = max(ctx.counters['most CPU time of a small input, ms'], int(cpu * 1000))
    return rc, cpu, rss, size


# ---- Families of scaled inputs: name -> (n for the small one, function(n) -> files, commands)

def text(f, n=5000, commands=('assemble', 'expand')):
    return n, lambda k: {'in.s': f(k).encode()}, commands


def gif_frames(n, w=8, h=8):
    g = b'GIF89a' + struct.pack('<HHBBB', w, h, 0x80, 0, 0) + b'\0\0\0\xff\xff\xff'
    body = bytearray()
    # uncompressed codes: clear, pixel, pixel, clear...
    bits = []
    for k in range(w * h):
        if k % 2 == 0:
            bits += [0, 0, 1]
        bits += [k & 1, 0, 0]
    bits += [1, 0, 1]
    for k in range(0, len(bits), 8):
        body.append(sum(b << j for j, b in enumerate(bits[k:k + 8])))
    frame = b'\x21\xf9\x04\0\1\0\0\0,' + struct.pack('<HHHHB', 0, 0, w, h, 0) + b'\x02' + b''.join(
        bytes([len(body[j:j + 255])]) + bytes(body[j:j + 255]) for j in range(0, len(body), 255)) + b'\0'
    return g + frame * n + b';'


def plain_png(w, h):
    return png.encode(w, h, [[((x * y) % 2 * 255, 0, 0, 255) for x in range(w)] for y in range(h)], 'rgba')


def binary(n):
    return bytes([0x00] * n)


FAMILIES = {
    'instructions': text(lambda n: ' nop\n' * n),
    'instructions with operands': text(lambda n: ''.join(' mov #%d, $%X\n' % (k % 256, k % 512) for k in range(n))),
    'labels': text(lambda n: ''.join('l%d:\n' % k for k in range(n))),
    'label references': text(lambda n: ''.join('l%d:\n .word <l%d\n' % (k, (k * 7) % n) for k in range(n)), 3000),
    'forward branches': text(lambda n: ''.join(' br l%d\nl%d:\n' % (k, k) for k in range(n)), 3000),
    'local labels': text(lambda n: 'g:\n' + ''.join('.l%d: nop\n' % k for k in range(n))),
    'local labels in scopes': text(lambda n: ''.join('g%d:\n.l: nop\n br .l\n' % k for k in range(n)), 3000),
    'constants': text(lambda n: ''.join('c%d = %d\n' % (k, k % 100) for k in range(n))),
    'chain of constants': text(lambda n: 'c0 = 1\n' + ''.join('c%d = c%d\n' % (k + 1, k) for k in range(n))),
    'constants of later labels': text(lambda n: ''.join('c%d equ <l\n' % k for k in range(n)) + 'l:\n'),
    'constants used': text(lambda n: ''.join('c%d = %d\n' % (k, k % 100) for k in range(n)) + ''.join(' .byte c%d\n' % k for k in range(n)), 3000),
    'bytes in a line': text(lambda n: ' .byte ' + ', '.join(['1'] * n) + '\n'),
    'words in a line': text(lambda n: ' .word ' + ', '.join(['$1234'] * n) + '\n'),
    'mixed program': text(lambda n: '%macro m %a\nl%: add %a\n br l%\n%end\n' + ''.join(
        'label%d:\n.loc: br .loc\n m #%d\n const%d = %d * 2\n .word const%d ; comment\n .byte <label%d, "text"\n%%macro new%d\n nop\n%%end\n'
        % (k, k % 256, k, k % 99, k * 7 % n, k * 3 % n, k) for k in range(n)), 2000, ('assemble',)),
    'string': text(lambda n: ' .byte "' + 'a' * n + '"\n', 100000),
    'string with escapes': text(lambda n: ' .byte "' + '\\n' * n + '"\n', 60000),
    'strings': text(lambda n: ' .byte "a"\n' * n),
    'string of lines': text(lambda n: ' .byte "' + 'a\n' * n + '"\n', 40000),
    'comment': text(lambda n: ';' + 'x' * n + '\n', 100000),
    'comments': text(lambda n: '; x\n* y\n nop ; z\n' * n, 2000),
    'blank lines': text(lambda n: '\n' * n, 100000),
    'spaces': text(lambda n: ' ' * n + 'nop\n', 100000),
    'carriage returns': text(lambda n: '\r\n' * n, 60000),
    'macros': text(lambda n: ''.join('%%macro m%d\n nop\n%%end\n' % k for k in range(n)), 3000),
    'macros called': text(lambda n: ''.join('%%macro m%d\n nop\n%%end\n m%d\n' % (k, k) for k in range(n)), 2000),
    'body of a macro': text(lambda n: '%macro m\n' + ' nop\n' * n + '%end\n m\n'),
    'labels in a macro': text(lambda n: '%macro m\n' + ''.join('l%d%%: br l%d%%\n' % (k, k) for k in range(n)) + '%end\n m\n m\n', 2000),
    'calls of a macro': text(lambda n: '%macro m\nl%: br l%\n%end\n' + ' m\n' * n, 2000),
    'calls with arguments': text(lambda n: '%macro m %a, %b\n add %a\n ld %b\n%end\n' + ' m #1 + 2, q\n' * n + 'q = $100\n', 2000),
    'parameters': text(lambda n: '%macro m ' + ', '.join('%%p%d' % k for k in range(n)) + '\n' + ''.join(' add #%%p%d\n' % k for k in range(0))
                       + ' nop\n%end\n m ' + ', '.join(['1'] * n) + '\n', 3000),
    'parameters used': text(lambda n: '%macro m ' + ', '.join('%%p%d' % k for k in range(n)) + '\n' + ''.join(' add %%p%d\n' % k for k in range(n))
                            + '%end\n m ' + ', '.join(['#1'] * n) + '\n', 1500),
    'chain of macros': text(lambda n: '%macro m0\n nop\n%end\n' + ''.join(
        '%%macro m%d\n nop\n%s%%end\n' % (k + 1, ' m%d\n' % k if k % 100 else '') for k in range(n)) + ' m%d\n' % n, 2000),
    'origins': text(lambda n: ''.join(' .org %d\n' % (k // 2) for k in range(n))),
    'alignments': text(lambda n: ' .cnop 0, 2\n nop\n' * n, 3000),
    'fillings': text(lambda n: ' .text 4 "ab"\n' * n),
    'filling': text(lambda n: ' .text %d "ab"\n' % (n * 10), 100000),
    'unexpected characters': text(lambda n: '`' * n, 100000),
    'parentheses': text(lambda n: ' .byte ' + '(' * n + '1' + ')' * n + '\n'),
    'sum': text(lambda n: ' .byte ' + '1+' * n + '1\n'),
    'sums': text(lambda n: ' .byte 1+1+1+1, (2*(3+4))\n' * n, 1500),
    'negations': text(lambda n: ' .byte ' + '-' * n + '1\n'),
    'unterminated string': text(lambda n: ' .byte "' + 'a\n' * n, 60000),
    'long name': text(lambda n: 'a' * n + ': nop\n br ' + 'a' * n, 60000),
    'long names': text(lambda n: ''.join('a' * 1000 + '%d: nop\n br ' % k + 'a' * 1000 + '%d\n' % k for k in range(n // 1000)), 60000),
    'duplicate at the end': text(lambda n: ' nop\n' * n + 'a:\na:\n'),
    'duplicates': text(lambda n: 'a:\n' * n),
    'unknown names': text(lambda n: ''.join(' br u%d\n' % k for k in range(n))),
    'error at the end': text(lambda n: ' nop\n' * n + ' bogus 5\n'),
    'error in a long line': text(lambda n: ' .byte 1 ; ' + 'x' * n + '\n .byte 256 ; ' + 'y' * n, 60000),
    'error in a wide line': text(lambda n: ' .byte 256 ; ' + '日' * n, 20000),
    'error spanning lines': text(lambda n: ' .byte "' + 'a\n' * n + '" + 1\n', 40000),
    'digits': text(lambda n: ' .byte ' + '1' * n + '\n', 60000),
    'commas': text(lambda n: ' .byte ' + ',' * n),
    'quotes': text(lambda n: '"' * n, 40000),
    'percent signs': text(lambda n: '%' * n, 40000),
    'colons': text(lambda n: ':' * n, 20000),
    'backslashes': text(lambda n: ' .byte "' + '\\' * n, 60000),
    'words': text(lambda n: 'abc ' * n, 10000),
    'one line of instructions': text(lambda n: 'l:' + ' nop' * n, 10000),
    'includes': (1500, lambda n: {'in.s': b' .include "e.s"\n' * n, 'e.s': b' nop\n'}, ('assemble', 'expand')),
    'included files': (400, lambda n: dict({'in.s': b''.join(b' .include "e%d.s"\n' % k for k in range(n))}, **{'e%d.s' % k: b' nop\nl%d:\n' % k for k in range(n)}),
                       ('assemble', 'expand')),
    'long included file': (4000, lambda n: {'in.s': b' .include "e.s"\n', 'e.s': b' nop\n .byte 1\n' * n}, ('assemble', 'expand')),
    'binary include': (200000, lambda n: {'in.s': b' .include bytes "e.bin"\n', 'e.bin': bytes(n)}, ('assemble', 'expand')),
    'binary includes': (1500, lambda n: {'in.s': b' .include bytes "e.bin"\n' * n, 'e.bin': bytes(9)}, ('assemble', 'expand')),
    'header of constants': (2000, lambda n: {'in.s': b' .include cpp "e.h"\n', 'e.h': b''.join(b'#define A%d %d\n' % (k, k % 256) for k in range(n))}, ('assemble', 'expand')),
    'header of references': (2000, lambda n: {'in.s': b' .include cpp "e.h"\n', 'e.h': b'#define A0 1\n' + b''.join(b'#define A%d (A%d)\n' % (k + 1, k) for k in range(n))},
                             ('assemble', 'expand')),
    'header of comments': (20000, lambda n: {'in.s': b' .include cpp "e.h"\n', 'e.h': b'/* x */ // y\n' * n}, ('assemble', 'expand')),
    'header with a long comment': (100000, lambda n: {'in.s': b' .include cpp "e.h"\n', 'e.h': b'/*' + b'*/ /*' * (n // 5)}, ('assemble', 'expand')),
    'header with a long line': (50000, lambda n: {'in.s': b' .include cpp "e.h"\n', 'e.h': b'#define A 1 ' + b'\\\n' * n + b'+ 2\n'}, ('assemble', 'expand')),
    'frames': (60, lambda n: {'in.gif': gif_frames(n), 'in.s': b' .include sprite "in.gif"\n'}, ('assemble', 'expand', 'json', 'json-pretty', '1bit-asm', '1bit-asm-masked')),
    'icon frames': (30, lambda n: {'in.gif': gif_frames(n, 32, 32), 'in.s': b' .include icon "in.gif"\n'}, ('icon', 'assemble', 'expand')),
    'wide sprite': (3000, lambda n: {'in.png': plain_png(n, 8), 'in.s': b' .include sprite "in.png" header="no"\n'}, ('assemble', 'expand', 'json', '1bit-asm', '1bit-asm-masked')),
    'tall sprite': (1500, lambda n: {'in.png': plain_png(8, n), 'in.s': b' .include sprite "in.png" header="no"\n'}, ('assemble', 'expand', 'json', '1bit-asm', '1bit-asm-masked')),
    'too large icon': (3000, lambda n: {'in.png': plain_png(32, n)}, ('icon',)),
    'large VMS': (100000, lambda n: {'in.vms': bytes(n)}, ('vmi', 'vmi -g')),
    'disassembled instructions': (4000, lambda n: {'in.bin': binary(n)}, ('disassemble',)),
    'disassembled bytes': (4000, lambda n: {'in.bin': b'\x21\x00\x00' + bytes([0x55, 1] * (n // 2))}, ('disassemble', 'disassemble game')),
    'disassembled branches': (1500, lambda n: {'in.bin': b''.join(bytes([0x31, 5, 0]) for _ in range(n))}, ('disassemble',)),
    'disassembled jumps': (1500, lambda n: {'in.bin': b''.join(struct.pack('>BH', 0x20, (3 * (k * 7 % n)) & 0xffff) for k in range(n))}, ('disassemble',)),
    'disassembled nothing': (100000, lambda n: {'in.bin': b'\xff' * n}, ('disassemble', 'disassemble file')),
    'arguments': (3000, lambda n: {}, ('arguments',)),
}
NAMES = sorted(FAMILIES)


def command(c, files, n):
    pic = next((f for f in files if f.startswith('in.') and f not in ('in.s', 'in.bin', 'in.vms')), None)
    if c in ('assemble',):
        return ['waterbear', 'assemble', 'in.s', '-o', 'out']
    if c == 'expand':
        return ['waterbear', 'expand', 'in.s']
    if c == 'icon':
        return ['waterbear', 'icon', pic]
    if c.startswith('vmi'):
        return ['waterbear', 'vmi', 'in.vms', '-o', 'out'] + c.split()[1:]
    if c.startswith('disassemble'):
        return ['waterbear', 'disassemble', 'in.bin', '-o', 'out', '-p', '-a'] + (['-t'] + c.split()[1:] if ' ' in c else [])
    if c == 'arguments':
        return ['waterbear'] + ['in.s'] * n
    return ['waterbear', 'image', pic, '-f', c]


def measure(ctx, args, what):
    rc, cpu, rss, size = judge(ctx, args, what, limit=60, memory=core.AS_LIMIT, out='out')
    return rc, cpu, rss, size


def scale(ctx, name, rng, factor=1):
    n, make, commands = FAMILIES[name]
    n *= factor
    for c in commands:
        def at(k):
            for f in os.listdir(ctx.dir):
                os.unlink(ctx.path(f))
            files = make(k)
            for f, d in files.items():
                ctx.write(f, d)
            return measure(ctx, command(c, files, k), 'scaled') + (sum(map(len, files.values())),)
        # An input that is large compared with what starting takes
        small, large = at(n), at(8 * n)
        ctx.case('%s %s' % (name, c))
        for _ in range(2):
            if large[1] <= 0.4 + 20 * small[1] and large[2] <= (80 << 20) + 20 * small[2]:
                break
            if large[1] < 0.8 and large[2] < (150 << 20):
                break
            a, b = at(n), at(8 * n)
            small = (a[0], max(small[1], a[1]), max(small[2], a[2])) + a[3:]
            large = (b[0], min(large[1], b[1]), min(large[2], b[2])) + b[3:]
        info = dict(family=name, command=c, sizes=[small[4], large[4]], cpu_s=[round(small[1], 3), round(large[1], 3)], memory=[small[2], large[2]],
                    output=[small[3], large[3]])
        if large[1] > 0.8 and large[1] > 0.4 + 20 * small[1]:
            raise core.Violation('%s of "%s": %.2f s for an input of %d bytes, %.2f s for %d bytes' % (c, name, small[1], small[4], large[1], large[4]), **info)
        if large[2] > 150 << 20 and large[2] > (80 << 20) + 20 * small[2]:
            raise core.Violation('%s of "%s": %d MB for an input of %d bytes, %d MB for %d bytes' % (c, name, small[2] >> 20, small[4], large[2] >> 20, large[4]), **info)
        # about 200 ns and 1 KB are usual for a byte of input, and much less for one of output
        units = large[4] + large[3] / 20
        if large[1] > 1 + 300e-6 * units:
            raise core.Violation('%s of "%s": %.2f s for an input of %d bytes' % (c, name, large[1], large[4]), **info)
        ctx.counters['families with commands'] += 1
        ctx.counters['most CPU time of a scaled input, ms'] = max(ctx.counters['most CPU time of a scaled input, ms'], int(large[1] * 1000))
        ctx.counters['highest growth of CPU time, percent of size'] = max(ctx.counters['highest growth of CPU time, percent of size'],
                                                                           int(100 * large[1] / max(0.03, small[1]) / 8))
        ctx.sample(info)


# ---- Nesting

def deep(ctx, i, rng):
    n = rng.choice([10, 100, 190, 199, 200, 201, 210, 249, 250, 251, 1000, 5000, 50000, 200000])
    k = i % 12
    files = {}
    if k == 0:
        o = rng.choice([('(', ')'), ('-(', ')'), ('<(', ')'), ('1+(', ')'), ('(1*', ')'), ('-', ''), ('(', ''), ('', ')'), ('<', ''), ('>-', '')])
        s = ' %s %s%s%s\n' % (rng.choice(['.byte', '.word', '.org', 'br', 'mov #1,', 'x =']), o[0] * n, '1', o[1] * n)
    elif k == 1:
        s = ' %s 1%s\n' % (rng.choice(['.byte', '.word', 'add #', 'x =']), rng.choice(['+1', '-1', '*1', '/1', '&1', '|1', '^1']) * n)
    elif k == 2:
        n = min(n, 1000)
        d = rng.choice(['', 'd/'])
        s = ' .include "%sf0.s"\n' % d
        for j in range(n):
            files['%sf%d.s' % (d, j)] = ' .include "f%d.s"\n' % (j + 1)
        files['%sf%d.s' % (d, n)] = ' nop\n'
    elif k == 3:
        n = min(n, 20000)
        s = '%macro m0\n nop\n%end\n' + ''.join('%%macro m%d\n m%d\n%%end\n' % (j + 1, j) for j in range(n)) + ' m%d\n' % n
    elif k == 4:
        s = rng.choice(['%macro m\n m\n%end\n m\n', '%macro m %a\n m %a + 1\n%end\n m 1\n', '%macro a\n b\n%end\n%macro b\n a\n%end\n a\n', '%macro m\n m\n m\n%end\n m\n',
                        ' .include "in.s"\n', 'x:\n .include "in.s"\n .include "in.s"\n', '%macro m\nl%: br l%\n m\n%end\n m\n'])
    elif k == 5:
        v = ['c%d = c%d%s\n' % (j + 1, j, rng.choice(['', ' + 1', ' - 1', ' + c%d' % j if j < 20 else ''])) for j in range(n)]
        if rng.random() < 0.5:
            v.reverse()
        s = ''.join(v) + 'c0 = 1\n .byte <c%d\n' % n
    elif k == 6:
        s = rng.choice(['a = b\nb = a\n .byte a\n', 'a = a\n .byte a\n', 'a = a + 1\n br a\n', ''.join('c%d = c%d\n' % (j, (j + 1) % n) for j in range(n)) + ' .word c0\n'])
    elif k == 7:
        n = min(n, 5000)
        s = ''.join('%%macro m%d %%a\n m%d %%a + 1\n%%end\n' % (j + 1, j) for j in range(n)) + '%macro m0 %a\n add #%a\n%end\n' + ' m%d 1\n' % n
    elif k == 8:
        d = '/'.join(['d'] * min(n, 1500))
        s = ' .include "%s/x.s"\n' % d
    elif k == 9:
        s = ''.join('%%macro m%d\n' % j for j in range(n)) + ('%end\n' * n if rng.random() < 0.5 else '')
    elif k == 10:
        s = ' .include cpp "h.h"\n'
        files['h.h'] = rng.choice([lambda: '#define A %s1%s\n' % ('(' * n, ')' * n), lambda: '#define A ' + '-' * n + '1\n', lambda: '#define A 1' + '+1' * n + '\n',
                                   lambda: '/*' * n, lambda: '#define A B\n#define B A\n', lambda: ''.join('#define A%d A%d\n' % (j + 1, j) for j in range(n)) + '#define A0 1\n'])()
        if rng.random() < 0.5:
            s += ' .word a\n'
    else:
        s = 'a:' * n + '\n' if rng.random() < 0.5 else ''.join(' .x%d:\n' % j if j % 2 else 'y%d:' % j for j in range(n))
    files['in.s'] = s
    for f, d in files.items():
        ctx.write(f, d)
    ctx.case(repr(sorted(files.items())))
    for c in ('assemble', 'expand'):
        judge(ctx, command(c, files, 0), 'nested', limit=30, memory=3 << 30, out='out')


# ---- Malformed files

def source(ctx, i, rng):
    pool = [project.random_source(rng)] if rng.random() < 0.3 else []
    for _ in range(2):
        k = rng.randrange(3)
        if k == 0:
            pool.append(hostile.statements(rng))
        elif k == 1:
            p = project.Project(ctx, rng, '', 0.6, False)
            pool.append('\n'.join(l for n in p.texts.values() for l in n))
        else:
            pool.append(SNIPPETS[rng.randrange(len(SNIPPETS))] + SNIPPETS[rng.randrange(len(SNIPPETS))])
    what, data = hostile.source(rng, pool)
    ctx.write('in.s', data)
    ctx.write('e.png', SMALL)
    if rng.random() < 0.3:
        ctx.write('b.s', hostile.source(rng, pool)[1])
        data += b'\n .include "b.s"\n'
        ctx.write('in.s', data)
    ctx.case(data)
    ctx.counters['sources: ' + what] += 1
    c = rng.choice(['assemble', 'assemble', 'expand'])
    judge(ctx, command(c, {}, 0), 'source', out='out')


SNIPPETS = [' .include sprite "e.png" type="masked", header="no"\n', ' .include icon "e.png" speed="5", eyecatch="e.png"\n', ' .text 10 "abc"\n .cnop 1, 8\n .org $40\n',
            '%macro m %a, %b\nl%: add %a\n br l%\n%end\n m #1, 2\n m @R1, x\nx = 5\n', ' .byte <lab, >lab, "text\\n\\"", -128, 255\nlab:\n', '.loc: br .loc\nglob: nop\n.loc: br .loc\n',
            'a = 5\nb equ a * (2 + 3) / 1\n .word a, b, $FFFF, %1010, 0b11, 0x1F\n', ' mov #$12, @R0\n ld $1FF\n bne @R1, #5, t\n be #1, t\n bp $1FF, 7, t\n t:\n callr t\n jmpf t\n brf t\n',
            '; comment\n* star\n\tnop\r\n', 'lab: .byte 1, 2 ; "x"\n .word lab & 15 | 3 ^ 2\n', ' .include bytes "in.s"\n', ' .include cpp "in.s"\n', ' dbnz @R2, t\nt: clr1 $100, 3\n not1 $1, 0\n set1 p, 1\np = $14C\n',
            '%macro a %x\n b %x, %x + 1\n%end\n%macro b %x, %y\n.q%: st %x\n.r: bz .q%\n%end\n a 3\n a 4\n', ' inc @R3\n xch $12\n ldc\n mul\n reti\n push acc\n pop b\nacc=$100\nb=$102\n']
SMALL = png.encode(32, 32, [[(0, x * 8 & 0x70, 0, 255) for x in range(32)] for _ in range(32)], 'rgba')


def edge(ctx, i, rng):
    if i % 8 == 0:
        data = hostile.edge_binary(rng)
        flags = rng.choice([[], ['-t', 'raw'], ['-t', 'game'], ['-t', 'bios'], ['-t', 'file']]) + rng.choice([[], ['-p', '-a']])
        ctx.write('in.bin', data)
        ctx.case(repr((flags, data)))
        ctx.counters['edges: binary'] += 1
        return judge(ctx, ['waterbear', 'disassemble', 'in.bin', '-o', 'out'] + flags, 'edges', out='out')
    kind, files = hostile.edge(rng)
    for f, d in files.items():
        ctx.write(f, d)
    ctx.case(repr(sorted(files.items())))
    ctx.counters['edges: ' + kind] += 1
    if kind in ('icon', 'sprite') and rng.random() < 0.3:
        c = rng.choice([['icon', 'e.png'], ['icon', 'e.png', '-e', rng.choice(sorted(files))], ['image', 'e.png', '-f', rng.choice(['json', '1bit-asm', '1bit-asm-masked'])]])
        return judge(ctx, ['waterbear'] + c, 'edges')
    judge(ctx, command(rng.choice(['assemble', 'assemble', 'expand']), {}, 0), 'edges', out='out')


def header(ctx, i, rng):
    data = hostile.header(rng)
    ctx.write('h.h', data)
    ctx.write('in.s', ' .include cpp "h.h"\n .word a, b, a1\n' if rng.random() < 0.5 else ' .include cpp "h.h"\n')
    ctx.case(data)
    judge(ctx, command(rng.choice(['assemble', 'expand']), {}, 0), 'header', out='out')


def image(ctx, i, rng, bomb=False):
    ext, data = hostile.bomb(rng) if bomb else hostile.image(rng)
    name = 'pic' + ext
    ctx.write(name, data)
    ctx.write('e.png', SMALL)
    k = rng.randrange(7)
    if k < 2:
        args = ['waterbear', 'image', name, '-f', rng.choice(['json', 'json-pretty', '1bit-asm', '1bit-asm-masked'])]
    elif k == 2:
        args = ['waterbear', 'icon', name]
    elif k == 3:
        args = ['waterbear', 'icon', 'e.png', '-e', name]
    else:
        line = rng.choice([' .include sprite "%s"', ' .include sprite "%s" type="masked"', ' .include icon "%s"', ' .include icon "e.png" eyecatch="%s"']) % name
        ctx.write('in.s', line + '\n')
        args = command(rng.choice(['assemble', 'expand']), {}, 0)
    ctx.case(repr((args, data)))
    ctx.counters['images ' + ext.lower()] += 1
    judge(ctx, args, 'bomb' if bomb else 'image', limit=60 if bomb else CPU, memory=(1 << 30) if bomb else RSS, out='out')


def binary_case(ctx, i, rng):
    k = rng.randrange(6)
    typ = rng.choice([None, 'raw', 'game', 'bios', 'file'])
    if k == 0:
        data = rng.randbytes(rng.choice([0, 1, 2, 3, 4, 0x40, 0x4b, 0x4c, 0x200, 0x1000, 0x280, 65535, 65536, 65537]))
    elif k == 1:
        data = bytes(rng.choice([0, 0x20, 0x21, 0x08, 0x10, 0x11, 0x30, 0x31, 0x41, 0x68, 0xff, 0x7f, 0x80, rng.randrange(256)]) for _ in range(rng.choice([1, 5, 20, 100, 700])))
    elif k == 2:
        data = bytes([rng.randrange(256)]) * rng.choice([1, 3, 100, 65536, 70000])
    elif k == 3 and rng.random() < 0.3:
        data = rng.randbytes(rng.choice([100000, 200000]))
    else:
        data = dis.image(rng, rng.choice([60, 300, 700]), dis.ENTRIES[typ or 'raw'], 0.5)
        for _ in range(rng.randrange(3)):
            data = project.damage(rng, data)
    ctx.write('in.bin', data)
    flags = (['-t', typ] if typ else []) + rng.choice([[], ['-p'], ['-a'], ['-p', '-a']])
    ctx.case(repr((flags, data)))
    judge(ctx, ['waterbear', 'disassemble', 'in.bin', '-o', 'out'] + flags, 'binary', out='out')


def vms(ctx, i, rng):
    data = rng.randbytes(rng.choice([0, 1, 2, 0x20, 0x22f, 0x230, 511, 512, 513, 0x280, 0x2a0, 0x10000, 0x20000, 0x1ffff, 0x20001, 300000, rng.randrange(1000)]))
    if rng.random() < 0.2:
        ctx.write('in.vms', b'')
        os.truncate(ctx.path('in.vms'), rng.choice([0xffff, 0x10000, 1 << 20, 1 << 24, 1 << 27]))
    else:
        ctx.write('in.vms', data)
    name = rng.choice(['in.vms', 'in.vms', 'verylongname_0123456789_0123456789.vms', 'ünï.vms', '.vms', 'noext', 'a.b.c.vms', '-x.vms', ' .VMS'])
    os.rename(ctx.path('in.vms'), ctx.path(name))
    args = ['waterbear', 'vmi', rng.choice(['./', './', './', '', 'dir/']) + name] + (['-g'] if rng.random() < 0.5 else [])
    for f in rng.choice([('-c',), ('--copyright',), ('-c', '-c'), ('-d', '-f'), ()]):
        if rng.random() < 0.7:
            args += [f, ''.join(rng.choice('abcäß日\U0001f600\n\t') for _ in range(rng.choice([0, 1, 8, 12, 31, 32, 33, 500])))]
    if rng.random() < 0.7:
        args += ['-o', rng.choice(['out', 'out.vmi', 'x/y', '', '.', '/'])]
    ctx.case(repr((args, os.path.getsize(ctx.path(name)), data[:40])))
    judge(ctx, args, 'VMS file', out='out')


def arguments(ctx, i, rng):
    os.makedirs(ctx.path('dir'))
    ctx.write('in.s', ' .byte 1, 2, 3\n')
    ctx.write('in.bin', bytes([0x00, 0xa0] * 8))
    ctx.write('in.vms', bytes(range(256)) * 3)
    ctx.write('in.png', SMALL)
    a = hostile_args(rng) or ['waterbear']
    if any(isinstance(x, str) and '\0' in x for x in a):
        return
    ctx.case(repr(a))
    ctx.counters['arguments'] += len(a)
    env = {}
    if rng.random() < 0.2:
        env = {rng.choice(['RUST_LOG', 'COLUMNS', 'TERM', 'NO_COLOR', 'LANG', 'LC_ALL', 'CLICOLOR_FORCE', 'TZ']): rng.choice(['', '0', '-1', 'xyz', '99999999999', 'C', 'dumb', 'XX12YY'])}
    judge(ctx, a, 'arguments', env=env, out='out')


def paths(ctx, i, rng):
    ctx.write('in.s', ' .byte 1, 2, 3\n .include "inc"\n' if rng.random() < 0.3 else ' .byte 1\n')
    ctx.write('in.png', SMALL)
    ctx.write('in.bin', bytes(300))
    os.makedirs(ctx.path('dir/sub'))
    os.symlink('loop', ctx.path('loop'))
    os.symlink('nowhere', ctx.path('dangling'))
    os.symlink('dir', ctx.path('link'))
    ctx.write('empty', b'')
    places = ['dir', 'dir/', '.', '..', '', 'loop', 'dangling', 'link', 'link/..', 'missing', 'missing/x', 'in.s/x', 'x' * 255, 'x' * 256, 'd/' * 3000, '/dev/null', '/dev/zero/x',
              'empty', 'in.s', 'in.png', 'in.bin', '/proc/self/mem', '/proc/self/maps', '/proc/self/environ', b'\xff\xfe', 'a\nb', '\x1b[31m', '/dev/stdin', '/dev/fd/0', '/dev/fd/99']
    # Outputs only go to places of this directory, or to devices
    outputs = [p for p in places if isinstance(p, bytes) or not p.startswith('/') and not p.startswith('..')] + ['/dev/null', '/dev/full', '/dev/stdout']
    src = rng.choice(places)
    out = rng.choice(outputs)
    k = rng.randrange(8)
    if k < 2:
        args = ['waterbear', 'assemble', src, '-o', out]
    elif k == 2:
        args = ['waterbear', 'expand', src]
    elif k == 3:
        args = ['waterbear', 'disassemble', src, '-o', out] + rng.choice([[], ['-p', '-a'], ['-t', 'game']])
    elif k == 4:
        args = ['waterbear', rng.choice(['icon', 'image']), src]
    elif k == 5:
        args = ['waterbear', 'icon', 'in.png', '-e', src]
    elif k == 6:
        args = ['waterbear', 'vmi', src] + (['-o', out] if not (isinstance(src, str) and src.startswith(('/', '..'))) and rng.random() < 0.8 else ['-o', 'out'])
    else:
        s = src if isinstance(src, str) else 'ab'
        ctx.write('in.s', ' .include %s "%s"\n' % (rng.choice(['', 'bytes', 'cpp', 'sprite', 'icon', 'asm']), s.replace('\n', ' ')))
        args = command(rng.choice(['assemble', 'expand']), {}, 0)
    ctx.case(repr(args))
    if rng.random() < 0.2 and args[1] != 'vmi':
        judge(ctx, args, 'path', stdout='/dev/full')
    else:
        judge(ctx, args, 'path')


# ---- Coverage-guided

def afl(ctx, i, rng):
    """One AFL++ instance; what it finds is judged with the usual executable."""
    exe = ctx.extra['afl']
    if not exe:
        ctx.counters['AFL++ missing'] += 1
        return
    k = i % 8
    d = ctx.path('seeds')
    os.makedirs(d)
    words = ctx.path('dict')
    with open(words, 'wb') as f:
        for j, w in enumerate(hostile.WORDS + hostile.PUNCTUATION + hostile.NUMBERS):
            f.write(b'w%d="%s"\n' % (j, b''.join(b'\\x%02x' % c for c in w.encode())))
    name, args, extra = 'in.s', ['assemble', 'in.s', '-o', '/dev/null'], ['-x', words]
    if k == 3:
        args = ['expand', 'in.s']
    if k in (0, 1, 3):
        files = [hostile.statements(rng) for _ in range(20)] + SNIPPETS + [project.random_source(rng) for _ in range(20)]
        files = [x.encode() for x in files]
    elif k == 2:
        name = 'h.h'
        ctx.write('in.s', ' .include cpp "h.h"\n .word a, b\n')
        files = [hostile.header(rng) for _ in range(40)]
    elif k in (4, 5):
        name, extra = 'in.bin', []
        typ = 'raw' if k == 4 else 'game'
        args = ['disassemble', 'in.bin', '-o', '/dev/null', '-p', '-a', '-t', typ]
        files = [dis.image(rng, rng.choice([60, 300, 700]), dis.ENTRIES[typ], 0.5) for _ in range(30)]
    else:
        exts = ('.png',) if k == 6 else ('.gif', '.bmp')
        ext = rng.choice(exts)
        name, extra = 'pic' + ext, []
        args = rng.choice([['image', name, '-f', 'json'], ['image', name, '-f', '1bit-asm-masked'], ['icon', name]])
        files = []
        while len(files) < 30:
            p = project.icon(rng) if rng.random() < 0.5 else project.picture(rng)
            if p.ext == ext and len(p.data) < 5000:
                files.append(p.data)
    for j, x in enumerate(files):
        ctx.write('seeds/%d' % j, x)
    env = dict(os.environ, AFL_I_DONT_CARE_ABOUT_MISSING_CRASHES='1', AFL_SKIP_CPUFREQ='1', AFL_NO_UI='1', AFL_CRASH_EXITCODE='101', AFL_NO_AFFINITY='1',
               AFL_SKIP_BIN_CHECK='1', AFL_MAP_SIZE='262144', AFL_IGNORE_SEED_PROBLEMS='1', RUST_BACKTRACE='0')
    out = ctx.path('found')
    seconds = int(os.environ.get('WB_AFL_SECONDS', '300'))
    with open(os.path.join(ctx.base, 'afl.log'), 'wb') as log:
        p = subprocess.Popen(['afl-fuzz', '-s', str(rng.randrange(1 << 30)), '-V', str(seconds), '-m', '4000', '-t', '8000+', '-i', d, '-o', out, '-f', ctx.path(name)] + extra +
                             ['--', exe] + args, cwd=ctx.dir, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=log)
        try:
            p.wait(timeout=seconds * 3 + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
    stats = {}
    try:
        with open(os.path.join(out, 'default', 'fuzzer_stats')) as f:
            stats = dict(map(str.strip, line.split(':', 1)) for line in f if ':' in line)
    except OSError:
        with open(os.path.join(ctx.base, 'afl.log'), 'rb') as f:
            raise core.Inconclusive('AFL++ did not run: %r' % f.read()[-500:])
    ctx.counters['AFL++ executions'] += int(stats.get('execs_done', 0))
    ctx.counters['AFL++ inputs with new coverage'] += int(stats.get('corpus_found', 0))
    ctx.counters['AFL++ edges of %s' % ' '.join(args[:1] + [os.path.splitext(name)[1]])] = int(stats.get('edges_found', 0))
    ctx.case('afl %d %s' % (i, args))
    for kind in ('crashes', 'hangs', 'queue'):
        for f in sorted(os.listdir(os.path.join(out, 'default', kind))):
            path = os.path.join(out, 'default', kind, f)
            if os.path.isfile(path) and f.startswith('id:'):
                with open(path, 'rb') as fd:
                    data = fd.read()
                ctx.write(name, data)
                ctx.case(data)
                judge(ctx, ['waterbear'] + args, 'AFL++ ' + kind)


def run_case(ctx, kind, i, rng):
    if kind == 'scale':
        scale(ctx, NAMES[i % len(NAMES)], rng)
    elif kind == 'large':
        scale(ctx, NAMES[i % len(NAMES)], rng, 4 if NAMES[i % len(NAMES)] not in ('filling', 'arguments') else 2)
    elif kind == 'afl':
        afl(ctx, i, rng)
    elif kind == 'deep':
        deep(ctx, i, rng)
    elif kind == 'edge':
        edge(ctx, i, rng)
    elif kind == 'source':
        source(ctx, i, rng)
    elif kind == 'header':
        header(ctx, i, rng)
    elif kind == 'image':
        image(ctx, i, rng)
    elif kind == 'bomb':
        image(ctx, i, rng, True)
    elif kind == 'binary':
        binary_case(ctx, i, rng)
    elif kind == 'vms':
        vms(ctx, i, rng)
    elif kind == 'args':
        arguments(ctx, i, rng)
    else:
        paths(ctx, i, rng)
