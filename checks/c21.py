"""C21: the C library entry point is memory-safe and equals the executable."""
import os
import re

from vlib import build, core, invoke, project

TECHNIQUE = ('AddressSanitizer (whole library and dependencies instrumented), Valgrind memcheck, and inaccessible pages directly before or '
             'behind read-only arguments that vanish after the call; differential oracle against the executable')
LEVEL_NOTE = ('Sampled sequences of command lines through waterbear_invoke_command_line from a C program, with arguments in memory of exactly '
              'their size; output files, standard output and exit status against the executable.')
RULE = ('sequence: up to 12 succeeding commands in one process, then perhaps a failing one, with changes of the working directory and of files between; '
        'args: hostile argument vectors; asan: sequences and damaged inputs under AddressSanitizer; valgrind: the same under '
        'memcheck. Distinct: files with call sequences.')
ASSUMPTIONS = ['A command that fails ends the process, as in the executable.', 'The clock stands still (preloaded) while VMI files are compared.',
               'Invented names of private labels are equal up to renaming.']


def tasks(tier):
    n = 1 if tier == 'quick' else 12
    return [('sequence', 700 * n), ('args', 1500 * n), ('asan', 900 * n), ('valgrind', 60 * n)]


def prepare(tier):
    clock = build.native('clock.c', '-shared', '-fPIC', output='clock.so')
    return {'plain': build.clib(), 'asan': build.clib(True), 'clock': clock}


def normal(data):
    names = {}
    return re.sub(rb'_[0-9A-Za-z]{12,}\b', lambda m: b'_%d' % names.setdefault(m.group(0), len(names)), data or b'')


def text_diff(a, b):
    n = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return 'at %d of %d and %d: %r, %r' % (n, len(a), len(b), a[max(0, n - 60):n + 60], b[max(0, n - 60):n + 60])


def failing(rng, p):
    return rng.choice([['assemble', 'missing.s', '-o', 'o'], ['expand', 'missing'], ['bogus'], ['assemble'], ['disassemble', 'x', '-o', 'y'],
                       ['image', 'missing.png'], ['icon', 'missing.png'], ['vmi', 'missing'], ['--help'], ['--version'], ['help', 'assemble'],
                       ['vmi', '--help'], ['assemble', p, '-o', 'no/such/dir'], []])


def prepare_calls(ctx, rng, damaged=False):
    """Writes files below `one`; returns (calls, key)."""
    calls, keys = [], []
    top = ctx.path('one')
    os.makedirs(top)
    projects = []
    for k in range(rng.randrange(1, 4)):
        p = project.Project(ctx, rng, 'one/p%d/' % k, rng.choice([0.5, 1]), rng.random() < 0.6)
        p.save()
        projects.append(p)
        keys.append(p.key())
    commands = []
    for k in range(rng.randrange(1, 4)):
        files = {}
        c = project.other_command(ctx, rng, '', files=files)
        d = 'q%d' % k
        for n, data in files.items():
            if damaged and rng.random() < 0.5:
                data = project.damage(rng, data)
            ctx.write('one/%s/%s' % (d, n), data)
        commands.append((d, c))
        keys.append(repr(sorted(files.items())))
    if damaged and rng.random() < 0.5:
        p = rng.choice(projects)
        n = rng.choice(sorted(p.texts))
        ctx.write(p.base + n, project.damage(rng, ctx.read(p.base + n)))
    # another version of a file, which takes its place between calls
    changes = []
    for p in projects:
        for n in sorted(p.texts):
            if rng.random() < 0.4:
                lines = [' .byte %d' % rng.randrange(256), ' nop', '; changed', '']
                rng.shuffle(lines)
                ctx.write(p.base + n + '~', ctx.read(p.base + n) + ('\n' + '\n'.join(lines) + '\n').encode() * rng.choice([1, 1, 40]))
                changes.append(p.base[4:] + n)
    for d, c in commands:
        for n in sorted(os.listdir(ctx.path('one/' + d))):
            if rng.random() < 0.3 and os.path.isfile(ctx.path('one/%s/%s' % (d, n))):
                data = ctx.read('one/%s/%s' % (d, n))
                if n.lower().endswith(('.bin', '.vms')):
                    data = data[:-1] + bytes([rng.randrange(256)]) + rng.randbytes(rng.choice([0, 1, 200]))
                elif rng.random() < 0.7:
                    continue
                else:
                    data = project.damage(rng, data)
                ctx.write('one/%s/%s~' % (d, n), data)
                changes.append('%s/%s' % (d, n))
    here = ''
    for k in range(rng.choice([1, 2, 3, 6, 12])):
        if rng.random() < 0.5:
            p = rng.choice(projects)
            d, c = p.base[4:-1], rng.choice([p.assemble, p.assemble, p.expand])(p.main)
        else:
            d, c = rng.choice(commands)
        if d != here:
            calls.append(('cd', os.path.relpath(d, here or '.')))
            here = d
        if changes and k and rng.random() < 0.5:
            n = os.path.relpath(changes.pop(rng.randrange(len(changes))), here or '.')
            if rng.random() < 0.1:
                calls.append(('remove', n))
            calls.append(('copy', n + '~', n))
            ctx.counters['files changed between calls'] += 1
        out = rng.choice(['out.bin', 'o%d' % k, '../shared'])
        argv0 = rng.choice(['waterbear', '', 'x', '/usr/bin/waterbear', 'ü'])
        calls.append(invoke.encode([argv0] + c.args(out)))
        ctx.counters['command ' + c.name] += 1
    if rng.random() < 0.1:
        calls.append(invoke.encode(['waterbear', 'version']))
    if rng.random() < 0.4:
        calls.append(invoke.encode(['waterbear'] + failing(rng, projects[0].main)))
        ctx.counters['with a failing command at the end'] += 1
    return calls, keys


def compare(ctx, calls, exe, mode, wrapper=(), env=None, what=''):
    one, two = ctx.path('one'), ctx.path('two')
    invoke.twin(ctx, one, two)
    clock = {'WB_TIME': '1234567890'}
    a = invoke.executable(ctx, calls, one, dict(clock, LD_PRELOAD=ctx.extra['clock']))
    if a.rc == 101 or a.rc < 0:
        ctx.counters['the executable crashed'] += 1
        raise core.Inconclusive('the executable crashed: rc %d' % a.rc)
    extra = dict(clock)
    if not wrapper and exe == ctx.extra['plain']:
        extra['LD_PRELOAD'] = ctx.extra['clock']
    extra.update(env or {})
    # both work at the same place, which comments in expansions name
    os.rename(one, ctx.path('done'))
    os.rename(two, one)
    b = invoke.driver(ctx, exe, mode, calls, one, extra, wrapper)
    info = dict(library=b.describe(), executable=a.describe(), mode=mode,
                calls=[c if isinstance(c, tuple) else [repr(x[:200]) for x in c] for c in calls])
    if b'AddressSanitizer' in b.err or b'ERROR: LeakSanitizer' in b.err:
        m = re.search(rb'ERROR: AddressSanitizer: [^\n]*', b.err)
        raise core.Violation('%s: %s' % (what, m.group(0).decode('utf-8', 'replace') if m else 'sanitizer report'), **info)
    if b.rc == 77:
        m = re.search(rb'==\d+== (Invalid|Use of|Conditional|Syscall)[^\n]*', b.err)
        raise core.Violation('%s: memcheck: %s' % (what, m.group(0).decode() if m else 'error'), **info)
    if b.rc < 0:
        raise core.Violation('%s: the library ended by signal %d' % (what, -b.rc), **info)
    if b.rc == 95:
        raise core.Violation('%s: the library changed its arguments' % what, **info)
    if (a.rc == 0) != (b.rc == 0):
        raise core.Violation('%s: exit status %d with the executable, %d with the library' % (what, a.rc, b.rc), **info)
    if a.rc and a.returned != b.returned:
        raise core.Violation('%s: call %d fails with the executable, call %d with the library' % (what, a.returned, b.returned), **info)
    strict = 'LD_PRELOAD' in extra
    if normal(a.out) != normal(b.out):
        raise core.Violation('%s: different standard output' % what, difference=text_diff(normal(a.out), normal(b.out)), **info)
    x, y = invoke.tree(ctx.path('done')), invoke.tree(one)
    for n in sorted(set(x) | set(y)):
        if x.get(n, 0) != y.get(n, 0):
            if not strict and isinstance(x.get(n), bytes) and isinstance(y.get(n), bytes) and len(x[n]) == len(y[n]) == 108 and \
                    x[n][:0x44] + x[n][0x4C:] == y[n][:0x44] + y[n][0x4C:]:
                continue
            raise core.Violation('%s: different output file %r' % (what, n), difference=core.diff(x.get(n), y.get(n)), **info)
    if a.rc and not b.err.strip():
        raise core.Violation('%s: the library fails without an explanation' % what, **info)
    ctx.counters['calls compared'] += len([c for c in calls if not isinstance(c, tuple)])
    ctx.counters['calls that returned'] += b.returned
    ctx.counters['bytes of output compared'] += len(a.out) + sum(len(v or b'') for v in x.values())
    return a, b


MODES = ['guard', 'guard', 'under', 'heap', 'stack']
ASAN = {'ASAN_OPTIONS': 'exitcode=77:detect_leaks=0:detect_stack_use_after_return=1:check_initialization_order=1:allocator_may_return_null=0'}
VALGRIND = ['valgrind', '-q', '--error-exitcode=77', '--track-origins=no']


def hostile(rng):
    """An argument vector."""
    k = rng.randrange(9)
    pieces = ['assemble', 'expand', 'disassemble', 'icon', 'image', 'vmi', 'version', 'help', '-o', '--output', '-t', '-p', '-a', '-s', '-e', '-f',
              '-c', '-g', '--', '-', '', 'in.s', 'in.bin', 'in.vms', 'out', '-oout', '--output=out', '-h', '-V', '--help', '-pa', '-tgame', '-t=game',
              'json', '=', '-o=', '--type', 'bios', '-go', 'out2', '-c', 'text', '-x', '--what', '\x7f', '\n', '\t', ' ', '"', "'", '%s%n', '$HOME', '*',
              'ü', '日本', '\U0001f600', '\u202e', 'e\u0301']
    if k == 0:
        return ['waterbear'] + [rng.choice(pieces) for _ in range(rng.randrange(12))]
    if k == 1:
        return ['waterbear', 'vmi', 'in.vms', '-o', 'out', '-c', ''.join(rng.choice('abcäß日\U0001f600\n\t') for _ in range(rng.choice([0, 1, 31, 32, 33, 5000])))]
    if k == 2:
        return ['waterbear', 'assemble', 'x' * rng.choice([1, 255, 256, 4095, 4096, 4097, 100000]), '-o', 'out']
    if k == 3:
        return ['waterbear'] + ['in.s'] * rng.choice([2, 100, 3000])
    if k == 4:
        a = ['waterbear', 'assemble', 'in.s', '-o', 'out']
        a[rng.randrange(5)] = rng.choice([b'\xff', b'abc\x80', b'\xc3', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\x80', b'ok'])
        return a
    if k == 5:
        return []
    if k == 6:
        return [rng.choice(['', 'x' * 5000, 'ü', '-o', 'assemble'])] + ['assemble', 'in.s', '-o', 'out']
    if k == 7:
        p = 'dir/' * rng.randrange(1, 400) + 'in.s'
        return ['waterbear', rng.choice(['assemble', 'expand']), p, '-o', 'out'][:3 + 2 * rng.randrange(2)]
    c = rng.choice([['assemble', 'in.s', '-o', 'out'], ['disassemble', 'in.bin', '-o', 'out', '-t', 'game', '-p', '-a'], ['vmi', 'in.vms', '-g'],
                    ['expand', 'in.s'], ['image', 'in.png', '-f', 'json'], ['icon', 'in.png', '-s', '5']])
    c = list(c)
    for _ in range(rng.randrange(3)):
        j = rng.randrange(len(c) + 1)
        c[j:j + rng.randrange(2)] = [rng.choice(pieces)]
    return ['waterbear'] + c


def run_case(ctx, kind, i, rng):
    if kind == 'args':
        os.makedirs(ctx.path('one/dir'))
        ctx.write('one/in.s', ' .byte 1, 2, 3\n')
        ctx.write('one/in.bin', bytes([0x00, 0xa0] * 8))
        ctx.write('one/in.vms', bytes(range(256)) * 3)
        from vlib import png
        ctx.write('one/in.png', png.encode(32, 32, [[(x * 8, 0, 0, 255) if x < 8 else (0, 0, 0, 255) for x in range(32)] for _ in range(32)], 'rgba'))
        calls = []
        for _ in range(rng.choice([1, 1, 1, 3])):
            calls.append(invoke.encode(hostile(rng)))
        if len(calls) > 1 and any(x in c for c in calls[:-1] for x in (b'-h', b'--help', b'-V', b'--version', b'help', b'-hV')):
            # these end the process with success
            calls = calls[:1]
        for c in calls[:-1]:
            for x in c:
                if x.startswith(b'-') and (b'h' in x or b'V' in x):
                    calls = calls[:1]
                    break
        ctx.case(calls)
        ctx.counters['arguments'] += sum(map(len, calls))
        if calls == [[]]:
            # A process always has a name
            r = invoke.driver(ctx, ctx.extra['plain'], rng.choice(MODES), calls, ctx.path('one'))
            if r.rc != 1 or not r.err.strip():
                raise core.Violation('no arguments at all: exit status %d' % r.rc, library=r.describe())
            return
        calls = [c or [b'waterbear'] for c in calls]
        a, b = compare(ctx, calls, ctx.extra['asan'] if rng.random() < 0.3 else ctx.extra['plain'], rng.choice(MODES), env=ASAN, what='arguments')
        ctx.counters['accepted' if a.rc == 0 else 'refused'] += 1
        return
    calls, keys = prepare_calls(ctx, rng, kind == 'asan' and rng.random() < 0.6)
    ctx.case(repr((keys, calls)))
    if kind == 'sequence':
        mode = rng.choice(MODES)
        ctx.counters['mode ' + mode] += 1
        a, b = compare(ctx, calls, ctx.extra['plain'], mode, what='sequence')
        ctx.sample({'calls': [c if isinstance(c, tuple) else [x.decode('utf-8', 'replace') for x in c] for c in calls][:8], 'returned': b.returned})
    elif kind == 'asan':
        compare(ctx, calls, ctx.extra['asan'], rng.choice(['heap', 'guard', 'stack', 'under']), env=ASAN, what='under AddressSanitizer')
        ctx.counters['processes under AddressSanitizer'] += 1
    else:
        compare(ctx, calls[:8], ctx.extra['plain'], rng.choice(['heap', 'heap', 'guard', 'stack']), VALGRIND, what='under Valgrind')
        ctx.counters['processes under Valgrind'] += 1
