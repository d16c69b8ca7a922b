"""C19: output is a deterministic function of the inputs."""
import os
import re
import shutil

from checks import c07, c08
from vlib import build, core, faults, invoke, project, render

TECHNIQUE = 'runtime monitoring: repeated executions in new processes and within one process under varied surroundings; output compared byte by byte, listings up to renaming of invented names'
LEVEL_NOTE = 'Sampled projects and commands, each in several processes (each with its own hash seeds) with sampled surroundings.'
RULE = ('again: each command in several new processes with other working directories, spellings of paths, environments, output paths, '
        'times, places of the whole tree; process: after other commands, also related and failing ones, within a process; '
        'status: wrong programs, whose exit status must be stable; many: large programs with many names, repeated more often. '
        'Distinct: inputs.')
ASSUMPTIONS = ['Comments are compared only when the command line and the working directory are the same.',
               'The date in a VMI file is not compared here (C16 does).']


def tasks(tier):
    n = 1 if tier == 'quick' else 12
    return [('again', 1500 * n), ('process', 700 * n), ('status', 500 * n), ('many', 120 * n)]


def prepare(tier):
    return {'clock': build.native('clock.c', '-shared', '-fPIC', output='clock.so'), 'lib': build.clib()}


TOKEN = re.compile(r'"(?:\\.|[^"\\])*"|;[^\n]*|[^\s,;:"()<>+*/^&|~#-]+|\n|[^\s]', re.S)


def tokens(text):
    """Tokens of a listing without comments and spacing."""
    out = []
    for m in TOKEN.finditer(text.decode('utf-8', 'surrogateescape')):
        t = m.group(0)
        if not t.startswith(';'):
            out.append(t)
    # lines that are empty (without comments) do not matter
    return [t for k, t in enumerate(out) if t != '\n' or (k and out[k - 1] != '\n')]


def listing_difference(a, b, known):
    """None, or how two expansions differ besides names that are not in `known`."""
    x, y = tokens(a), tokens(b)
    if len(x) != len(y):
        return '%d and %d tokens' % (len(x), len(y))
    there, back = {}, {}
    for s, t in zip(x, y):
        if s == t and s not in there and t not in back:
            if s.lower() in known or not re.match(r'[A-Za-z_.]', s):
                continue
        if s.lower() in known or t.lower() in known:
            if s != t:
                return '%r and %r' % (s, t)
            continue
        if not re.match(r'[A-Za-z_.]', s) or not re.match(r'[A-Za-z_.]', t):
            if s != t:
                return '%r and %r' % (s, t)
            continue
        if there.setdefault(s, t) != t or back.setdefault(t, s) != s:
            return '%r and %r are not the same name' % (s, t)
    return None


def words(ctx, top):
    known = set()
    for n, data in invoke.tree(top).items():
        if data is not None and len(data) < 300000:
            text = data.decode('utf-8', 'replace').lower()
            known.update(w for w in re.split(r'[\s,;:"()<>+*/^&|~#%-]+', text))
    return known


def surroundings(ctx, rng):
    e = {}
    for k, values in (('TZ', ['UTC', 'X-14', 'Asia/Tokyo', '']), ('LANG', ['C', 'de_DE.UTF-8', 'tr_TR.UTF-8', '']),
                      ('LC_ALL', ['C', 'POSIX', 'C.UTF-8', 'tr_TR']), ('HOME', ['/', '/nonexistent', ctx.base]), ('TMPDIR', ['/nonexistent', ctx.base]),
                      ('RUST_BACKTRACE', ['1', 'full', '0']), ('TERM', ['dumb', 'xterm-256color', '']), ('COLUMNS', ['1', '400']),
                      ('NO_COLOR', ['1']), ('CLICOLOR_FORCE', ['1']), ('USER', ['root', 'somebody']), ('RUST_LOG', ['trace']), ('PATH', ['', '/bin']),
                      ('PWD', ['/', '/nonexistent', '', None, ctx.base, 'relative']), ('SOURCE_DATE_EPOCH', ['1']), ('LINES', ['3']),
                      ('RUST_MIN_STACK', ['100000', '99999999']), ('WATERBEAR_PATH', ['/x']), ('INCLUDE', ['/x']), ('JUNK', ['x' * 20000, '\x01'])):
        if rng.random() < 0.35:
            e[k] = rng.choice(values)
    if rng.random() < 0.4:
        e['LD_PRELOAD'] = ctx.extra['clock']
        e['WB_TIME'] = str(rng.choice([0, 1, 999999999, 4102444800, rng.randrange(1 << 33)]))
    return e


def spell(rng, path, cwd, top):
    """Another way to write the (absolute) path."""
    k = rng.randrange(7)
    rel = os.path.relpath(path, cwd)
    if k == 0:
        return path
    if k == 1:
        return './' + rel
    if k == 2:
        return os.path.join(os.path.dirname(path), '.', os.path.basename(path))
    if k == 3:
        d = os.path.dirname(path)
        return '%s/../%s/%s' % (d, os.path.basename(d), os.path.basename(path))
    if k == 4:
        return path.replace('/', '//')
    if k == 5 and path.startswith(top + '/'):
        # through a link
        link = os.path.join(os.path.dirname(top), 'link')
        if not os.path.lexists(link):
            os.symlink(top, link)
        return link + path[len(top):]
    return rel


class Task:
    """A command line whose input path is at args[at]."""

    def __init__(self, name, args, at, out):
        self.name, self.args, self.at, self.out = name, args, at, out


def scene(ctx, rng):
    top = 'tree/'
    if rng.random() < 0.6:
        p = project.Project(ctx, rng, top + rng.choice(['', 'a b/']), rng.choice([0.5, 1, 1]), rng.random() < 0.5)
        p.save()
        if rng.random() < 0.5:
            t = Task('assemble', ['assemble', p.path(p.main), '-o', None], 1, 'file')
        else:
            t = Task('expand', ['expand', p.path(p.main)], 1, None)
        return t, p.key()
    c = project.other_command(ctx, rng, top)
    args = c.args(None)
    return Task(c.name, args, 1, c.output), repr((args, sorted(invoke.tree(ctx.path('tree')).items())))


def cut_date(data):
    return data[:0x44] + data[0x4C:]


def same(task, a, b, exact, known):
    """None, or the difference of two results."""
    if task.name == 'vmi':
        a, b = cut_date(a), cut_date(b)
    elif task.name == 'expand':
        return listing_difference(a, b, known)
    elif task.name == 'icon' and not exact:
        a, b = ['\n'.join(tokens(x)).encode('utf-8', 'surrogateescape') for x in (a, b)]
    return None if a == b else core.diff(a, b)


def one(ctx, rng, task, plain, n):
    """A run; returns (status, output, result)."""
    top = ctx.path('tree')
    path = ctx.path(task.args[task.at])
    args, cwd, env = list(task.args), ctx.dir, {}
    out = ctx.path('out.bin')
    if not plain:
        if rng.random() < 0.25:
            # the tree is somewhere else
            moved = ctx.path(rng.choice(['moved', 'mö ved', 'm/o/v/e/d']))
            shutil.rmtree(moved, ignore_errors=True)
            shutil.copytree(top, moved)
            path = moved + path[len(top):]
            # eyecatches are other arguments
            args = [moved + a[4:] if isinstance(a, str) and a.startswith('tree/') else a for a in args]
            top = moved
            ctx.counters['tree somewhere else'] += 1
        cwd = rng.choice([ctx.dir, '/', os.path.dirname(path), top, ctx.base])
        args = [ctx.path(a) if isinstance(a, str) and a.startswith('tree/') else a for a in args]
        args[task.at] = spell(rng, path, cwd, top)
        if task.name == 'vmi':
            # its names are taken from the path's last part
            args[task.at] = os.path.join(os.path.dirname(args[task.at]), os.path.basename(path))
        env = surroundings(ctx, rng)
        out = rng.choice([ctx.path('out.bin'), ctx.path('öther.s'), ctx.path('deep/er/out')])
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if rng.random() < 0.3:
            ctx.write(out, b'previous' * rng.choice([1, 1000]))
        outarg = os.path.relpath(out, cwd) if rng.random() < 0.4 else out
    else:
        outarg = out
        if os.path.exists(out):
            os.unlink(out)
    args = [outarg if a is None else a for a in args]
    r = ctx.run(*args, cwd=cwd, env=env)
    if r.crashed:
        raise core.Inconclusive('crashed')
    data = None
    if r.rc == 0:
        if task.out is None:
            data = r.out
        else:
            with open(out, 'rb') as f:
                data = f.read()
    return r.rc, data, r


def run_case(ctx, kind, i, rng):
    if kind == 'process':
        return process(ctx, rng)
    if kind == 'status':
        return status(ctx, rng)
    if kind == 'many':
        ctx.write('tree/in.s', many(rng))
        task = rng.choice([Task('assemble', ['assemble', 'tree/in.s', '-o', None], 1, 'file'), Task('expand', ['expand', 'tree/in.s'], 1, None)])
        key, times = ctx.read('tree/in.s'), 12
    else:
        task, key = scene(ctx, rng)
        times = rng.choice([2, 3, 5])
    known = words(ctx, ctx.path('tree')) if task.name == 'expand' else ()
    rc, ref, first = one(ctx, rng, task, True, 0)
    ctx.case(key)
    ctx.counters['command ' + task.name] += 1
    if rc != 0:
        raise core.Inconclusive('correct input fails: %s' % first.err[-300:])
    for n in range(times):
        plain = n == 0
        rc, data, r = one(ctx, rng, task, plain, n + 1)
        if rc != 0:
            raise core.Violation('%s fails when repeated %s' % (task.name, 'as it was' if plain else 'with other surroundings'), result=r.describe())
        d = same(task, ref, data, plain, known)
        if d:
            raise core.Violation('%s gives another result when repeated %s: %s'
                                 % (task.name, 'as it was' if plain else 'with other surroundings', d), result=r.describe(), first=first.describe())
        ctx.counters['results compared'] += 1
        ctx.counters['bytes compared'] += len(data)
    if rng.random() < 0.01:
        ctx.sample({'command': [str(a) for a in task.args], 'runs': times + 1, 'bytes': len(ref)})


def many(rng):
    """A program with many names of all kinds in one scope."""
    lines = []
    n = rng.choice([20, 60, 150])
    order = list(range(n))
    rng.shuffle(order)
    for k in order:
        lines.append(rng.choice(['label_%d:\n .word label_%d', 'const_%d = %d', '%%macro mac_%d %%x, %%y\n l%%: add #%%x + %d\n m%%: ld %%y\n bz l%%\n br m%%\n%%end',
                                 'lab_%d:\n.a: nop\n.b: nop\n.c: br .a\n br .b ; %d']) % (k, k % 200))
    for k in order:
        if 'mac_%d %%x' % k in '\n'.join(lines):
            lines.append(' mac_%d %d, %d' % (k, rng.randrange(50), rng.randrange(500)))
    lines.append(' .byte ' + ', '.join('<label_%d' % k for k in order if 'label_%d:\n .word label_%d' % (k, k) in lines) + ', 0' if any(
        x.startswith('label_') for x in lines) else ' nop')
    return '\n'.join(lines) + '\n'


def process(ctx, rng):
    """A command after others in one process, against a new process."""
    task, key = scene(ctx, rng)
    known = words(ctx, ctx.path('tree')) if task.name == 'expand' else ()
    rc, ref, first = one(ctx, rng, task, True, 0)
    if rc != 0:
        raise core.Inconclusive('correct input fails')
    calls = []
    # Others that come before: related programs that share names and files
    for k in range(rng.randrange(1, 6)):
        how = rng.randrange(4)
        if how == 0:
            calls.append(invoke.encode(['x'] + [ctx.path('before%d' % k) if a is None else a for a in task.args]))
        elif how == 1:
            p = project.Project(ctx, rng, 'other%d/' % k, 0.6, False)
            p.save()
            calls.append(invoke.encode(['x'] + p.assemble().args(ctx.path('o%d' % k))))
        elif how == 2:
            ctx.write('m%d.s' % k, many(rng))
            calls.append(invoke.encode(['x', rng.choice(['assemble', 'expand']), 'm%d.s' % k]))
            if calls[-1][1] == b'assemble':
                calls[-1] += [b'-o', b'm']
        else:
            c = project.other_command(ctx, rng, 'oth%d/' % k)
            calls.append(invoke.encode(['x'] + c.args(ctx.path('o%d' % k))))
    final = ctx.path('final.out')
    mark = b'    unlikely_marker_of_the_end: nop\n'
    ctx.write('mark.s', mark)
    calls.append(invoke.encode(['x', 'expand', 'mark.s']))
    calls.append(invoke.encode(['x'] + [final if a is None else a for a in task.args]))
    r = invoke.driver(ctx, ctx.extra['lib'], 'heap', calls, ctx.dir)
    ctx.case(repr((key, calls)))
    if r.rc < 0:
        raise core.Inconclusive('the driver crashed')
    if r.rc != 0 or r.returned != len(calls):
        raise core.Violation('%s fails after other commands in the process' % task.name, library=r.describe(), calls=[repr(c) for c in calls])
    if task.out is None:
        k = r.out.rindex(b'unlikely_marker_of_the_end')
        # behind the marker, the rest of its listing
        data = r.out[r.out.index(b'nop', k):].split(b'\n', 1)[1]
    else:
        data = ctx.read('final.out')
    if data is None:
        raise core.Violation('%s without output after other commands in the process' % task.name, library=r.describe())
    if task.name == 'icon':
        data = data.replace(b'x icon', b'icon')
    d = same(task, ref, data, False, known)
    if d:
        raise core.Violation('%s gives another result after other commands in the process: %s' % (task.name, d), library=r.describe(),
                             calls=[repr(c) for c in calls])
    ctx.counters['results compared'] += 1
    ctx.counters['commands before in the process'] += len(calls) - 1


def status(ctx, rng):
    """Wrong or strange programs are refused always or never."""
    k = rng.randrange(4)
    if k == 0:
        src = render.program(c07.pool_program(rng), render.Random(rng, 0.3), lambda: rng.random() < 0.3)
    elif k == 1:
        src = c08.misuse(rng)[1]
    elif k == 2:
        src = many(rng) + '\n'.join(rng.choice(faults.ALL) for _ in range(rng.choice([1, 2, 4]))) + '\n'
    else:
        a, b = rng.choice(faults.CLASHES)
        src = many(rng) + a + '\n' + many(rng).replace('_', '_q') + b + '\n'
    ctx.write('tree/in.s', src)
    task = Task('assemble', ['assemble', 'tree/in.s', '-o', None], 1, 'file')
    rc, ref, first = one(ctx, rng, task, True, 0)
    ctx.case(src)
    for n in range(5):
        c, data, r = one(ctx, rng, task, n < 2, n + 1)
        if (c == 0) != (rc == 0) or c != rc:
            raise core.Violation('exit status %d, and %d when repeated' % (rc, c), result=r.describe(), first=first.describe())
        if data != ref:
            raise core.Violation('another result when repeated: %s' % core.diff(ref, data), result=r.describe())
    ctx.counters['stable ' + ('refusals' if rc else 'acceptances')] += 1
