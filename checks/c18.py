"""C18: a failed command leaves no output and a succeeding one leaves it whole."""
import os
import resource
import signal
import socket
import subprocess

from vlib import build, core, dis, faults, pictures, project

TECHNIQUE = 'runtime monitoring with fault injection: directory trees before and after commands are compared; a preloaded library makes chosen opens, reads and writes fail, be short or be interrupted and logs what is written where'
LEVEL_NOTE = 'Sampled failing statements, places and commands; each kind of transfer fails at sampled positions with sampled errors; outputs on full devices, over size limits and in impossible places.'
RULE = ('fail: every planted fault in random files of random projects and damaged inputs of every command, with an existing or no '
        'output; write: outputs that cannot be written; replace: longer and shorter previous outputs; fault: the k-th open, read or '
        'write fails; short: transfers are short and interrupted. Distinct: projects with faults.')
ASSUMPTIONS = ['A command that survives an injected error must have delivered the complete result; then exit status 0 is right.',
               'Runs as root: permissions do not keep files from being written.']


def tasks(tier):
    n = 1 if tier == 'quick' else 12
    return [('fail', 2400 * n), ('bad', 1500 * n), ('write', 900 * n), ('replace', 900 * n), ('fault', 2400 * n), ('short', 700 * n)]


def prepare(tier):
    return build.native('faults.c', '-shared', '-fPIC', '-ldl', output='faults.so')


def snapshot(ctx):
    """{path: (kind, mode, content)} of everything in the scratch directory."""
    tree = {}
    for root, dirs, files in os.walk(ctx.dir):
        for n in dirs + files:
            p = os.path.join(root, n)
            st = os.lstat(p)
            if os.path.islink(p):
                tree[p] = ('link', st.st_mode, os.readlink(p))
            elif os.path.isfile(p):
                with open(p, 'rb') as f:
                    tree[p] = ('file', st.st_mode, f.read())
            else:
                tree[p] = ('other', st.st_mode, None)
    return tree


def differences(ctx, a, b, except_=None):
    out = []
    for p in sorted(set(a) | set(b)):
        if p == except_:
            continue
        if a.get(p) != b.get(p):
            how = 'created' if p not in a else 'removed' if p not in b else 'changed'
            out.append('%s %s' % (os.path.relpath(p, ctx.dir), how))
    return out


def env(ctx, **kw):
    e = {'HOME': ctx.path('home'), 'TMPDIR': ctx.path('tmp')}
    e.update(kw)
    return e


def scene(ctx, rng, kind=None, images=True):
    """(command, its inputs are written)"""
    for d in ('home', 'tmp', 'out dir'):
        os.makedirs(ctx.path(d), exist_ok=True)
    base = rng.choice(['', 'p/', 'a b/c/'])
    kind = kind or rng.choice(['assemble', 'assemble', 'assemble', 'expand', 'other', 'other', 'other'])
    if kind in ('assemble', 'expand'):
        p = project.Project(ctx, rng, base, images=images and rng.random() < 0.5)
        p.save()
        return (p.assemble() if kind == 'assemble' else p.expand()), p
    return project.other_command(ctx, rng, base, None if kind == 'other' else kind), None


OUTPUTS = ['out.bin', 'out dir/o.bin', 'out dir/x.y.z', 'o', '-o.bin', 'ö.bin', 'f1.s.bin']


def output_name(rng):
    n = rng.choice(OUTPUTS)
    return './' + n if n.startswith('-') else n


def previous(ctx, rng, out):
    """Puts something where the output goes; returns it."""
    if rng.random() < 0.4:
        return None
    data = rng.choice([b'', b'old', rng.randbytes(40), rng.randbytes(100000)])
    ctx.write(out, data)
    if rng.random() < 0.3:
        os.chmod(ctx.path(out), rng.choice([0o600, 0o444, 0o755]))
    return data


def must_fail(ctx, r, before, what):
    if r.rc == 0:
        raise core.Violation('%s: exit status 0' % what, result=r.describe())
    if r.crashed:
        raise core.Violation('%s: crashed' % what, result=r.describe())
    if not r.err.strip():
        raise core.Violation('%s: no explanation' % what, result=r.describe())
    d = differences(ctx, before, snapshot(ctx))
    if d:
        raise core.Violation('%s: failed, but %s' % (what, ', '.join(d[:4])), result=r.describe())
    if r.out:
        raise core.Violation('%s: failed, but printed output' % what, result=r.describe())
    ctx.counters['failures without a trace'] += 1


def reference(ctx, command, env_=None):
    """What a run without faults gives; the output is removed again."""
    ref = os.path.join(ctx.base, 'ref.out')
    if os.path.exists(ref):
        os.unlink(ref)
    r = ctx.run(*command.args(ref), env=env_ or env(ctx))
    if r.rc != 0:
        raise core.Violation('%s of a correct input fails' % command.name, result=r.describe())
    if command.output is None:
        return r.out
    with open(ref, 'rb') as f:
        return f.read()


def same(command, a, b):
    """Are two results the same, but for the time and invented names?"""
    if command.name == 'vmi':
        return a is not None and b is not None and a[:0x44] + a[0x4C:] == b[:0x44] + b[0x4C:]
    if command.name == 'expand':
        # private labels get new names each time
        return a is not None and b is not None and private(a) == private(b)
    return a == b


def private(text):
    import re
    return re.sub(rb'_[0-9A-Za-z]{12,}\b', b'_X', text)


def run_case(ctx, kind, i, rng):
    if kind == 'fail':
        fail(ctx, rng, i)
    elif kind == 'bad':
        bad(ctx, rng)
    elif kind == 'write':
        unwritable(ctx, rng)
    elif kind == 'replace':
        replace(ctx, rng)
    elif kind == 'fault':
        fault(ctx, rng)
    else:
        short(ctx, rng)


def fail(ctx, rng, i):
    command, p = scene(ctx, rng, rng.choice(['assemble', 'assemble', 'assemble', 'expand']))
    f = faults.ALL[(i + len(faults.ALL) // 2 * (i // len(faults.ALL))) % len(faults.ALL)]
    how = rng.randrange(10)
    if how == 0:
        f = rng.choice([' .include "missing.s"', ' .include bytes "missing"', ' .include icon "no.png"', ' .include sprite "no.png"',
                        ' .include cpp "no.h"', ' .include "."'])
    elif how == 1:
        ctx.write(p.base + 'bad.png', rng.randbytes(50))
        f = rng.choice([' .include icon "%s/bad.png"', ' .include sprite "%s/bad.png"', ' .include "%s/bad.png"',
                        ' .include cpp "%s/bad.png"']) % (ctx.path(p.base) or '.')
        ctx.write(p.base + 'bad.png', b'\x89PNG\xff' + rng.randbytes(50))
    elif how == 2:
        f = rng.choice(['q_q: nop\nq_q: nop', 'q_q = 5\nq_q: nop', '%macro q_q\n%end\n%macro q_q\n%end',
                        '%macro q_q\n q_q\n%end\n q_q', ' .byte 1 / 0'])
    name = rng.choice(sorted(p.texts))
    lines = p.texts[name]
    # outside of macros, where a lone .org is a local label
    inside, places = False, []
    for j in range(len(lines) + 1):
        if not inside:
            places.append(j)
        if j < len(lines):
            inside = lines[j].startswith('%macro') or inside and lines[j] != '%end'
    where = rng.choice([0, len(lines), rng.choice(places)])
    lines.insert(where, f)
    p.save()
    out = output_name(rng)
    previous(ctx, rng, out)
    before = snapshot(ctx)
    ctx.case(p.key() + command.name)
    ctx.counters['fault in %s' % ('an include' if name != p.main else 'the main file')] += 1
    r = ctx.run(*command.args(out), env=env(ctx))
    if command.name == 'expand' and r.rc == 0:
        # values may be out of range in an expansion
        d = differences(ctx, before, snapshot(ctx))
        if d:
            raise core.Violation('expand: %s' % ', '.join(d[:4]), result=r.describe())
        ctx.counters['fault that expands'] += 1
        command = p.assemble()
        r = ctx.run(*command.args(out), env=env(ctx))
    must_fail(ctx, r, before, '%s with %r in %s' % (command.name, f, name))


def bad(ctx, rng):
    """Other commands with inputs they have to refuse."""
    for d in ('home', 'tmp', 'out dir'):
        os.makedirs(ctx.path(d), exist_ok=True)
    k = rng.choice(['cut', 'type', 'no input', 'directory', 'icon size', 'colours', 'image', 'vmi', 'speed', 'arguments', 'text'])
    out = output_name(rng)
    o = ['-o', out]
    args = None
    if k == 'cut':
        typ = rng.choice(['raw', 'game', 'bios', 'file'])
        while args is None:
            data = dis.image(rng, rng.choice([60, 300, 700]), dis.ENTRIES[typ], rng.choice([0.5, 1]))
            cut = data and data[:rng.randrange(len(data))]
            if cut and dis.Reach(cut, dis.ENTRIES[typ]).cut is not None:
                args = ['disassemble', ctx.write('in.bin', cut), '-t', typ] + o + rng.choice([[], ['-p'], ['-a']])
    elif k == 'type':
        args = ['disassemble', ctx.write('in.bin', b'\0\0'), '-t', rng.choice(['games', '', 'RAW ', 'x'])] + o
    elif k in ('no input', 'directory'):
        p = 'missing' if k == 'no input' else 'out dir'
        args = rng.choice([['assemble', p] + o, ['disassemble', p] + o, ['vmi', p] + o, ['image', p] + o, ['icon', p], ['expand', p],
                           ['image', p], ['vmi', p]])
    elif k in ('icon size', 'colours'):
        if k == 'colours':
            palette = pictures.colours(rng, 30, 'none')
            flat = [palette[j % 30] for j in range(1024)]
            i = pictures.still(rng, [flat[y * 32:y * 32 + 32] for y in range(32)])
        else:
            i = project.picture(rng)
        if pictures.icon_ok(i, None):
            return
        p = ctx.write('icon' + i.ext, i.data)
        args = ['icon', p]
    elif k == 'image':
        i = project.picture(rng)
        data = rng.randbytes(60) if rng.random() < 0.5 else i.data[:rng.randrange(8)]
        p = ctx.write(rng.choice(['x.png', 'x.gif', 'x', 'x.bmp', 'x.PNG']), data)
        args = rng.choice([['image', p] + o, ['image', p, '-f', 'json'] + o, ['image', p], ['icon', p]])
    elif k == 'vmi':
        game = rng.random() < 0.5
        p = ctx.write('x.vms', rng.randbytes(rng.randrange(0x230 if game else 0x30)))
        args = ['vmi', p] + (['-g'] if game else []) + (o if rng.random() < 0.7 else [])
        if '-o' not in args:
            out = 'x.vmi'
    elif k == 'speed':
        i = project.icon(rng)
        args = ['icon', ctx.write('x' + i.ext, i.data), '-s', rng.choice(['65536', 'abc', '', '1.5'])]
    elif k == 'arguments':
        ctx.write('in.s', ' nop\n')
        args = rng.choice([['assemble'], ['assemble', 'in.s'], ['assemble', '-o', out], ['assemble', 'in.s', 'in.s', '-o', out], [],
                           ['unknown', 'in.s', '-o', out], ['assemble', 'in.s', '-o', out, '--what'], ['disassemble', 'in.s'],
                           ['assemble', 'in.s', '-o', out, '-o', out + '2'], ['image', 'in.s', '-f'], ['vmi', '-o', out]])
    else:
        text = rng.choice([b' .byte 1\n .text 3 "\xff"\n', b'\xff\xfe', b' nop ; \x80\n', ' nop\n'.encode('utf-16')])
        ctx.write('in.s', text)
        args = ['assemble', 'in.s'] + o
        if rng.random() < 0.4:
            ctx.write('top.s', ' nop\n .include "in.s"\n')
            args[1] = 'top.s'
        if rng.random() < 0.3:
            args = ['expand', args[1]]
    previous(ctx, rng, out)
    before = snapshot(ctx)
    ctx.case((k, args, before))
    ctx.counters['refused: ' + k] += 1
    r = ctx.run(*args, env=env(ctx))
    must_fail(ctx, r, before, 'refusal (%s) of %s' % (k, ' '.join(args)))


def limited(limit):
    def pre():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
    return pre


def spawn(ctx, args, stdout, pre=None, cwd=None):
    """A run with another standard output."""
    e = dict(ctx.env, PWD=cwd or ctx.dir)
    e.update(env(ctx))
    ctx.runs += 1
    # The size limit does not count for a pipe.
    p = subprocess.Popen([ctx.exe] + args, cwd=cwd or ctx.dir, env=e, stdin=subprocess.DEVNULL, stdout=stdout,
                         stderr=subprocess.PIPE, preexec_fn=pre, restore_signals=False)
    try:
        err = p.communicate(timeout=120)[1]
        rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise core.Inconclusive('wall clock limit')
    r = core.Result(args, rc, b'', err, False)
    ctx.trail.append(r)
    return r


def unwritable(ctx, rng):
    command, p = scene(ctx, rng)
    if rng.random() < 0.03:
        command = project.Command('version', lambda o: ['version'], None)
    ref = reference(ctx, command)
    before = snapshot(ctx)
    key = (command.args('x'), before)
    if command.output is None:
        how = rng.choice(['full', 'broken pipe', 'broken socket', 'read-only', 'limit'])
        if how == 'limit':
            path = os.path.join(ctx.base, 'stdout.txt')
            limit = rng.randrange(len(private(ref)) if command.name == 'expand' else len(ref))
            with open(path, 'wb') as f:
                r = spawn(ctx, command.args(), f, limited(limit))
        elif how == 'full':
            with open('/dev/full', 'wb') as f:
                r = spawn(ctx, command.args(), f)
        elif how == 'read-only':
            with open('/dev/null', 'rb') as f:
                r = spawn(ctx, command.args(), f)
            if r.rc == 0 or r.crashed:
                # Rust's standard output takes a descriptor that is not open for writing as a closed one
                ctx.counters['write to a read-only descriptor taken as closed'] += 1
                if r.crashed:
                    raise core.Violation('%s: crashed' % command.name, result=r.describe())
                return
        elif how == 'broken pipe':
            a, b = os.pipe()
            os.close(a)
            r = spawn(ctx, command.args(), b, lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN))
            os.close(b)
        else:
            a, b = socket.socketpair()
            a.close()
            r = spawn(ctx, command.args(), b.fileno(), lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN))
            b.close()
    else:
        how = rng.choice(['no directory', 'directory', 'file as directory', 'full', 'limit', 'limit', 'dangling', 'long', 'empty', 'nul'])
        if how == 'no directory':
            r = ctx.run(*command.args(rng.choice(['nowhere/x', 'nowhere/deep/x', '/proc/nowhere/x'])), env=env(ctx))
        elif how == 'directory':
            r = ctx.run(*command.args(rng.choice(['out dir', '.', 'out dir/', 'home/../out dir'])), env=env(ctx))
        elif how == 'file as directory':
            ctx.write('plain', b'x')
            before = snapshot(ctx)
            r = ctx.run(*command.args('plain/x'), env=env(ctx))
        elif how == 'full':
            if not ref:
                return
            r = ctx.run(*command.args('/dev/full'), env=env(ctx))
        elif how == 'dangling':
            os.symlink('nowhere/target', ctx.path('link'))
            before = snapshot(ctx)
            r = ctx.run(*command.args('link'), env=env(ctx))
        elif how == 'long':
            r = ctx.run(*command.args('x' * 300), env=env(ctx))
        elif how in ('empty', 'nul'):
            r = ctx.run(*command.args(''), env=env(ctx))
            how = 'empty'
        else:
            if not ref:
                return
            limit = rng.choice([0, len(ref) - 1, rng.randrange(len(ref))])
            out = ctx.path('out.bin')
            prev = previous(ctx, rng, 'out.bin')
            before = snapshot(ctx)
            with open('/dev/null', 'wb') as f:
                r = spawn(ctx, command.args(out), f, limited(limit))
            after = snapshot(ctx)
            after.pop(out, None)
            before.pop(out, None)
            if r.rc == 0 or r.crashed:
                raise core.Violation('%s: %d of %d bytes could be written: exit status %d' % (command.name, limit, len(ref), r.rc),
                                     result=r.describe(), previous=prev)
            d = differences(ctx, before, after)
            if d:
                raise core.Violation('%s over the size limit: %s' % (command.name, ', '.join(d[:4])), result=r.describe())
            ctx.case(key)
            ctx.counters['output: limit'] += 1
            return
    ctx.case(key)
    ctx.counters['output: ' + how] += 1
    if r.rc == 0 or r.crashed:
        raise core.Violation('%s: the output (%s) cannot be written: exit status %d' % (command.name, how, r.rc), result=r.describe())
    if not r.err.strip() and how != 'limit':
        raise core.Violation('%s: the output (%s) cannot be written: no explanation' % (command.name, how), result=r.describe())
    d = differences(ctx, before, snapshot(ctx))
    if d:
        raise core.Violation('%s: the output (%s) cannot be written, but %s' % (command.name, how, ', '.join(d[:4])), result=r.describe())


def replace(ctx, rng):
    command, p = scene(ctx, rng, rng.choice(['assemble', 'assemble', 'other', 'other', 'other', 'vmi', 'disassemble', 'image to file']))
    if command.output is None:
        ref = reference(ctx, command)
        before = snapshot(ctx)
        r = ctx.run(*command.args(), env=env(ctx))
        d = differences(ctx, before, snapshot(ctx))
        if d or r.rc != 0 or not same(command, r.out, ref):
            raise core.Violation('%s: exit status %d; %s' % (command.name, r.rc, ', '.join(d[:4])), result=r.describe())
        ctx.case((command.args(), before))
        return
    ref = reference(ctx, command)
    out = output_name(rng)
    place = out
    default = command.name == 'vmi' and rng.random() < 0.4
    args = command.args(out)
    if default:
        k = args.index('-o')
        place = out = args[1][:-4] + '.vmi'
        del args[k:k + 2]
    n = len(ref)
    old = rng.choice([None, b'', ref, ref + b'\0', ref[:-1], rng.randbytes(n), rng.randbytes(n + rng.randrange(1, 5000)),
                      rng.randbytes(rng.randrange(n + 1)), ref * 3])
    if old is not None:
        link = rng.random()
        if link < 0.15:
            # the name is a link to the file
            place = 'out dir/real'
            ctx.write(place, old)
            os.symlink(ctx.path(place), ctx.path(out))
            ctx.counters['through a link'] += 1
        else:
            ctx.write(out, old)
            if link < 0.4:
                os.chmod(ctx.path(out), rng.choice([0o600, 0o755, 0o666]))
    before = snapshot(ctx)
    r = ctx.run(*args, env=env(ctx))
    after = snapshot(ctx)
    ctx.case((args, before))
    ctx.counters['previous %s' % ('none' if old is None else 'longer' if len(old) > n else 'shorter' if len(old) < n else 'as long')] += 1
    if r.rc != 0:
        raise core.Violation('%s: fails with a previous output' % command.name, result=r.describe())
    with open(ctx.path(out), 'rb') as f:
        data = f.read()
    if not same(command, data, ref):
        raise core.Violation('%s over a previous output of %s bytes: %s' % (command.name, None if old is None else len(old),
                                                                         core.diff(ref, data)), result=r.describe(), args=args)
    for q in (out, place):
        for t in (before, after):
            t.pop(os.path.normpath(ctx.path(q)), None)
    d = differences(ctx, before, after)
    if d:
        raise core.Violation('%s: besides its output %s' % (command.name, ', '.join(d[:4])), result=r.describe(), args=args)
    ctx.counters['outputs compared'] += 1


def watched(ctx, command, out, fault_):
    """A run under the fault library; returns (result, log lines)."""
    log = os.path.join(ctx.base, 'log')
    if os.path.exists(log):
        os.unlink(log)
    r = ctx.run(*command.args(out), env=env(ctx, LD_PRELOAD=ctx.extra, WB_LOG=log, WB_ROOT=ctx.dir, WB_FAULT=fault_))
    with open(log, 'rb') as f:
        lines = f.read().decode('utf-8', 'replace').split('\n')
    os.unlink(log)
    for line in lines:
        if line.startswith('touch '):
            path = os.path.normpath(os.path.join(ctx.dir, line[6:]))
            ctx.counters['opened for writing or otherwise changed'] += 1
            if not path.startswith(ctx.dir + '/') and path not in ('/dev/null', '/dev/tty'):
                raise core.Violation('%s: writes to %s' % (command.name, path), result=r.describe())
    return r, lines


def fault(ctx, rng):
    command, p = scene(ctx, rng)
    out = output_name(rng)
    ref = reference(ctx, command)
    before0 = snapshot(ctx)
    r, log = watched(ctx, command, out, 'none:0:0')
    got = ctx.read(out) if command.output else r.out
    if r.rc != 0 or not same(command, got, ref):
        raise core.Violation('%s: another result when watched' % command.name, result=r.describe())
    ctx.remove(out)
    counts = {k: 0 for k in ('openr', 'openw', 'read', 'write')}
    for line in log:
        w = line.split(' ', 2)
        if w[0] in counts:
            counts[w[0]] = int(w[1])
    for _ in range(2):
        kinds = [k for k in counts if counts[k]]
        kind = rng.choice(kinds)
        k = rng.choice([1, counts[kind], rng.randrange(1, counts[kind] + 1)])
        errno = rng.choice({'openr': [5, 13, 24, 12], 'openw': [5, 13, 28, 30, 24], 'read': [5, 5, 116], 'write': [28, 5, 122, 27]}[kind])
        forever = rng.random() < 0.5
        previous(ctx, rng, out)
        before = snapshot(ctx)
        r, log = watched(ctx, command, out, '%s:%d:%d' % (kind, -k if forever else k, errno))
        hits = [line for line in log if ' FAULT ' in line]
        ctx.case((p.key() if p else before0, command.args(), kind, k, errno))
        what = '%s with error %d in %s %d of %d%s' % (command.name, errno, kind, k, counts[kind], ' and all later ones' if forever else '')
        if not hits:
            ctx.counters['the fault did not come about'] += 1
            if r.rc != 0:
                raise core.Inconclusive(what + ': failed without a fault')
            ctx.remove(out)
            continue
        ctx.counters['fault: %s' % kind] += 1
        if r.crashed:
            raise core.Violation('%s: crashed' % what, result=r.describe(), log=log[-20:])
        got = ctx.read(out) if command.output else r.out
        if r.rc == 0:
            if not same(command, got, ref):
                raise core.Violation('%s: exit status 0 with another result' % what, result=r.describe(), log=log[-20:])
            ctx.counters['fault survived'] += 1
            ctx.remove(out)
            continue
        if not r.err.strip():
            raise core.Violation('%s: no explanation' % what, result=r.describe(), log=log[-20:])
        after = snapshot(ctx)
        if kind in ('openw', 'write'):
            for t in (before, after):
                t.pop(ctx.path(out), None)
                t.pop(os.path.normpath(ctx.path(out)), None)
        elif r.out:
            raise core.Violation('%s: failed, but printed output' % what, result=r.describe())
        d = differences(ctx, before, after)
        if d:
            raise core.Violation('%s: failed, but %s' % (what, ', '.join(d[:4])), result=r.describe(), log=log[-20:])
        ctx.remove(out)


def short(ctx, rng):
    command, p = scene(ctx, rng)
    out = output_name(rng)
    ref = reference(ctx, command)
    previous(ctx, rng, out)
    before = snapshot(ctx)
    r, log = watched(ctx, command, out, 'random:%d' % rng.randrange(1, 1 << 30))
    for line in log:
        if line.startswith(('short', 'interrupted')):
            ctx.counters[line] += 1
    ctx.case((command.args(), before))
    got = ctx.read(out) if command.output else r.out
    if r.rc != 0 or not same(command, got, ref):
        raise core.Violation('%s: another result when transfers are short or interrupted: %s' % (command.name, core.diff(ref, got)),
                             result=r.describe(), log=log[-30:])
    after = snapshot(ctx)
    for t in (before, after):
        t.pop(os.path.normpath(ctx.path(out)), None)
    d = differences(ctx, before, after)
    if d:
        raise core.Violation('%s: besides its output %s' % (command.name, ', '.join(d[:4])), result=r.describe())
