"""C16: VMI files describe their VMS file exactly."""
import datetime
import os
import struct
import time

from vlib import build, core

TECHNIQUE = 'runtime oracle: generated VMI files compared byte by byte with an independent model; clock bracketed, or stood at (or stepped from read to read) by a preloaded clock_gettime at dates from 1971 to 2200, in many time zones'
LEVEL_NOTE = 'All 108 bytes for sampled VMS files, names, copyright texts and options; the date at the real time, at a clock that jumps whenever it is read, and at sampled times of the years 1971 to 2200 in sampled time zones.'
RULE = ('vmi: files of random content and lengths, among them the shortest with a complete header, names and copyright texts of every '
        'length around their fields with non-ASCII ones, game flag or not, output given or not; zones: time zones, which put other dates and hours '
        'in the file; short: files without a complete header; missing: unreadable ones. Distinct: names, options, contents.')
ASSUMPTIONS = ['The clock does not jump during a case (otherwise repeated).',
               'Time zones are POSIX TZ strings and the zone files installed.']

ZONES = ['UTC0', 'X-14', 'X12', 'X-5:45', 'X3:30', 'EST5EDT,M3.2.0,M11.1.0', 'AEST-10AEDT,M10.1.0,M4.1.0/3', 'X-0:30', 'X9:59']

NAMED = [z for z in ('Europe/Berlin', 'America/New_York', 'Asia/Tokyo', 'Australia/Adelaide', 'Asia/Kolkata')
         if os.path.exists('/usr/share/zoneinfo/' + z)]


def tasks(tier):
    n = 1 if tier == 'quick' else 10
    return [('vmi', 2500 * n), ('zones', 500 * n), ('short', 400 * n), ('lengths', 140), ('dates', 3000 * n), ('hours', 120)]


CHARS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_- .\\:~%$*?",;=+#&'


def prepare(tier):
    return build.native('clock.c', '-shared', '-fPIC', output='clock.so')


def moment(rng):
    t = rng.random()
    if t < 0.4:
        return rng.randrange(31536000, 7258118400)
    y, m, d = rng.choice([(rng.randrange(1971, 2200), rng.randrange(1, 13), 1), (rng.randrange(1971, 2200), 1, 1),
                          (rng.randrange(1971, 2200), 3, 1), (rng.choice([2000, 2004, 2024, 2028, 2096, 2100]), 2, 28),
                          (rng.choice([2038, 2106]), rng.randrange(1, 3), rng.randrange(5, 23))])
    return int((datetime.datetime(y, m, d) - datetime.datetime(1970, 1, 1)).total_seconds()) + rng.randrange(-3, 90000)


def text(rng, n):
    if rng.random() < 0.2:
        return ''.join(rng.choice('äöüß✓日本 €a') for _ in range(n))
    return ''.join(rng.choice(CHARS) for _ in range(n))


def expected(vms, filename, copyright, game, local):
    offset = 0x200 if game else 0
    name = filename.encode('utf-8')
    base = name[:-4] if name.endswith(b'.vms') else name
    resource = base[:8].ljust(8, b'\0')
    return (bytes(a & b for a, b in zip(resource, b'SEGA')) + vms[offset + 0x10:offset + 0x30] +
            copyright.encode('utf-8')[:32].ljust(32, b'\0') +
            struct.pack('<HBBBBBB', local.tm_year, local.tm_mon, local.tm_mday, local.tm_hour, local.tm_min, local.tm_sec,
                        (local.tm_wday + 1) % 7) +
            bytes(2) + struct.pack('<H', 1) + resource + name[:12].ljust(12, b'\0') +
            struct.pack('<HHI', 2 if game else 0, 0, len(vms)))


def local_times(zone, before, after):
    """The local times of the seconds of an interval."""
    old = os.environ.get('TZ')
    try:
        if zone is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = zone
        time.tzset()
        return [time.localtime(t) for t in range(int(before), int(after) + 1)]
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


FIELDS = [(0, 'checksum'), (4, 'description'), (0x24, 'copyright'), (0x44, 'date'), (0x4C, 'version'), (0x4E, 'file number'),
          (0x50, 'resource name'), (0x58, 'file name'), (0x64, 'file mode'), (0x68, 'file size')]


def examine(ctx, rng, vms, filename, copyright, game, zone, what, sub='', output='given', at=None, step=None):
    path = sub + filename
    ctx.write(path, vms)
    stem = path[:-4] if path.endswith('.vms') else path
    out = {'given': 'the output.x', 'default': stem + '.vmi', 'same name': 'out.vmi'}[output]
    args = ['vmi', path]
    if output != 'default':
        args += ['-o', out]
    if copyright is not None:
        args += rng.choice([['-c', copyright], ['--copyright', copyright]]) if not copyright.startswith('-') else \
            ['--copyright=' + copyright]
    if game:
        args.append(rng.choice(['-g', '--game']))
    rng.random() < 0.3 and args.append(args.pop(1))
    if rng.random() < 0.3:
        ctx.write(out, b'previous content ' * rng.randrange(20))
    for _ in range(3):
        before = time.time()
        env = {'TZ': zone}
        if at is not None:
            env.update({'LD_PRELOAD': ctx.extra, 'WB_TIME': str(at)})
        if step is not None:
            env['WB_STEP'] = str(step)
        r = ctx.run(*args, env=env)
        after = time.time()
        if after - before < 5:
            break
    else:
        raise core.Inconclusive('the clock jumps')
    if at is not None:
        before = after = at
    if r.rc != 0:
        raise core.Violation('%s: failed' % what, result=r.describe(), length=len(vms))
    data = ctx.read(out)
    if data is None:
        raise core.Violation('%s: there is no output file %s' % (what, out), result=r.describe())
    ctx.case((vms, filename, copyright, game, zone))
    times = local_times(zone, before, after)
    if step is not None:
        times = [local_times(zone, at + k * step, at + k * step)[0] for k in range(60)]
    possible = [expected(vms, filename, copyright or '', game, t) for t in times]
    if data not in possible:
        if len(data) != 108:
            raise core.Violation('%s: the file has %d bytes' % (what, len(data)), result=r.describe())
        want = possible[-1]
        if all(data[0x44:0x4C] != p[0x44:0x4C] for p in possible):
            where = 0x44
        else:
            where = next(i for i in range(108) if data[i] != want[i] and not 0x44 <= i < 0x4C)
        field = [f for p, f in FIELDS if p <= where][-1]
        raise core.Violation('%s: the %s is wrong: %s' % (what, field, core.diff(want, data)), result=r.describe(), expected=want,
                             actual=data, zone=zone, name=filename)
    if ctx.read(path) != vms:
        raise core.Violation('%s: the input was changed' % what)
    ctx.counters['files compared'] += 1
    ctx.counters['game' if game else 'no game'] += 1
    ctx.counters['output ' + output] += 1
    ctx.counters['weekday %d' % data[0x4B]] += 1
    ctx.counters['hour %d' % data[0x48]] += 1
    ctx.counters['month %d' % data[0x46]] += 1
    ctx.sample({'args': args, 'vmi': core.short(data, 108), 'zone': zone})


def run_case(ctx, kind, i, rng):
    game = rng.random() < 0.5
    need = 0x230 if game else 0x30
    if kind == 'short':
        n = rng.choice([0, 1, 0x10, 0x2F, 0x200, 0x210, 0x22F, rng.randrange(need)])
        exists = rng.random() < 0.8
        if exists:
            ctx.write('x.vms', rng.randbytes(n))
        previous = rng.choice([None, b'previous'])
        if previous:
            ctx.write('x.vmi', previous)
        ctx.case((n, game, exists, previous))
        r = ctx.run('vmi', 'x.vms', *(['-g'] if game else []))
        ok = exists and n >= need
        if ok and r.rc != 0:
            raise core.Violation('a file with a complete header was rejected', result=r.describe(), length=n)
        if not ok:
            if r.rc == 0 or r.crashed or not r.err.strip():
                raise core.Violation('a file without a complete header was not rejected cleanly', result=r.describe(), length=n,
                                     exists=exists)
            if ctx.read('x.vmi') != previous:
                raise core.Violation('a rejected file led to output', result=r.describe())
            ctx.counters['rejected'] += 1
        return
    length = rng.choice([need, need, need + 1, 0x230, 0x400, 65536, 131072, rng.randrange(need, 5000), rng.randrange(need, 70000)])
    if length < need:
        length = need
    vms = bytearray(rng.randbytes(length))
    if rng.random() < 0.5:
        off = 0x200 if game else 0
        vms[off + 0x10:off + 0x30] = text(rng, 60).encode('utf-8')[:32].ljust(32, b'\0')
        vms[off:off + 0x10] = b'MENU TEXT       '
    vms = bytes(vms)
    if kind == 'lengths':
        k = i % 35
        name = ''.join(rng.choice(CHARS[:60]) for _ in range(k + 1)) + ('.vms' if i < 70 else rng.choice(['', '.VMS', '.bin', '.vms.vms']))
        name = name.lstrip('-') or 'a.vms'
        copyright = 'c' * k
        examine(ctx, rng, vms, name, copyright, game, None, 'lengths')
        return
    name = text(rng, rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 20])).strip(' .-') or 'x'
    name += rng.choice(['.vms', '.vms', '.vms', '.vms.vms', '.VMS', '.bin', '', 'xvms', '.vmsx'])
    copyright = None
    if rng.random() < 0.8:
        copyright = text(rng, rng.choice([0, 1, 10, 31, 32, 33, 64, 200]))
    if kind == 'dates':
        zone = rng.choice(['UTC0'] + ZONES + NAMED)
        step = rng.choice([None, None, 1, 61, 3661, 90061, 2768461, 34304461])
        examine(ctx, rng, vms, name, copyright, game, zone, 'dates', at=moment(rng), step=step)
        ctx.counters['dates' if step is None else 'dates with a clock that jumps'] += 1
        return
    if kind == 'hours':
        # every zone of 30 minutes: hours, dates and weekdays of almost two days
        minutes = -14 * 60 + i * (26 * 60) // 120
        zone = 'X%s%d:%02d' % ('-' if minutes < 0 else '', abs(minutes) // 60, abs(minutes) % 60)
        examine(ctx, rng, vms, name, copyright, game, zone, 'hours')
        return
    zone = rng.choice(ZONES) if kind == 'zones' else rng.choice([None, 'UTC0'])
    sub = rng.choice(['', '', 'dir/', 'a.vms/', './', 'd/../'])
    if sub == 'd/../':
        ctx.write('d/x', b'')
    examine(ctx, rng, vms, name, copyright, game, zone, kind, sub, rng.choice(['given', 'default', 'default', 'same name']))
