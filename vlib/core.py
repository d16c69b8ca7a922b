"""Runner: distributes the cases of a check over processes, runs the real
executable for them, collects violations and what was observed."""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from vlib import build

VERIF = build.VERIF
EVIDENCE = os.path.join(VERIF, 'evidence')
FINDINGS = os.path.join(VERIF, 'known-findings.txt')

CPU_LIMIT = 60            # seconds of CPU time that no case may need
AS_LIMIT = 8 << 30        # bytes of address space that no case may need


class Inconclusive(Exception):
    pass


class Violation(Exception):
    """The oracle saw the property broken."""

    def __init__(self, what, key=None, **details):
        super().__init__(what)
        self.what = what
        self.key = key or what
        self.details = details


class Result:
    """What one run of the executable did."""
    __slots__ = ('args', 'rc', 'out', 'err', 'cpu_killed')

    def __init__(self, args, rc, out, err, cpu_killed):
        self.args, self.rc, self.out, self.err = args, rc, out, err
        self.cpu_killed = cpu_killed

    @property
    def crashed(self):
        """Ended by a panic (101) or a signal instead of deciding."""
        return self.rc < 0 or self.rc == 101 or self.rc > 128

    def describe(self):
        return {'args': [repr(a) if isinstance(a, bytes) else a for a in self.args], 'rc': self.rc,
                'stdout': self.out[:2000].decode('utf-8', 'replace'),
                'stderr': self.err[:2000].decode('utf-8', 'replace')}


class Ctx:
    """One worker's scratch directory, executable, and counters."""

    def __init__(self, prop, tier, seed, exe, worker, extra):
        self.prop, self.tier, self.seed, self.exe, self.worker = prop, tier, seed, exe, worker
        self.extra = extra
        self.counters = collections.Counter()
        self.distinct = set()
        self.samples = []
        self.evaluations = 0
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        self.base = tempfile.mkdtemp(prefix='wb-%s-' % prop, dir=base)
        self.dir = os.path.join(self.base, 'w')
        os.mkdir(self.dir)
        self.env = {'PATH': '/usr/bin:/bin', 'HOME': self.base, 'LC_ALL': 'C.UTF-8', 'RUST_BACKTRACE': '0'}
        self.runs = 0
        self.trail = []

    def fresh(self):
        """Empties the scratch directory."""
        shutil.rmtree(self.dir, ignore_errors=True)
        os.mkdir(self.dir)
        self.trail = []

    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, data):
        if isinstance(data, str):
            data = data.encode('utf-8')
        path = os.path.join(self.dir, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(data)
        return name

    def read(self, name):
        try:
            with open(os.path.join(self.dir, name), 'rb') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def remove(self, name):
        try:
            os.unlink(os.path.join(self.dir, name))
        except FileNotFoundError:
            pass

    def run(self, *args, cwd=None, env=None, stdin=b'', exe=None, wall=300, cpu=CPU_LIMIT):
        """Runs the executable (or `exe`, a list) with the args."""
        cmd = (exe or [self.exe]) + list(args)
        e = dict(self.env)
        cwd = cwd or self.dir
        e['PWD'] = cwd
        if env:
            for k, v in env.items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
        self.runs += 1
        # Output goes to files: a pipe would let a chatty process block.
        with open(os.path.join(self.base, 'out'), 'w+b') as fo, \
                open(os.path.join(self.base, 'err'), 'w+b') as fe:
            p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                                 stdout=fo, stderr=fe, close_fds=False)
            try:
                resource.prlimit(p.pid, resource.RLIMIT_CPU, (cpu, cpu + 2))
                resource.prlimit(p.pid, resource.RLIMIT_AS, (AS_LIMIT, AS_LIMIT))
                resource.prlimit(p.pid, resource.RLIMIT_CORE, (0, 0))
            except (ProcessLookupError, PermissionError):
                pass
            try:
                rc = p.wait(timeout=wall)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise Inconclusive('wall clock limit: %r' % (cmd,))
            fo.seek(0)
            fe.seek(0)
            out, err = fo.read(64 << 20), fe.read(1 << 20)
        r = Result(list(args), rc, out, err, rc == -signal.SIGXCPU)
        self.trail.append(r)
        if len(self.trail) > 6:
            del self.trail[0]
        return r

    def assemble(self, source='in.s', out='out.bin', **kw):
        """Assembles, and returns (bytes or None, result)."""
        self.remove(out)
        r = self.run('assemble', source, '-o', out, **kw)
        data = self.read(out)
        if r.rc == 0 and data is None:
            raise Violation('success without an output file', result=r.describe())
        if r.rc != 0 and data is not None:
            raise Violation('failure with an output file', result=r.describe())
        return data, r

    def assemble_text(self, text, name='in.s', **kw):
        self.write(name, text)
        return self.assemble(name, **kw)

    def case(self, distinct_key, nontrivial=True):
        """Counts an evaluated case."""
        self.evaluations += 1
        if nontrivial:
            if isinstance(distinct_key, str):
                distinct_key = distinct_key.encode('utf-8', 'surrogatepass')
            elif not isinstance(distinct_key, bytes):
                distinct_key = repr(distinct_key).encode()
            self.distinct.add(hashlib.blake2b(distinct_key, digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(obj)

    def close(self):
        shutil.rmtree(self.base, ignore_errors=True)


def short(data, n=96):
    if data is None:
        return None
    h = data[:n].hex()
    return h + ('... (%d bytes)' % len(data) if len(data) > n else '')


def diff(expected, actual):
    """Describes the first difference between two byte strings."""
    if expected is None or actual is None:
        return 'expected %s, got %s' % (short(expected), short(actual))
    for i, (a, b) in enumerate(zip(expected, actual)):
        if a != b:
            return 'byte $%X: expected %s, got %s' % (i, expected[i:i + 8].hex(), actual[i:i + 8].hex())
    if len(expected) != len(actual):
        return 'length: expected %d, got %d' % (len(expected), len(actual))
    return 'equal'


def load_findings(prop):
    found = {}
    try:
        with open(FINDINGS) as f:
            for line in f:
                if line.startswith('finding: '):
                    fields = line[len('finding: '):].rstrip('\n').split(' ', 2)
                    p, k = fields[0].split('=', 1)[1], fields[1].split('=', 1)[1]
                    if p == prop:
                        found[k] = fields[2] if len(fields) > 2 else ''
    except FileNotFoundError:
        pass
    return found


def save_replay(ctx, n, v, kind, index):
    d = os.path.join(EVIDENCE, 'replays', '%s-%s-%s-w%d-%d' % (ctx.prop, ctx.tier, ctx.seed, ctx.worker, n))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        shutil.copytree(ctx.dir, os.path.join(d, 'files'), symlinks=True)
    except Exception:
        pass
    info = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'kind': kind, 'index': index,
            'what': v.what, 'key': v.key, 'details': {k: repr_json(x) for k, x in v.details.items()},
            'last_runs': [r.describe() for r in ctx.trail],
            'rerun': 'VERIF_SEED=%s VERIF_TIER=%s python3 check.py %s --case %s %s'
                     % (ctx.seed, ctx.tier, ctx.prop, kind, index)}
    with open(os.path.join(d, 'violation.json'), 'w') as f:
        json.dump(info, f, indent=1)
    return os.path.relpath(d, VERIF)


def repr_json(x):
    if isinstance(x, bytes):
        return short(x, 400)
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)


def rng_for(seed, prop, kind, i):
    return random.Random('%s/%s/%s/%s' % (seed, prop, kind, i))


def worker_main(module, prop, tier, seed, exe, extra, worker, nworkers, tasks, deadline, stop, queue):
    mod = importlib.import_module(module)
    ctx = Ctx(prop, tier, seed, exe, worker, extra)
    violations, inconclusive, skipped = [], [], 0
    begin = time.monotonic()
    n = 0
    try:
        for kind, count in tasks:
            for i in range(count):
                n += 1
                if n % nworkers != worker:
                    continue
                if stop.value or time.monotonic() > deadline:
                    skipped += 1
                    continue
                ctx.fresh()
                try:
                    mod.run_case(ctx, kind, i, rng_for(seed, prop, kind, i))
                except Violation as v:
                    path = save_replay(ctx, len(violations), v, kind, i)
                    violations.append((v.what, v.key, path, kind, i))
                    if len(violations) >= 3 or time.monotonic() - begin > 100:
                        stop.value = 1
                except Inconclusive as e:
                    inconclusive.append('%s %d: %s' % (kind, i, e))
        if hasattr(mod, 'finish_worker'):
            mod.finish_worker(ctx)
        err = None
    except BaseException:
        err = traceback.format_exc()
    finally:
        ctx.close()
    queue.put({'violations': violations, 'inconclusive': inconclusive, 'skipped': skipped, 'error': err,
               'counters': ctx.counters, 'distinct': ctx.distinct, 'samples': ctx.samples,
               'evaluations': ctx.evaluations, 'runs': ctx.runs})


def main(prop, argv):
    start = time.monotonic()
    tier = 'thorough' if '--thorough' in argv else os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    sys.path.insert(0, VERIF)
    module = 'checks.' + prop.lower()
    mod = importlib.import_module(module)
    os.makedirs(EVIDENCE, exist_ok=True)
    try:
        exe = build.waterbear()
        extra = mod.prepare(tier) if hasattr(mod, 'prepare') else None
    except (build.BuildError, subprocess.TimeoutExpired) as e:
        print('ERROR: %s' % e)
        return 2
    built = time.monotonic() - start

    if '--case' in argv:
        k = argv.index('--case')
        ctx = Ctx(prop, tier, seed, exe, 99, extra)
        try:
            mod.run_case(ctx, argv[k + 1], int(argv[k + 2]), rng_for(seed, prop, argv[k + 1], int(argv[k + 2])))
            print('case held')
            return 0
        except Violation as v:
            path = save_replay(ctx, 0, v, argv[k + 1], int(argv[k + 2]))
            print(v.what, json.dumps({a: repr_json(b) for a, b in v.details.items()}, indent=1))
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        finally:
            ctx.close()

    replays = os.path.join(EVIDENCE, 'replays')
    for old in os.listdir(replays) if os.path.isdir(replays) else ():
        if old.startswith(prop + '-'):
            shutil.rmtree(os.path.join(replays, old), ignore_errors=True)
    tasks = mod.tasks(tier)
    limit = {'quick': 420, 'thorough': 3000}[tier]
    limit = getattr(mod, 'LIMIT', {}).get(tier, limit)
    deadline = time.monotonic() + limit
    nworkers = getattr(mod, 'WORKERS', min(8, os.cpu_count() or 1))
    stop = multiprocessing.Value('i', 0)
    queue = multiprocessing.Queue()
    procs = [multiprocessing.Process(target=worker_main,
                                     args=(module, prop, tier, seed, exe, extra, w, nworkers, tasks,
                                           deadline, stop, queue)) for w in range(nworkers)]
    for p in procs:
        p.start()
    results = []
    while len(results) < nworkers:
        try:
            results.append(queue.get(timeout=5))
        except Exception:
            if not any(p.is_alive() for p in procs) and queue.empty():
                break
    for p in procs:
        p.join()

    counters, distinct, samples = collections.Counter(), set(), []
    violations, inconclusive, errors, evaluations, skipped, runs = [], [], [], 0, 0, 0
    for r in results:
        for k, v in r['counters'].items():
            counters[k] = max(counters[k], v) if k.startswith(('most ', 'highest ')) else counters[k] + v
        distinct |= r['distinct']
        samples += r['samples']
        violations += r['violations']
        inconclusive += r['inconclusive']
        evaluations += r['evaluations']
        skipped += r['skipped']
        runs += r['runs']
        if r['error']:
            errors.append(r['error'])
    if len(results) < nworkers:
        errors.append('a worker process died')
    if hasattr(mod, 'conclude'):
        mod.conclude(counters, violations, errors)

    known = load_findings(prop)
    new = [v for v in violations if v[1] not in known]
    coverage = {'evaluations': evaluations, 'distinct_nontrivial': len(distinct), 'rule': mod.RULE,
                'samples': samples[:6] or ['(none)'], 'executions_of_the_executable': runs,
                'observed': dict(sorted(counters.items())), 'tasks': {k: c for k, c in tasks},
                'tasks_skipped_at_the_deadline': skipped, 'inconclusive': inconclusive[:20],
                'build_s': round(built, 1)}
    evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
                'coverage': coverage, 'assumptions': getattr(mod, 'ASSUMPTIONS', []),
                'wall_s': round(time.monotonic() - start, 2), 'violations': len(new)}
    tmp = os.path.join(EVIDENCE, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(EVIDENCE, prop + '.json'))

    for k in sorted({v[1] for v in violations if v[1] in known} | (
            set(known) if getattr(mod, 'ALWAYS_LIST', True) else set())):
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    for what, key, path, kind, i in new[:10]:
        print('%s: case %s %d: %s' % (prop, kind, i, what))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if new:
        return 1
    if errors:
        print('ERROR: %s' % '\n'.join(errors[:3]))
        return 2
    if evaluations == 0 or not distinct:
        print('ERROR: nothing was observed')
        return 2
    if len(inconclusive) > max(3, evaluations // 50):
        print('ERROR: too many inconclusive cases: %s' % inconclusive[:5])
        return 2
    print('%s held: %d cases (%d distinct and non-trivial), %d executions, %.0f s'
          % (prop, evaluations, len(distinct), runs, time.monotonic() - start))
    return 0
