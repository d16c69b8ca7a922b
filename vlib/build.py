"""Builds what the checks need from /repo's working tree (always offline)."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('WB_REPO', '/repo')
BUILD = os.environ.get('WB_BUILD', os.path.join(VERIF, '.build'))


class BuildError(Exception):
    pass


def cargo_env(extra=None):
    env = dict(os.environ)
    env['PATH'] = '/usr/local/bin:/root/.cargo/bin:' + env.get('PATH', '')
    env.update({
        'CARGO_NET_OFFLINE': 'true',
        'CARGO_INCREMENTAL': '0',
        'CARGO_TERM_COLOR': 'never',
        'RUSTC_WRAPPER': '',
        'CARGO_PROFILE_DEV_DEBUG': '0',
        # Optimised, but with overflow checks and debug assertions: an
        # arithmetic overflow anywhere is a panic that the monitors see.
        'CARGO_PROFILE_DEV_OPT_LEVEL': '1',
        'CARGO_PROFILE_DEV_OVERFLOW_CHECKS': 'true',
        'CARGO_PROFILE_DEV_DEBUG_ASSERTIONS': 'true',
    })
    env.setdefault('RUSTUP_TOOLCHAIN', 'stable-x86_64-unknown-linux-gnu')
    env.update(extra or {})
    return env


def source_files():
    for top in ('Cargo.toml', 'Cargo.lock', 'build.rs', 'src',
                'waterbear-instruction-derive', 'libwaterbear'):
        path = os.path.join(REPO, top)
        if os.path.isfile(path):
            yield path
        for root, dirs, files in os.walk(path):
            dirs[:] = sorted(d for d in dirs if d not in ('target', '.git'))
            for f in sorted(files):
                yield os.path.join(root, f)


def source_hash(extra=()):
    h = hashlib.sha256()
    for path in list(source_files()) + list(extra):
        with open(path, 'rb') as f:
            data = f.read()
        h.update(('%s %d\n' % (path, len(data))).encode())
        h.update(data)
    return h.hexdigest()


def run(cmd, env, timeout=800, **kw):
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, **kw)
    if p.returncode != 0:
        sys.stdout.write(p.stdout.decode('utf-8', 'replace')[-4000:])
        raise BuildError('failed: %s' % ' '.join(cmd))
    return p.stdout.decode('utf-8', 'replace')


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def _stamp(name, digest, build):
    """Runs build(stale) unless the stamp says it was done for this source."""
    with Lock(name):
        stamp = os.path.join(BUILD, name + '.stamp')
        try:
            with open(stamp) as f:
                old = f.read()
        except OSError:
            old = None
        if old != digest:
            # Cargo decides by modification times, which a restored file may
            # not have moved forward: drop what was built from other sources.
            if old is not None:
                os.unlink(stamp)
            build(True)
            with open(stamp, 'w') as f:
                f.write(digest)


def waterbear():
    """The waterbear executable of the current tree."""
    target = os.path.join(BUILD, 'main')
    exe = os.path.join(target, 'debug', 'waterbear')

    def build(stale):
        env = cargo_env()
        if os.path.exists(target):
            run(['cargo', 'clean', '-q', '--offline', '--locked', '--manifest-path', REPO + '/Cargo.toml',
                 '--target-dir', target, '-p', 'waterbear', '-p', 'waterbear-instruction-derive'], env)
        run(['cargo', 'build', '-q', '--offline', '--locked', '--manifest-path', REPO + '/Cargo.toml',
             '--bin', 'waterbear', '--target-dir', target], env)

    _stamp('main', source_hash(), build)
    return exe


def afl():
    """The executable with coverage for AFL++, or None if that isn't there."""
    if not os.path.exists('/usr/lib/afl/afl-compiler-rt-64.o') or not shutil.which('afl-fuzz'):
        return None
    target = os.path.join(BUILD, 'afl')
    wrapper = os.path.join(VERIF, 'tools', 'sancov-rustc.sh')

    def build(stale):
        env = cargo_env({'RUSTC_WRAPPER': wrapper, 'CARGO_PROFILE_DEV_OPT_LEVEL': '2'})
        base = ['--offline', '--locked', '--manifest-path', REPO + '/Cargo.toml', '--target-dir', target]
        if os.path.exists(target):
            run(['cargo', 'clean', '-q'] + base + ['-p', 'waterbear', '-p', 'waterbear-instruction-derive'], env)
        run(['cargo', 'build', '-q', '--bin', 'waterbear'] + base, env)

    _stamp('afl', source_hash([wrapper]), build)
    return os.path.join(target, 'debug', 'waterbear')


def clib(sanitize=False):
    """A driver of the C library entry point (native/invoke.c), plain or with
    the whole of waterbear and its dependencies instrumented by ASan."""
    name = 'clib-asan' if sanitize else 'clib'
    work, target = os.path.join(BUILD, name), os.path.join(BUILD, name + '-target')
    exe = os.path.join(BUILD, name + '-invoke')
    driver = os.path.join(VERIF, 'native', 'invoke.c')
    template = os.path.join(VERIF, 'clib', 'Cargo.toml.in')

    def build(stale):
        os.makedirs(work, exist_ok=True)
        with open(template) as f:
            text = f.read().replace('@REPO@', REPO)
        with open(os.path.join(work, 'Cargo.toml'), 'w') as f:
            f.write(text)
        shutil.copyfile(os.path.join(REPO, 'Cargo.lock'), os.path.join(work, 'Cargo.lock'))
        env, args, sub = cargo_env(), [], 'debug'
        if sanitize:
            env = cargo_env({'RUSTC_BOOTSTRAP': '1', 'RUSTFLAGS': '-Zsanitizer=address'})
            args, sub = ['--target', 'x86_64-unknown-linux-gnu'], 'x86_64-unknown-linux-gnu/debug'
        base = ['--offline', '--manifest-path', os.path.join(work, 'Cargo.toml'), '--target-dir', target] + args
        if os.path.exists(target):
            run(['cargo', 'clean', '-q'] + base + ['-p', 'wbclib', '-p', 'waterbear', '-p', 'waterbear-instruction-derive'], env)
        run(['cargo', 'build', '-q'] + base, env)
        compiler = ['clang', '-fsanitize=address', '-fno-omit-frame-pointer'] if sanitize else ['gcc']
        run(compiler + ['-g', '-O1', '-Wall', '-I', os.path.join(REPO, 'libwaterbear', 'include'), driver,
                        os.path.join(target, sub, 'libwbclib.a'), '-o', exe, '-lpthread', '-ldl', '-lm'], dict(os.environ))

    _stamp(name, source_hash([driver, template, os.path.join(REPO, 'libwaterbear', 'include', 'waterbear.h')]), build)
    return exe


def codec():
    """A driver of the public instruction type (codec/main.rs), or None if
    that no longer has the interface that the driver uses."""
    waterbear()
    source = os.path.join(VERIF, 'codec', 'main.rs')
    exe, none = os.path.join(BUILD, 'codec'), os.path.join(BUILD, 'codec-none')
    out = os.path.join(BUILD, 'main', 'debug')

    def build(stale):
        for f in (exe, none):
            if os.path.exists(f):
                os.unlink(f)
        try:
            run(['rustc', '--edition', '2018', '-O', '-L', 'dependency=' + os.path.join(out, 'deps'),
                 '--extern', 'waterbear=' + glob.glob(os.path.join(out, 'deps', 'libwaterbear-*.rlib'))[0],
                 source, '-o', exe], cargo_env())
        except (BuildError, IndexError) as e:
            with open(none, 'w') as f:
                f.write(str(e))

    _stamp('codec', source_hash([source]), build)
    return None if os.path.exists(none) else exe


def miri():
    """What runs the codec driver under Miri: (command, environment), or None
    where Miri doesn't work."""
    work, target = os.path.join(BUILD, 'miri'), os.path.join(BUILD, 'miri-target')
    template = os.path.join(VERIF, 'codec', 'Cargo.toml.in')
    none = os.path.join(BUILD, 'miri-none')
    env = cargo_env({'RUSTUP_TOOLCHAIN': 'nightly-x86_64-unknown-linux-gnu', 'MIRIFLAGS': '-Zmiri-disable-isolation', 'RUSTFLAGS': ''})
    cmd = ['cargo', 'miri', 'run', '-q', '--offline', '--manifest-path', os.path.join(work, 'Cargo.toml'), '--target-dir', target, '--']

    def build(stale):
        if os.path.exists(none):
            os.unlink(none)
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        with open(template) as f:
            text = f.read().replace('@REPO@', REPO).replace('@VERIF@', VERIF)
        with open(os.path.join(work, 'Cargo.toml'), 'w') as f:
            f.write(text)
        shutil.copyfile(os.path.join(REPO, 'Cargo.lock'), os.path.join(work, 'Cargo.lock'))
        try:
            # the locked version doesn't compile with this nightly
            run(['cargo', 'update', '-q', '--offline', '--manifest-path', os.path.join(work, 'Cargo.toml'), '-p', 'proc-macro2'], env)
            if os.path.exists(target):
                run(['cargo', 'clean', '-q', '--offline', '--manifest-path', os.path.join(work, 'Cargo.toml'), '--target-dir', target,
                     '-p', 'wbcodec', '-p', 'waterbear', '-p', 'waterbear-instruction-derive'], env)
            run(cmd + ['=', 'some', '0', '0'], env)
        except BuildError as e:
            with open(none, 'w') as f:
                f.write(str(e))

    source = os.path.join(VERIF, 'codec', 'main.rs')
    _stamp('miri', source_hash([template, source]), build)
    return None if os.path.exists(none) else (cmd, env)


def native(source, *flags, output=None):
    """Compiles /verif/native/<source> with gcc."""
    path = os.path.join(VERIF, 'native', source)
    out = os.path.join(BUILD, output or os.path.splitext(source)[0])
    with open(path, 'rb') as f:
        digest = hashlib.sha256(f.read() + repr(flags).encode()).hexdigest()

    def build(stale):
        run(['gcc', '-O1', '-g', '-Wall', path, '-o', out] + list(flags), dict(os.environ))

    _stamp(os.path.basename(out), digest, build)
    return out


if __name__ == '__main__':
    for f in (waterbear, codec, clib, lambda: clib(True)):
        t = time.time()
        print(f(), '%.1fs' % (time.time() - t))
