"""Runs sequences of command lines through the C library's driver, and the
same ones with the executable."""
import os
import resource
import shutil
import signal
import struct
import subprocess

from vlib import core

CODES = {'cd': 0xffffffff, 'copy': 0xfffffffe, 'remove': 0xfffffffd}


def script(calls):
    """calls: lists of arguments (bytes), ('cd', path), ('copy', from, to) or ('remove', path)."""
    out = []
    for c in calls:
        if isinstance(c, tuple):
            out.append(struct.pack('<I', CODES[c[0]]))
            for x in c[1:]:
                p = os.fsencode(x)
                out.append(struct.pack('<I', len(p)) + p)
        else:
            out.append(struct.pack('<I', len(c)))
            for a in c:
                out.append(struct.pack('<I', len(a)) + a)
    return b''.join(out)


def encode(args):
    return [a.encode('utf-8', 'surrogateescape') if isinstance(a, str) else a for a in args]


class Run:
    def __init__(self, rc, out, err, returned):
        self.rc, self.out, self.err, self.returned = rc, out, err, returned

    def describe(self):
        return {'rc': self.rc, 'returned': self.returned, 'stdout': self.out[:1500].decode('utf-8', 'replace'),
                'stderr': self.err[-3000:].decode('utf-8', 'replace')}


def driver(ctx, exe, mode, calls, cwd, env=None, wrapper=(), limits=True, wall=300):
    """Runs the calls in one process."""
    path = os.path.join(ctx.base, 'script')
    with open(path, 'wb') as f:
        f.write(script(calls))
    e = dict(ctx.env, PWD=cwd)
    e.update(env or {})
    ctx.runs += 1
    log = os.path.join(ctx.base, 'returned')
    with open(os.path.join(ctx.base, 'dout'), 'w+b') as fo, open(os.path.join(ctx.base, 'derr'), 'w+b') as fe, \
            open(log, 'w+b') as fl:
        def pre():
            os.dup2(fl.fileno(), 3)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limits:
                resource.setrlimit(resource.RLIMIT_CPU, (120, 122))
        p = subprocess.Popen(list(wrapper) + [exe, mode, path], cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe,
                             preexec_fn=pre, close_fds=False)
        try:
            rc = p.wait(timeout=wall)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            raise core.Inconclusive('wall clock limit of the driver')
        for f in (fo, fe, fl):
            f.seek(0)
        out, err = fo.read(64 << 20), fe.read(1 << 20)
        returned = fl.read().count(b'\n')
    r = Run(rc, out, err, returned)
    if rc == -signal.SIGXCPU:
        raise core.Inconclusive('CPU limit of the driver')
    if rc in (93, 94, 96, 97, 98, 99):
        raise core.Inconclusive('driver: %r' % err[-200:])
    return r


def executable(ctx, calls, cwd, env=None):
    """Runs the calls with one process each, until one fails."""
    out, rc, err, n = b'', 0, b'', 0
    for c in calls:
        if isinstance(c, tuple):
            if c[0] == 'cd':
                cwd = os.path.normpath(os.path.join(cwd, c[1]))
            elif c[0] == 'copy':
                with open(os.path.join(cwd, c[1]), 'rb') as f:
                    data = f.read()
                with open(os.path.join(cwd, c[2]), 'wb') as f:
                    f.write(data)
            else:
                os.unlink(os.path.join(cwd, c[1]))
            continue
        e = dict(ctx.env, PWD=cwd)
        e.update(env or {})
        ctx.runs += 1
        with open(os.path.join(ctx.base, 'xout'), 'w+b') as fo, open(os.path.join(ctx.base, 'xerr'), 'w+b') as fe:
            p = subprocess.Popen(c or [b'waterbear'], executable=ctx.exe, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=fo, stderr=fe)
            try:
                resource.prlimit(p.pid, resource.RLIMIT_CPU, (60, 62))
            except (ProcessLookupError, PermissionError):
                pass
            try:
                rc = p.wait(timeout=300)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                raise core.Inconclusive('wall clock limit')
            fo.seek(0)
            fe.seek(0)
            out += fo.read(64 << 20)
            err = fe.read(1 << 20)
        n += 1
        if rc != 0:
            break
    return Run(rc, out, err, n if rc == 0 else n - 1)


def tree(top):
    found = {}
    for root, dirs, files in os.walk(os.fsencode(top)):
        for n in dirs + files:
            p = os.path.join(root, n)
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    found[os.path.relpath(p, os.fsencode(top))] = f.read()
            else:
                found[os.path.relpath(p, os.fsencode(top))] = None
    return found


def twin(ctx, a, b):
    """Copies the tree a to b."""
    shutil.rmtree(b, ignore_errors=True)
    shutil.copytree(a, b, symlinks=True)
