"""Controlled processes: every file operation below a root is a scheduling point.

A run is a forked process of the real code.  It stops before each of its file
operations (and once more after a file was opened for writing, before anything is
written to it), so that the parent decides which run goes next, where a run is
killed, or which operation fails.  The operations are seen through the
interpreter's audit events plus os.stat, so it does not matter by which function
the code asks for them.
"""
import builtins
import codecs
import errno
import io
import os
import select
import signal
import socket
import sys
import traceback

from mc import sched

EVENTS = {'open', 'os.mkdir', 'os.rmdir', 'os.remove', 'os.rename', 'os.listdir', 'os.scandir', 'os.link',
          'os.symlink', 'os.truncate', 'os.chmod', 'os.utime'}
READS = {'stat', 'os.listdir', 'os.scandir', 'open:r'}

_ch = None
_root = None
_busy = False
_tag = 'op'


def _point(what, path):
    global _busy
    if _ch is None or _busy:
        return
    try:
        path = os.fsdecode(path)
    except Exception:
        return
    full = path if os.path.isabs(path) else '/?/' + path
    if not (full == _root or full.startswith(_root + '/') or full.startswith('/?/')):
        return
    _busy = True
    try:
        sched._send(_ch, (_tag, what, full[len(_root):] if full.startswith(_root) else full))
        r = sched._recv(_ch)
        if r is None:
            os._exit(70)
    finally:
        _busy = False
    if r == 'fail':
        raise OSError(errno.EIO, os.strerror(errno.EIO), path)


def _hook(event, args):
    if _ch is None or _busy or event not in EVENTS:
        return
    p = args[0]
    if isinstance(p, int) or p is None:
        return
    what = event
    if event == 'open':
        mode, flags = args[1], args[2] if len(args) > 2 else 0
        w = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or \
            (isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        what = 'open:w' if w else 'open:r'
    _point(what, p)
    if event == 'os.rename':
        _point('os.rename.to', args[1])


def _install(sock, root):
    global _ch, _root
    _root = root
    real_stat, real_open = os.stat, builtins.open

    def stat(path, *a, **k):
        if not isinstance(path, int):
            _point('stat', path)
        return real_stat(path, *a, **k)

    def open_(file, mode='r', *a, **k):
        f = real_open(file, mode, *a, **k)
        if not isinstance(file, int) and isinstance(mode, str) and any(c in mode for c in 'wax+'):
            try:
                _point('opened', file)
            except OSError:
                f.close()
                raise
        return f

    os.stat = stat
    builtins.open = io.open = open_
    sys.addaudithook(_hook)
    _ch = sock


def attach(sock, root, pid):
    """In a worker under mc/sched.py: its file operations become scheduling points there."""
    global _tag
    _tag = 'file'
    os.getpid = lambda: pid
    _install(sock, root)


def tree(root):
    """What lies below root (names and sizes)."""
    out = []
    for p, ds, fs in os.walk(root):
        ds.sort()
        out.append(p[len(root):])
        for f in sorted(fs):
            q = os.path.join(p, f)
            out.append((q[len(root):], os.path.getsize(q)))
    return out


class Run(object):
    """One controlled process."""
    TIMEOUT = 60

    def __init__(self, fn, root, others=()):
        a, b = socket.socketpair()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                a.close()
                for o in others:
                    if o.sock:
                        o.sock.close()
                global _ch
                _install(b, root)
                try:
                    v = ('done', 'ok', fn())
                except BaseException as e:
                    tb = traceback.extract_tb(e.__traceback__)[-4:]
                    v = ('done', 'raise', '%s: %s (%s)' % (type(e).__name__, e, ' <- '.join(
                        '%s:%d' % (os.path.basename(f.filename), f.lineno) for f in reversed(tb))))
                _ch = None
                sched._send(b, v)
            finally:
                os._exit(0)
        b.close()
        self.sock = a
        self.trace = []
        self.result = None       # ('ok', value) | ('raise', text) | ('killed', None) | ('hang', None)
        self.pending = None
        self._next()

    def _next(self):
        r, _, _ = select.select([self.sock], [], [], self.TIMEOUT)
        m = sched._recv(self.sock) if r else ('done', 'hang', None)
        if m is None:
            m = ('done', 'raise', 'the process died')
        if m[0] == 'done':
            self.result = m[1:]
            self.pending = None
            self._reap()
        else:
            self.pending = m[1:]

    def step(self, how='go'):
        """Let the pending operation happen and run to the next one."""
        self.trace.append(self.pending)
        sched._send(self.sock, how)
        self._next()

    def steps(self, n=None):
        while self.result is None and (n is None or n > 0):
            self.step()
            n = None if n is None else n - 1

    def kill(self):
        if self.result is None:
            self.result = ('killed', None)
            self._reap()

    def _reap(self):
        if self.pid:
            if self.result[0] != 'ok':
                try:
                    os.kill(self.pid, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(self.pid, 0)
            self.pid = None
        self.sock.close()
        self.sock = None


def conflicts(trace, other):
    """Indices of the operations of `trace` that touch what an operation of `other`
    touches, one of the two writing (a directory is touched with what lies in it)."""
    out = []
    for i, (what, path) in enumerate(trace):
        for w2, p2 in other:
            if what in READS and w2 in READS:
                continue
            if path == p2 or path.startswith(p2 + '/') or p2.startswith(path + '/'):
                out.append(i)
                break
    return out
