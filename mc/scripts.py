"""Runs the command line scripts of /repo in this process.

The script is compiled once per process and executed as __main__ with its own
arguments, working directory and standard streams (real files or a pipe for
standard input).
"""
import errno
import gettext
import io
import os
import sys
import tempfile
import threading
import traceback

from . import env

_code = {}


class Out(object):
    """rc: exit status (1 for an uncaught exception), exc: that exception"""

    def __init__(self, rc, out, err, exc, tb):
        self.rc, self.out, self.err, self.exc, self.tb = rc, out, err, exc, tb

    def __repr__(self):
        return '<rc %r exc %r out %.300r err %.200r>' % (self.rc, self.exc, self.out, self.err)


class _LenientInstall(object):
    """run_test.py passes an argument gettext.install no longer takes."""

    def __enter__(self):
        self.old = gettext.install
        gettext.install = lambda d, l=None, *a, **kw: self.old(d, l)

    def __exit__(self, *a):
        gettext.install = self.old


class Full(io.BytesIO):
    """A device with room for n bytes."""

    def __init__(self, n):
        super(Full, self).__init__()
        self.room, self.hit = n, False

    def write(self, b):
        b = bytes(b)
        if len(b) > self.room - self.tell():
            super(Full, self).write(b[:self.room - self.tell()])
            self.hit = True
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        return super(Full, self).write(b)


class OnceFull(io.BytesIO):
    """The n-th write fails half done, later ones do not."""

    def __init__(self, n):
        super(OnceFull, self).__init__()
        self.n = n

    def write(self, b):
        self.n -= 1
        if not self.n:
            super(OnceFull, self).write(bytes(b)[:len(b) // 2])
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
        return super(OnceFull, self).write(b)


class Short(io.TextIOWrapper):
    """Gives little at a time: what is small here is large for a real medium."""

    def read(self, n=-1):
        return super(Short, self).read(n if n is None or n < 0 else min(n, 16))


class Broken(io.RawIOBase):
    """A medium of which only the first n bytes can be read."""

    def __init__(self, data, n, seeks=False):
        super(Broken, self).__init__()
        self.data, self.n, self.at, self.hit, self.seeks = data, n, 0, False, seeks

    def seekable(self):
        return self.seeks

    def seek(self, pos, whence=0):
        if not self.seeks:
            raise io.UnsupportedOperation('seek')
        self.at = max(0, pos + (0, self.at, len(self.data))[whence])
        return self.at

    def tell(self):
        return self.at

    def readable(self):
        return True

    def readinto(self, b):
        k = min(len(b), max(0, self.n - self.at))
        if not k and len(b) and (self.n < len(self.data) or not self.seeks or self.at <= self.n):
            self.hit = True
            raise OSError(errno.EIO, os.strerror(errno.EIO))
        b[:k] = self.data[self.at:self.at + k]
        self.at += k
        return k

    def text(self):
        return Short(io.BufferedReader(self, 16), encoding='utf-8')


def run(name, args, stdin='', cwd=None, pipe=False, environ=None, lenient=False, room=None):
    """stdin: text, bytes or Broken; room: bytes that can be written to standard
    output, or ('once', n)"""
    path = os.path.join(env.REPO, name)
    if name not in _code:
        with open(path, 'rb') as f:
            _code[name] = compile(f.read(), path, 'exec', dont_inherit=True)
    if isinstance(stdin, str):
        stdin = stdin.encode('utf-8', 'surrogatepass')
    saved = (sys.argv, sys.stdin, sys.stdout, sys.stderr, os.getcwd(), list(sys.path))
    savedenv = dict(os.environ)
    out = io.BytesIO() if room is None else OnceFull(room[1]) if isinstance(room, tuple) else Full(room)
    err = io.BytesIO()
    thread = None
    if isinstance(stdin, Broken):
        sin = stdin.text()
    elif pipe:
        r, w = os.pipe()

        def feed():
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(stdin)
            except OSError:
                pass
        thread = threading.Thread(target=feed)
        thread.start()
        sin = os.fdopen(r, 'r', encoding='utf-8')
    else:
        fd, tmp = tempfile.mkstemp(dir=os.environ.get('RKSVMC_SCRATCH'))
        os.write(fd, stdin)
        os.close(fd)
        sin = open(tmp, 'r', encoding='utf-8')
        os.unlink(tmp)
    rc, exc, tb = 0, None, None
    try:
        if cwd:
            os.chdir(cwd)
        os.environ.update(environ or {})
        sys.argv = ['./' + name] + list(args)
        sys.stdin = sin
        sys.stdout = io.TextIOWrapper(out, encoding='utf-8', write_through=True)
        sys.stderr = io.TextIOWrapper(err, encoding='utf-8', errors='backslashreplace',
                write_through=True)
        ns = {'__name__': '__main__', '__file__': path, '__builtins__': __builtins__}
        try:
            if lenient:
                with _LenientInstall():
                    exec(_code[name], ns)
            else:
                exec(_code[name], ns)
        except SystemExit as e:
            rc = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
        except Exception as e:
            rc, exc, tb = 1, e, traceback.format_exc()
        try:
            sys.stdout.flush()
        except Exception:
            rc = rc or 120      # as the interpreter does at its end
        try:
            sys.stderr.flush()
            sys.stdout.detach()
            sys.stderr.detach()
        except Exception:
            pass
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = saved[:4]
        sys.path[:] = saved[5]
        os.chdir(saved[4])
        os.environ.clear()
        os.environ.update(savedenv)
        sin.close()
        if thread:
            thread.join()
    return Out(rc, out.getvalue().decode('utf-8', 'replace'),
        err.getvalue().decode('utf-8', 'replace'), exc, tb)
