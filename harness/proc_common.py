"""Worker processes as controlled threads: stand-ins for subprocess and sys."""
import subprocess as real_subprocess
import sys as real_sys
import threading
import types

import coop


class Pipe(object):
    """A binary pipe whose reader blocks cooperatively."""

    def __init__(self, c):
        self.c = c
        self.buf = bytearray()
        self.eof = False

    def write(self, b):
        if self.eof:
            raise BrokenPipeError('worker is gone')
        self.buf += bytes(b)
        return len(b)

    def flush(self):
        self.c.yield_()

    def read(self, n=-1):
        if n is None or n < 0:
            self.c.yield_(lambda: self.eof)
            n = len(self.buf)
        else:
            self.c.yield_(lambda: self.eof or len(self.buf) >= n)
        r = bytes(self.buf[:n])
        del self.buf[:n]
        return r

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def readline(self):
        self.c.yield_(lambda: self.eof or b'\n' in self.buf)
        i = self.buf.find(b'\n')
        n = len(self.buf) if i < 0 else i + 1
        r = bytes(self.buf[:n])
        del self.buf[:n]
        return r

    def close(self):
        self.eof = True

    @property
    def buffer(self):
        return self


class FakeSys(types.ModuleType):
    """`sys` with stdin, stdout and argv of its own per worker thread."""

    def __init__(self):
        types.ModuleType.__init__(self, 'sys')
        self.__dict__['_own'] = {}

    def __getattribute__(self, n):
        if n in ('_own', '__dict__', '__class__'):
            return types.ModuleType.__getattribute__(self, n)
        d = self._own.get(threading.get_ident(), {})
        return d[n] if n in d else getattr(real_sys, n)

    def __setattr__(self, n, v):
        if threading.get_ident() in self._own:
            self._own[threading.get_ident()][n] = v
        else:
            setattr(real_sys, n, v)


class Null(object):
    def write(self, s):
        pass

    def flush(self):
        pass


def fake_subprocess(c, fsys, module, started):
    class Popen(object):
        def __init__(self, args, stdin=None, stdout=None, **kw):
            self.args = args
            self.stdin, self.stdout = Pipe(c), Pipe(c)
            self.pid = 10000 + len(started)
            self.returncode = None
            started.append(self)
            # the command line is interpreted as the module does: the flag follows the file name
            cache = [a for a in args if a in ('True', 'False')][0] == 'True'
            self.thread = c.spawn(self.run, (cache,), name='worker %d' % len(started))

        def run(self, cache):
            fsys._own[threading.get_ident()] = {'stdin': self.stdin, 'stdout': self.stdout,
                                                'stderr': Null()}
            try:
                module._process_run(cache_callable=cache)
            finally:
                self.stdout.eof = self.stdin.eof = True
                self.returncode = 0

        def poll(self):
            return self.returncode if self.thread.state == 'done' else None

        def wait(self, timeout=None):
            c.yield_(lambda: self.thread.state == 'done')
            return 0

        def kill(self):
            self.stdin.eof = True
        terminate = kill
    m = types.ModuleType('subprocess')
    m.__dict__.update({k: v for k, v in real_subprocess.__dict__.items() if not k.startswith('__')})
    m.Popen = Popen
    return m
