"""Controlled scheduling of real threads.

Threads created through the replaced `threading` module run one at a time; at
every traced line (or bytecode) of the code under test the running thread may
hand over to another one, as the seeded schedule says.  Locks, conditions,
events and sleeping are replaced by cooperative versions.  A thread that blocks
in something that is not replaced is detected by a timeout and left alone until
it comes back, so the harness stays correct (only slower) for other code.
"""
import os
import sys
import threading as real
import time as real_time
import types

import common


class _T(object):
    def __init__(self, fn, args, kw, name):
        self.fn, self.args, self.kw, self.name = fn, args, kw, name
        self.sem = real.Semaphore(0)
        self.state = 'ready'
        self.pred = None
        self.weight = 1.0
        self.exc = None
        self.real = None
        self.sleeping = False


class Coop(object):
    def __init__(self, rnd, files, opcodes=False, p=0.2, maxswitch=6000):
        self.rnd = rnd
        self.files = set(os.path.realpath(f) for f in files)
        self._fc = {}
        self.opcodes = opcodes
        self.p = p
        self.threads = []
        self.by_ident = {}
        self.ctl = real.Semaphore(0)
        self.switches = 0
        self.maxswitch = maxswitch
        self.idle = 0
        self.progress = 0
        self.mutex = real.Lock()
        self.failstart = 0       # how many threads may still fail to start

    # -- threads
    def spawn(self, fn, args=(), kw=None, name=''):
        t = _T(fn, args, kw or {}, name)
        t.weight = self.rnd.choice([1.0, 1.0, 3.0, 0.2])
        t.real = real.Thread(target=self._main, args=(t,), daemon=True)
        with self.mutex:
            self.threads.append(t)
        t.real.start()
        return t

    def _main(self, t):
        t.sem.acquire()
        self.by_ident[real.get_ident()] = t
        sys.settrace(self._trace)
        try:
            t.fn(*t.args, **t.kw)
        except SystemExit:
            pass
        except BaseException as exc:     # noqa
            t.exc = exc
        finally:
            sys.settrace(None)
            t.state = 'done'
            self.ctl.release()

    def me(self):
        return self.by_ident.get(real.get_ident())

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        ok = self._fc.get(fn)
        if ok is None:
            ok = self._fc[fn] = os.path.realpath(fn) in self.files
        if not ok:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self._local

    def _local(self, frame, event, arg):
        if event in ('line', 'opcode') and self.rnd.random() < self.p:
            self.yield_()
        return self._local

    def yield_(self, pred=None, sleeping=False):
        t = self.me()
        if t is None:
            if pred is None:
                real_time.sleep(0.001)
                return
            end = real_time.time() + 20
            while not pred():
                real_time.sleep(0.0005)
                if real_time.time() > end:
                    raise common.Stuck('blocked forever')
            return
        if getattr(self, 'dead', False):
            raise SystemExit
        t.pred = pred
        t.sleeping = sleeping
        t.state = 'ready'
        self.ctl.release()
        t.sem.acquire()
        if getattr(self, 'dead', False):
            raise SystemExit

    # -- the controller, in the main thread
    def run(self, seconds=20):
        end = real_time.time() + seconds
        spins = 0
        while True:
            ts = list(self.threads)
            live = [t for t in ts if t.state != 'done']
            if not live:
                break
            ready = [t for t in live if t.state == 'ready' and (t.pred is None or t.pred())]
            if not ready:
                if any(t.state in ('detached', 'running') for t in live):
                    # somebody is blocked outside of our control
                    self.ctl.acquire(timeout=0.05)
                    if real_time.time() > end:
                        self._kill()
                        raise common.Stuck('threads do not finish')
                    continue
                self._kill()
                raise common.Stuck('deadlock: %s' % [t.name for t in live])
            self.switches += 1
            if all(t.sleeping for t in ready):
                spins += 1
            else:
                spins = 0
            if self.switches > self.maxswitch or spins > 800 or real_time.time() > end:
                self._kill()
                raise common.Stuck('no progress: %s' % [t.name for t in live])
            w = [t.weight for t in ready]
            t = self.rnd.choices(ready, w)[0]
            if self.rnd.random() < 0.02:
                t.weight = self.rnd.choice([1.0, 3.0, 0.2])
            t.state = 'running'
            t.sem.release()
            while t.state == 'running':
                if not self.ctl.acquire(timeout=0.3) and t.state == 'running':
                    t.state = 'detached'
        excs = [t.exc for t in self.threads if t.exc is not None]
        return excs

    def _kill(self):
        # the threads stay suspended for ever (they are daemons)
        self.dead = True


class Lock(object):
    def __init__(self, coop):
        self.coop = coop
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        self.coop.yield_()
        while self.held:
            if not blocking or timeout >= 0:
                return False
            self.coop.yield_(lambda: not self.held)
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held = False
        self.coop.yield_()

    def locked(self):
        return self.held

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()


class RLock(Lock):
    def __init__(self, coop):
        Lock.__init__(self, coop)
        self.n, self.owner = 0, None

    def acquire(self, blocking=True, timeout=-1):
        if self.held and self.owner == real.get_ident():
            self.n += 1
            return True
        r = Lock.acquire(self, blocking, timeout)
        if r:
            self.n, self.owner = 1, real.get_ident()
        return r

    def release(self):
        if self.owner != real.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.n -= 1
        if not self.n:
            self.owner = None
            Lock.release(self)


class Condition(object):
    def __init__(self, coop, lock=None):
        self.coop = coop
        self.lock = lock or RLock(coop)
        self.acquire, self.release = self.lock.acquire, self.lock.release
        self.waiters = []

    def __enter__(self):
        return self.lock.__enter__()

    def __exit__(self, *a):
        return self.lock.__exit__(*a)

    def wait(self, timeout=None):
        tok = [False]
        self.waiters.append(tok)
        n = getattr(self.lock, 'n', 1)
        for _ in range(n):
            self.lock.release()
        self.coop.yield_((lambda: tok[0]) if timeout is None else None, sleeping=timeout is not None)
        for _ in range(n):
            self.lock.acquire()
        return tok[0]

    def wait_for(self, pred, timeout=None):
        while not pred():
            self.wait(timeout)
        return True

    def notify(self, n=1):
        for tok in self.waiters[:n]:
            tok[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))
    notifyAll = notify_all


class Event(object):
    def __init__(self, coop):
        self.coop = coop
        self.flag = False

    def is_set(self):
        return self.flag

    def set(self):
        self.flag = True
        self.coop.yield_()

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        if timeout is None:
            while not self.flag:
                self.coop.yield_(lambda: self.flag)
        elif not self.flag:
            self.coop.yield_(sleeping=True)
        return self.flag


class Semaphore(object):
    def __init__(self, coop, value=1):
        self.coop = coop
        self.value = value

    def acquire(self, blocking=True, timeout=None):
        self.coop.yield_()
        while self.value <= 0:
            if not blocking or timeout is not None:
                return False
            self.coop.yield_(lambda: self.value > 0)
        self.value -= 1
        return True

    def release(self, n=1):
        self.value += n
        self.coop.yield_()

    def __enter__(self):
        self.acquire()

    def __exit__(self, *a):
        self.release()


class Thread(object):
    """Stands for threading.Thread."""
    coop = None

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or 'task thread'
        self.daemon = True
        self._t = None

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        if self.coop.failstart and self.coop.rnd.random() < .3:
            self.coop.failstart -= 1
            raise RuntimeError("can't start new thread")
        self._t = self.coop.spawn(self.run, name=self.name)
        self.coop.yield_()

    def join(self, timeout=None):
        self.coop.yield_(lambda: self._t.state == 'done')

    def is_alive(self):
        return self._t is not None and self._t.state != 'done'

    def setDaemon(self, d):
        pass


def fake_threading(coop):
    m = types.ModuleType('threading')
    m.__dict__.update({k: v for k, v in real.__dict__.items() if not k.startswith('__')})
    m.Lock = m.allocate_lock = lambda: Lock(coop)
    m.RLock = lambda: RLock(coop)
    m.Condition = lambda lock=None: Condition(coop, lock)
    m.Event = lambda: Event(coop)
    m.Semaphore = m.BoundedSemaphore = lambda value=1: Semaphore(coop, value)
    m.Thread = type('Thread', (Thread,), {'coop': coop})
    return m


def fake_time(coop):
    m = types.ModuleType('time')
    m.__dict__.update({k: v for k, v in real_time.__dict__.items() if not k.startswith('__')})
    m.sleep = lambda s: coop.yield_(sleeping=True)
    return m


class Patched(object):
    """Replace `threading` and `time` in modules for a while."""

    def __init__(self, coop, modules, **extra):
        self.coop, self.modules, self.extra = coop, modules, extra

    def __enter__(self):
        th, ti = fake_threading(self.coop), fake_time(self.coop)
        self.old = []
        rep = dict(threading=th, time=ti, **self.extra)
        # names imported from the modules are replaced as well
        direct = {id(getattr(real, n)): getattr(th, n) for n in
                  ('Lock', 'RLock', 'Condition', 'Event', 'Semaphore', 'BoundedSemaphore', 'Thread')}
        direct[id(real_time.sleep)] = ti.sleep
        for mod in self.modules:
            for k, v in list(vars(mod).items()):
                new = rep.get(k) if k in rep else direct.get(id(v))
                if new is not None:
                    self.old.append((mod, k, v))
                    setattr(mod, k, new)
        return self.coop

    def __exit__(self, *a):
        for mod, k, v in self.old:
            setattr(mod, k, v)
