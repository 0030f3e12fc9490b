"""The simulator: actors, schedule, faults, virtual clock and the seams.

``install()`` replaces the entry points by which Python code reaches the
operating system (``open``/``io.open``, the path functions of ``os``, ``time``)
with dispatchers.  Code which runs inside an actor gets the simulated world,
everything else the real one.  At most one actor runs at any time; which one
continues is decided at the seams by an explicit list of preemptions, so a run
is a pure function of (scenario, preemptions, faults).
"""

import builtins
import errno
import datetime as dt_mod
import fcntl
import gc
import hashlib
import io
import json
import mmap
import os
import random
import sys
import threading
import time
import traceback
import weakref

from simfs import SimFS, VROOT, oserr, st_result

# ---------------------------------------------------------------------------
# originals
R_open = io.open
R = {n: getattr(os, n) for n in (
    'stat', 'lstat', 'access', 'mkdir', 'rename', 'replace', 'remove', 'unlink',
    'rmdir', 'listdir', 'scandir', 'link', 'symlink', 'readlink', 'chmod',
    'utime', 'getcwd', 'getcwdb', 'chdir', 'open', 'close', 'read', 'write', 'lseek',
    'fsync', 'fdatasync', 'fstat', 'dup', 'ftruncate', 'truncate', 'sendfile',
    'fdopen', 'statvfs', 'sync', 'umask', 'fchmod', 'mkfifo', 'pread', 'pwrite')}
R_time = {n: getattr(time, n) for n in (
    'time', 'time_ns', 'localtime', 'gmtime', 'strftime', 'sleep', 'monotonic',
    'perf_counter', 'monotonic_ns', 'perf_counter_ns', 'ctime')}
R_listxattr = os.listxattr
R_flock = fcntl.flock
R_lockf = fcntl.lockf

FAKE_FD0 = 700000
REPO = os.environ.get('STRATA_REPO', '/repo')


class SimCrash(BaseException):
    """The simulated process is gone: nothing it does has an effect any more."""


SAME = {'npread': 'read'}             # kinds of operation a fault does not tell apart


class StepLimit(BaseException):
    """A simulated process exceeded its step budget (no progress)."""


class HarnessError(Exception):
    pass


_tls = threading.local()


def current():
    return getattr(_tls, 'actor', None)


# ---------------------------------------------------------------------------
class Actor:
    def __init__(self, world, name, fn, cwd=VROOT + '/work', modules=None,
                 root=False, max_ops=20000, max_jumps=4000000):
        self.world = world
        self.name = name
        self.fn = fn
        self.cwd = cwd
        self.modules = modules
        self.idx = len(world.actors)
        self.sem = threading.Semaphore(0)
        self.dead = False
        self.done = False
        self.started = False
        self.result = None
        self.exc = None
        self.exit_code = None
        self.tb = ''
        self.stdout = io.StringIO()
        self.stderr = io.StringIO()
        self.nops = 0
        self.max_open = 0
        self.left_open = []
        self.nlines = 0
        self.line_at = {}                # source line -> numbers of its executions
        self.max_ops = max_ops
        self.wake_at = None
        self.fds = {}
        self.next_fd = FAKE_FD0
        self.root = root
        self.figs = None
        self.screen = []                 # the figures shown
        self.rc = None
        self.trace_lines = False
        self.pending = False
        self.armed = False
        self.over = False
        self.exiting = False
        self.njumps = 0
        self.max_jumps = max_jumps
        self.thread = None
        self.internal = 0

    # the body of the thread
    def _run(self):
        self.sem.acquire()
        _tls.actor = self
        try:
            self.armed = True
            try:
                self.result = self.fn(self)
            finally:
                self.armed = False
            if self.exit_code is None:
                self.exit_code = 0
        except SimCrash:
            self.exit_code = -9
        except StepLimit as e:
            self.exit_code = -99
            self.exc = e.with_traceback(None)
        except SystemExit as e:
            self.exit_code = e.code if isinstance(e.code, int) else \
                (0 if e.code is None else 1)
        except BaseException as e:       # an uncaught exception of the program
            self.tb = traceback.format_exc()
            self.exit_code = 130 if isinstance(e, KeyboardInterrupt) else 1
            e.__context__ = e.__cause__ = None
            self.exc = e.with_traceback(None)
        self.exiting = True
        self.left_open = [h.path for h in self.world.opens.values() if h.act0 is self]
        if any(h.act0 is self for h in self.world.opens.values()):
            # what an exiting interpreter does with files left open
            try:
                gc.collect()
                for h in [h for h in self.world.opens.values() if h.act0 is self]:
                    obj = h.top() if h.top is not None else None
                    if obj is not None:
                        try:
                            obj.close()
                        except OSError:
                            pass
                    h.a_closed = True
            except SimCrash:
                pass
        if self.over:
            self.exit_code = -99
        elif self.dead:
            self.exit_code = -9
        _tls.actor = None
        self.done = True
        self.world._main.release()

    def on_jump(self):
        self.njumps += 1
        if self.njumps > self.max_jumps:
            self.dead = self.over = True
            self.armed = False
            self.world.note(self, 'jumplimit', None, None)
            raise StepLimit('%s: %d loop iterations' % (self.name, self.njumps))

    def on_line(self, code, line):
        self.nlines += 1
        self.line_at.setdefault((code.co_filename, line), []).append(self.nlines)
        self.world.line(self, code)


class World:
    """One simulated execution."""

    def __init__(self, fs=None, faults=(), preempt=None, stalls=None, bufsize=8192,
                 t0=1.7e9, tick=0.001, log=True):
        self.fs = fs or SimFS()
        self.actors = []
        self._main = threading.Semaphore(0)
        self.now = t0
        self.t0 = t0
        self.tick = tick
        self.step = 0
        self.preempt = dict(preempt or {})
        self.stalls = dict(stalls or {})
        self.faults = [dict(f) for f in faults]
        self._by_op = {}
        self._by_line = {}
        self._pending = {}            # actor idx -> faults waiting for their kind of operation
        for f in self.faults:
            f.setdefault('actor', 0)
            if 'line' in f:
                self._by_line.setdefault((f['actor'], f['line']), []).append(f)
            else:
                self.at_op(f)
        self.fired = []
        self.bufsize = bufsize
        self.events = []
        self.log = log
        self.opens = {}
        self.escapes = []
        self.switches = 0
        self.running = None
        self.on_event = []
        self.sticky = {}              # actor idx -> list of sticky faults
        self.digest = hashlib.sha256()
        self.disk_left = None
        # small buffers make many operations out of one file
        self.max_steps = 200000 + 4 * (1600000 // bufsize)

    def at_op(self, f):
        if f.get('on'):
            self._pending.setdefault(f['actor'], []).append(f)
        else:
            self._by_op.setdefault((f['actor'], f['op']), []).append(f)

    def no_faults(self, a):
        self._by_op.clear()
        self._pending.pop(a.idx, None)
        self.sticky.pop(a.idx, None)

    # -- actors ------------------------------------------------------------
    def actor(self, name, fn, **kw):
        a = Actor(self, name, fn, **kw)
        self.actors.append(a)
        return a

    def runnable(self):
        return [a for a in self.actors if not a.done
                and (a.wake_at is None or a.wake_at <= self.now)]

    def run(self):
        _monitor(any(a.trace_lines for a in self.actors))
        for a in self.actors:
            if a.thread is None:
                a.thread = threading.Thread(target=a._run, daemon=True)
                a.thread.start()
        nxt = None
        while True:
            if all(a.done for a in self.actors):
                break
            cand = self.runnable()
            if not cand:
                wake = min(a.wake_at for a in self.actors if not a.done)
                self.now = max(self.now, wake)
                continue
            target = self._next if nxt is not None else None
            if target is None or target not in cand:
                target = cand[0]
            self._resume(target)
            self._main.acquire()
            nxt = self._next
        for a in self.actors:
            a.thread.join()
        return self

    _next = None

    def _resume(self, a):
        a.wake_at = None
        self._next = None
        if self.running is not a:
            self.switches += 1
            if self.running is not None:
                self._swap_out(self.running)
            self._swap_in(a)
        self.running = a
        a.started = True
        a.sem.release()

    def _swap_out(self, a):
        gcf = _gcf()
        if gcf is not None:
            a.figs = dict(gcf.figs)
            gcf.figs.clear()
            a.rc = _rc_copy()

    def _swap_in(self, a):
        if a.modules is not None:
            for n in [n for n in sys.modules
                      if n.split('.')[0] in ('strata', 'droplets')]:
                del sys.modules[n]
            sys.modules.update(a.modules)
        gcf = _gcf()
        if gcf is not None:
            gcf.figs.clear()
            if a.figs:
                gcf.figs.update(a.figs)
            _rc_set(a.rc or RC_BASE)

    def _park(self, a, target=None):
        self._next = target
        self._main.release()
        a.sem.acquire()
        if a.dead:
            raise SimCrash()

    # -- the seam ------------------------------------------------------------
    def op(self, a, kind, path=None, n=None):
        """Called by an actor before each interaction with the outside.

        Returns the list of faults which apply to this operation."""
        if a.dead:
            raise SimCrash()
        if a.pending and a.armed:
            a.pending = False
            raise KeyboardInterrupt()
        k = a.nops
        a.nops += 1
        self.step += 1
        self.now += self.tick
        if self.step in self.stalls:          # a slow or descheduled process
            self.now += self.stalls[self.step]
        if a.nops > a.max_ops + 1600000 // self.bufsize or self.step > self.max_steps:
            a.dead = a.over = True
            self.note(a, 'steplimit', path, n)
            raise StepLimit('%s: %d operations' % (a.name, a.nops))
        self.note(a, kind, path, n)
        ch = self.preempt.get(self.step)
        if ch is not None:
            others = [b for b in self.runnable() if b is not a]
            if others:
                self._park(a, others[ch % len(others)])
        faults = list(self._by_op.get((a.idx, k), ()))
        wait = self._pending.get(a.idx)
        if wait:
            due = [f for f in wait if f['op'] <= k and SAME.get(kind, kind) == SAME.get(f['on'], f['on'])]
            for f in due:
                wait.remove(f)
            faults += due
        out = []
        for f in faults + self.sticky.get(a.idx, []):
            if f.get('only') and kind not in f['only']:
                continue
            kindf = f['kind']
            if f.get('sticky') and f not in self.sticky.get(a.idx, []):
                self.sticky.setdefault(a.idx, []).append(f)
            if kindf == 'crash':
                if kind == 'write' and f.get('frac') is not None:
                    out.append(f)
                    continue
                self._fire(a, f, kind, path)
                self.crash(a)
            elif kindf == 'interrupt':
                self._fire(a, f, kind, path)
                raise KeyboardInterrupt()
            elif kindf == 'clock':
                self._fire(a, f, kind, path)
                self.now += f['delta']
            elif kindf == 'stall':
                self._fire(a, f, kind, path)
                self.now += f['delta']
            else:
                out.append(f)
        return out

    def line(self, a, co):
        if a.pending and not a.dead:
            a.pending = False
            raise KeyboardInterrupt()
        fs = self._by_line.get((a.idx, a.nlines))
        if not fs or a.dead:
            return
        for f in fs:
            where = '%s:%s' % (co.co_filename[len(REPO) + 1:], co.co_name)
            self._fire(a, f, 'line', where)
            if f['kind'] == 'interrupt':
                raise KeyboardInterrupt()
            if f['kind'] == 'crash':
                self.crash(a)

    def crash(self, a):
        a.dead = True
        self.note(a, 'CRASH', None, None)
        raise SimCrash()

    def _fire(self, a, f, kind, path):
        self.fired.append({'kind': f['kind'], 'op': kind, 'path': path,
                           'actor': a.idx, 'at': a.nops - 1})
        self.note(a, 'FAULT:' + f['kind'], path, kind)

    def note(self, a, kind, path, n):
        ev = (self.step, a.idx if a is not None else -1, kind, path, n)
        if self.log:
            self.events.append(ev)
        self.digest.update(repr(ev).encode())
        for fn in self.on_event:
            fn(ev)

    def sleep(self, a, dt):
        self.op(a, 'sleep', None, dt)
        a.wake_at = self.now + max(0.0, dt)
        self._park(a)

    # -- simulated system calls ---------------------------------------------
    def err_faults(self, a, faults, kind, path, kinds):
        for f in faults:
            if f['kind'] in kinds:
                self._fire(a, f, kind, path)
                if f['kind'] == 'ENOMEM':
                    raise MemoryError('simulated')
                code = getattr(errno, f['kind'])
                raise oserr(code, path)

    def may_write_dir(self, a, path):
        node = self.fs.get(self.fs.parent(path))
        if node is not None and not a.root and not node.mode & 0o200:
            raise oserr(errno.EACCES, path)

    def check_vroot(self, a, path, what):
        if path != VROOT and not path.startswith(VROOT + '/'):
            self.escapes.append((a.name, what, path))
            raise oserr(errno.EACCES, path)

    def sys_open(self, a, upath, flags):
        p = self.fs.norm(upath, a.cwd)
        wr = flags & os.O_ACCMODE != os.O_RDONLY
        kind = 'open-w' if wr or flags & os.O_CREAT else 'open-r'
        if kind == 'open-w':
            self.check_vroot(a, p, 'open-w')
        faults = self.op(a, kind, p, 'a' if flags & os.O_APPEND else
                         ('t' if flags & os.O_TRUNC else None))
        self.err_faults(a, faults, kind, str(upath),
                        ('EACCES', 'EIO', 'EMFILE', 'ENFILE', 'EROFS', 'ENOMEM',
                         'ENOENT') if not wr else
                        ('EACCES', 'EIO', 'EMFILE', 'EROFS', 'ENOMEM', 'ENFILE'))
        rp = self.fs.resolve(p)
        node = self.fs.get(rp)
        if node is None:
            if not flags & os.O_CREAT:
                self.fs.need_parent(rp)
                raise oserr(errno.ENOENT, str(upath))
            self.fs.need_parent(rp)
            self.may_write_dir(a, rp)
            for f in faults:
                if f['kind'] in ('ENOSPC', 'EDQUOT'):
                    self._fire(a, f, kind, p)
                    raise oserr(getattr(errno, f['kind']), str(upath))
            node = self.fs.create(rp)
            node.mtime = self.now
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserr(errno.EEXIST, str(upath))
            if node.kind == 'dir':
                if wr or flags & os.O_CREAT:
                    raise oserr(errno.EISDIR, str(upath))
                raise oserr(errno.EISDIR, str(upath))
            if not a.root:
                if wr and not node.mode & 0o200:
                    raise oserr(errno.EACCES, str(upath))
                if flags & os.O_ACCMODE != os.O_WRONLY and not node.mode & 0o400:
                    raise oserr(errno.EACCES, str(upath))
            if flags & os.O_TRUNC and wr:
                self.fs.truncate(node, 0, rp)
        h = Handle(self, a, node, rp, flags)
        return h


class Handle:
    """An open file description."""

    def __init__(self, world, a, node, path, flags):
        self.w = world
        self.a = a
        self.node = node
        self.path = path
        self.flags = flags
        self.pos = 0
        self.closed = False
        self.memfd = -1
        self.dup_out = False
        self.mem_base = None
        self.log0 = len(node.log)
        self.act0 = a
        self.top = None
        self.a_closed = False
        acc = flags & os.O_ACCMODE
        self.rd = acc != os.O_WRONLY
        self.wr = acc != os.O_RDONLY
        world.opens[id(self)] = self
        n = sum(1 for h in world.opens.values() if h.act0 is a)
        if n > a.max_open:
            a.max_open = n

    def act(self):
        return current() or self.a

    def read(self, n):
        a = self.act()
        faults = self.w.op(a, 'read', self.path, n)
        self.w.err_faults(a, faults, 'read', self.path, ('EIO', 'ENOMEM', 'ESTALE'))
        if n is None or n < 0:
            n = max(0, len(self.node.data) - self.pos)
        for f in faults:
            if f['kind'] == 'short' and n > 1:
                self.w._fire(a, f, 'read', self.path)
                n = max(1, int(n * f.get('frac', 0.5)))
        out = bytes(self.node.data[self.pos:self.pos + n])
        self.pos += len(out)
        return out

    def write(self, data):
        a = self.act()
        data = bytes(data)
        if a.dead or a.done:
            return len(data)
        if not self.wr:
            raise oserr(errno.EBADF)
        faults = self.w.op(a, 'write', self.path, len(data))
        n = len(data)
        for f in faults:
            if f['kind'] == 'crash':                 # torn write
                k = int(n * f['frac'])
                self._put(data[:k])
                self.w._fire(a, f, 'write', self.path)
                self.w.crash(a)
            elif f['kind'] == 'short' and n > 1:
                self.w._fire(a, f, 'write', self.path)
                n = max(1, int(n * f.get('frac', 0.5)))
            elif f['kind'] in ('ENOSPC', 'EDQUOT', 'EIO', 'EFBIG'):
                # a part of the data may fit before the error shows
                k = int(n * f.get('frac', 0.0))
                if f.get('done'):
                    k = 0
                f['done'] = True
                f['sticky_w'] = True
                if f['kind'] != 'EIO':
                    f.setdefault('sticky', True)
                    lst = self.w.sticky.setdefault(a.idx, [])
                    if f not in lst:
                        f['only'] = ['write', 'npwrite', 'open-w']
                        lst.append(f)
                if k > 0:
                    self._put(data[:k])
                    self.w._fire(a, f, 'write', self.path)
                    return k
                self.w._fire(a, f, 'write', self.path)
                raise oserr(getattr(errno, f['kind']), self.path)
        self._put(data[:n])
        return n

    def _put(self, data):
        if self.flags & os.O_APPEND:
            self.pos = len(self.node.data)
        self.node.mtime = self.w.now
        self.w.fs.write(self.node, self.pos, data, self.path)
        self.pos += len(data)

    def seek(self, off, whence=0):
        if whence == 0:
            p = off
        elif whence == 1:
            p = self.pos + off
        elif whence == 2:
            p = len(self.node.data) + off
        else:
            raise oserr(errno.EINVAL)
        if p < 0:
            raise oserr(errno.EINVAL)
        self.pos = p
        return p

    def truncate(self, size):
        a = self.act()
        if a.dead:
            return size
        if not self.wr:
            raise oserr(errno.EINVAL)
        self.w.op(a, 'truncate', self.path, size)
        self.w.fs.truncate(self.node, size, self.path)
        return size

    def close(self):
        if self.closed:
            return
        self.drain()
        self.closed = True
        self.w.opens.pop(id(self), None)
        if self.memfd >= 0:
            _memfds.pop(self.memfd, None)
            R['close'](self.memfd)
            self.memfd = -1
        a = self.act()
        if a is None or a.dead or a.done or not self.wr:
            return
        faults = self.w.op(a, 'close', self.path, None)
        for f in faults:
            if f['kind'] in ('EIO', 'ENOSPC', 'EDQUOT'):
                # delayed allocation/network file system: part of what was
                # written through this handle is lost and close says so
                new = len(self.node.log) - self.log0
                if new > 0:
                    wr = [e for e in self.node.log[self.log0:] if e[1] == 'w']
                    if wr:
                        lo = min(e[2] for e in wr)
                        hi = len(self.node.data)
                        keep = lo + int((hi - lo) * f.get('frac', 0.5))
                        self.w.fs.truncate(self.node, keep, self.path)
                self.w._fire(a, f, 'close', self.path)
                raise oserr(getattr(errno, f['kind']), self.path)

    # -- C library access through a duplicated descriptor (numpy) -------------
    def fileno(self):
        if self.memfd < 0:
            self.memfd = os.memfd_create('sim')
            _memfds[self.memfd] = self
        return self.memfd

    def c_dup(self):
        """numpy (C stdio) takes a duplicate of the descriptor."""
        a = self.act()
        self.drain()
        fd = self.fileno()
        data = bytes(self.node.data)
        if self.rd and not self.wr:
            faults = self.w.op(a, 'npread', self.path, self.pos)
            data = bytes(self.node.data)
            for f in faults:
                if f['kind'] in ('EIO', 'ESTALE', 'EINTRC'):
                    # fread() stops early; the C code sees a short count
                    self.w._fire(a, f, 'npread', self.path)
                    rest = max(0, len(data) - self.pos)
                    data = data[:self.pos + int(rest * f.get('frac', 0.5))]
                elif f['kind'] in ('EMFILE', 'ENFILE'):
                    self.w._fire(a, f, 'npread', self.path)
                    raise oserr(getattr(errno, f['kind']))
        else:
            faults = self.w.op(a, 'npdup', self.path, self.pos)
            self.w.err_faults(a, faults, 'npdup', self.path, ('EMFILE', 'ENFILE'))
        R['ftruncate'](fd, 0)
        R['lseek'](fd, 0, 0)
        _wall(fd, data)
        R['lseek'](fd, 0, 0)
        self.dup_out = self.wr
        self.mem_base = data
        return R['dup'](fd)

    def drain(self):
        """Take over what C code wrote through the duplicate."""
        if not self.dup_out:
            return
        a = self.act()
        size = R['fstat'](self.memfd).st_size
        data = R['pread'](self.memfd, size, 0)
        base = self.mem_base
        if data == base:
            return      # not yet: its position is asked for before it writes
        self.dup_out = False
        lo = self.pos
        if self.flags & os.O_APPEND:
            lo = len(base)
        new = data[lo:]
        if a.dead or not new:
            return
        save = self.pos
        self.pos = lo
        try:
            while new:
                k = self.write(new)
                new = new[k:]
        except OSError:
            # fwrite buffers one block; an error of its fclose is ignored by
            # the C code, one of a larger write is reported
            if size - lo > 4096:
                raise
        finally:
            self.pos = save


_memfds = {}


def _wall(fd, data):
    mv = memoryview(data)
    while mv:
        k = R['write'](fd, mv)
        mv = mv[k:]


class SimRaw(io.RawIOBase):
    def __init__(self, handle, name, mode):
        self.h = handle
        self.name = name
        self.mode = mode

    def readable(self):
        return self.h.rd

    def writable(self):
        return self.h.wr

    def seekable(self):
        return True

    def _alive(self):
        if self.closed:
            raise ValueError('I/O operation on closed file')

    def readinto(self, b):
        self._alive()
        if not self.h.rd:
            raise io.UnsupportedOperation('not readable')
        d = self.h.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readall(self):
        out = bytearray()
        while True:
            d = self.h.read(65536)
            if not d:
                return bytes(out)
            out += d

    def write(self, b):
        self._alive()
        self.h.drain()
        return self.h.write(bytes(b))

    def seek(self, off, whence=0):
        self._alive()
        self.h.drain()
        return self.h.seek(off, whence)

    def tell(self):
        self._alive()
        self.h.drain()
        return self.h.pos

    def truncate(self, size=None):
        self._alive()
        return self.h.truncate(self.h.pos if size is None else size)

    def fileno(self):
        self._alive()
        return self.h.fileno()

    def isatty(self):
        return False

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.h.close()


def sim_fopen(a, file, mode='r', buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    w = a.world
    if not isinstance(mode, str):
        raise TypeError('mode')
    binary = 'b' in mode
    base = mode.replace('b', '').replace('t', '').replace('U', '')
    upd = '+' in base
    base = base.replace('+', '')
    if base not in ('r', 'w', 'a', 'x'):
        raise ValueError('invalid mode: %r' % mode)
    flags = {'r': 0, 'w': os.O_CREAT | os.O_TRUNC, 'a': os.O_CREAT | os.O_APPEND,
             'x': os.O_CREAT | os.O_EXCL}[base]
    if upd:
        flags |= os.O_RDWR
    elif base == 'r':
        flags |= os.O_RDONLY
    else:
        flags |= os.O_WRONLY
    if isinstance(file, int):
        h = a.fds.pop(file)
        name = file
    elif opener is not None:
        fd = opener(file, flags)
        h = a.fds.pop(fd) if fd in a.fds else None
        if h is None:
            raise HarnessError('opener returned a foreign descriptor')
        name = file
    else:
        h = w.sys_open(a, file, flags)
        name = file
    if base == 'a':
        h.pos = len(h.node.data)
    raw = SimRaw(h, name, mode.replace('t', ''))
    bs = buffering
    line = False
    if buffering == 1:
        line, bs = True, w.bufsize
    if buffering < 0:
        bs = w.bufsize
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        h.top = weakref.ref(raw)
        return raw
    if upd:
        buf = io.BufferedRandom(raw, bs)
    elif base == 'r':
        buf = io.BufferedReader(raw, bs)
    else:
        buf = io.BufferedWriter(raw, bs)
    if binary:
        h.top = weakref.ref(buf)
        return buf
    t = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline, line)
    t.mode = mode
    h.top = weakref.ref(t)
    return t


# ---------------------------------------------------------------------------
# dispatchers

def is_real(a, path):
    """Paths of the real world which simulated programs may look at."""
    if isinstance(path, int):
        return False
    try:
        p = a.world.fs.norm(path, a.cwd)
    except TypeError:
        return True
    return not (p == VROOT or p.startswith(VROOT + '/') or p == '/')


def d_open(file, mode='r', buffering=-1, encoding=None, errors=None,
           newline=None, closefd=True, opener=None):
    a = current()
    if a is None or a.internal:
        return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if isinstance(file, int):
        if file in a.fds:
            return sim_fopen(a, file, mode, buffering, encoding, errors, newline)
        return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    if is_real(a, file):
        if any(c in mode for c in 'wax+'):
            p = a.world.fs.norm(file, a.cwd)
            if p == '/dev/null':
                return R_open(file, mode, buffering, encoding, errors, newline, closefd)
            a.world.check_vroot(a, p, 'open-w')
        return R_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    try:
        if os.fspath(file) == '':
            raise oserr(errno.ENOENT, file)
        return sim_fopen(a, file, mode, buffering, encoding, errors, newline, closefd, opener)
    except OSError as e:
        if isinstance(e.filename, str):
            e.filename = file
        raise


R_FileIO = io.FileIO


class d_FileIO(R_FileIO):
    """io.FileIO called by name: the unbuffered file of the simulation."""

    def __new__(cls, file, mode='r', closefd=True, opener=None):
        return d_open(file, mode + 'b', 0, None, None, None, closefd, opener)


def _nofd(a, path, dir_fd):
    if dir_fd is not None:
        raise NotImplementedError('dir_fd in the simulation')


def _lookup(a, path, follow=True):
    w = a.world
    p = w.fs.resolve(w.fs.norm(path, a.cwd), follow)
    n = w.fs.get(p)
    if n is None:
        par = w.fs.get(w.fs.parent(p))
        if par is not None and par.kind == 'file':
            raise oserr(errno.ENOTDIR, path)
        raise oserr(errno.ENOENT, path)
    return p, n


def d_stat(path, *, dir_fd=None, follow_symlinks=True):
    a = current()
    if a is None or a.internal:
        return R['stat'](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    if isinstance(path, int):
        return d_fstat(path)
    if is_real(a, path):
        return R['stat'](path, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    a.world.op(a, 'stat', a.world.fs.norm(path, a.cwd))
    _, n = _lookup(a, path, follow_symlinks)
    return st_result(n, a.world.now)


def d_lstat(path, *, dir_fd=None):
    a = current()
    if a is None or a.internal or is_real(a, path):
        return R['lstat'](path, dir_fd=dir_fd)
    a.world.op(a, 'stat', a.world.fs.norm(path, a.cwd))
    _, n = _lookup(a, path, False)
    return st_result(n, a.world.now)


def d_access(path, mode, *, dir_fd=None, effective_ids=False, follow_symlinks=True):
    a = current()
    if a is None or a.internal or is_real(a, path):
        return R['access'](path, mode, dir_fd=dir_fd, effective_ids=effective_ids,
                           follow_symlinks=follow_symlinks)
    a.world.op(a, 'access', a.world.fs.norm(path, a.cwd))
    try:
        _, n = _lookup(a, path)
    except OSError:
        return False
    if a.root:
        return True
    if mode & os.W_OK and not n.mode & 0o200:
        return False
    if mode & os.R_OK and not n.mode & 0o400:
        return False
    return True


def d_mkdir(path, mode=0o777, *, dir_fd=None):
    a = current()
    if a is None or a.internal:
        return R['mkdir'](path, mode, dir_fd=dir_fd)
    w = a.world
    p = w.fs.norm(path, a.cwd)
    w.check_vroot(a, p, 'mkdir')
    faults = w.op(a, 'mkdir', p)
    q = w.fs.resolve(p, False)
    if q in w.fs.table:               # as the kernel does, before any other error
        raise oserr(errno.EEXIST, path)
    w.err_faults(a, faults, 'mkdir', str(path), ('EACCES', 'EIO', 'ENOSPC', 'EROFS', 'EDQUOT'))
    p = q
    w.fs.need_parent(p)
    w.may_write_dir(a, p)
    w.fs.mkdir(p)


def d_rename(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
    a = current()
    if a is None or a.internal:
        return R['rename'](src, dst)
    w = a.world
    s, d = w.fs.norm(src, a.cwd), w.fs.norm(dst, a.cwd)
    w.check_vroot(a, s, 'rename')
    w.check_vroot(a, d, 'rename')
    faults = w.op(a, 'rename', s, d)
    if w.fs.resolve(s, False) in w.fs.table:
        w.err_faults(a, faults, 'rename', s, ('EACCES', 'EIO', 'EROFS', 'ENOSPC', 'EBUSY'))
    s, d = w.fs.resolve(s, False), w.fs.resolve(d, False)
    if s in w.fs.table:
        w.may_write_dir(a, s)
        w.may_write_dir(a, d)
    w.fs.rename(s, d)


def d_unlink(path, *, dir_fd=None):
    a = current()
    if a is None or a.internal:
        return R['unlink'](path, dir_fd=dir_fd)
    w = a.world
    p = w.fs.norm(path, a.cwd)
    w.check_vroot(a, p, 'unlink')
    faults = w.op(a, 'unlink', p)
    p = w.fs.resolve(p, False)
    if p in w.fs.table:
        w.err_faults(a, faults, 'unlink', p, ('EACCES', 'EIO', 'EROFS', 'EBUSY'))
        w.may_write_dir(a, p)
    w.fs.unlink(p)


def d_rmdir(path, *, dir_fd=None):
    a = current()
    if a is None or a.internal:
        return R['rmdir'](path, dir_fd=dir_fd)
    w = a.world
    p = w.fs.norm(path, a.cwd)
    w.check_vroot(a, p, 'rmdir')
    w.op(a, 'rmdir', p)
    w.fs.rmdir(p)


def d_listdir(path='.'):
    a = current()
    if a is None or a.internal or is_real(a, path):
        return R['listdir'](path)
    w = a.world
    w.op(a, 'listdir', w.fs.norm(path, a.cwd))
    p, n = _lookup(a, path)
    if n.kind != 'dir':
        raise oserr(errno.ENOTDIR, path)
    pre = p + '/'
    names = [q[len(pre):] for q in w.fs.table
             if q.startswith(pre) and '/' not in q[len(pre):]]
    # directory order is not defined: use a scrambled but fixed order
    names.sort(key=lambda s: hashlib.sha1(s.encode()).digest())
    return names


class SimDirEntry:
    def __init__(self, a, base, name):
        self.name = name
        self.path = os.path.join(base, name)
        self._a = a

    def is_dir(self, *, follow_symlinks=True):
        try:
            return _lookup(self._a, self.path, follow_symlinks)[1].kind == 'dir'
        except OSError:
            return False

    def is_file(self, *, follow_symlinks=True):
        try:
            return _lookup(self._a, self.path, follow_symlinks)[1].kind == 'file'
        except OSError:
            return False

    def is_symlink(self):
        return _lookup(self._a, self.path, False)[1].kind == 'link'

    def stat(self, *, follow_symlinks=True):
        return d_stat(self.path, follow_symlinks=follow_symlinks)

    def inode(self):
        return _lookup(self._a, self.path, False)[1].ino

    def __fspath__(self):
        return self.path


class SimScandir:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *x):
        pass

    def close(self):
        pass


def d_scandir(path='.'):
    a = current()
    if a is None or a.internal or is_real(a, path):
        return R['scandir'](path)
    return SimScandir([SimDirEntry(a, os.fspath(path), n) for n in d_listdir(path)])


def d_link(src, dst, **kw):
    a = current()
    if a is None or a.internal:
        return R['link'](src, dst, **kw)
    w = a.world
    s, d = w.fs.norm(src, a.cwd), w.fs.norm(dst, a.cwd)
    w.check_vroot(a, d, 'link')
    faults = w.op(a, 'link', s, d)
    w.err_faults(a, faults, 'link', s, ('EACCES', 'EIO', 'EROFS', 'ENOSPC'))
    w.may_write_dir(a, d)
    w.fs.link(s, d)


def d_symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    a = current()
    if a is None or a.internal:
        return R['symlink'](src, dst, target_is_directory, dir_fd=dir_fd)
    w = a.world
    d = w.fs.norm(dst, a.cwd)
    w.check_vroot(a, d, 'symlink')
    w.op(a, 'symlink', d)
    w.fs.symlink(os.fspath(src), d)


def d_readlink(path, *, dir_fd=None):
    a = current()
    if a is None or a.internal or is_real(a, path):
        return R['readlink'](path, dir_fd=dir_fd)
    _, n = _lookup(a, path, False)
    if n.kind != 'link':
        raise oserr(errno.EINVAL, path)
    return n.target


def d_chmod(path, mode, *, dir_fd=None, follow_symlinks=True):
    a = current()
    if a is None or a.internal:
        return R['chmod'](path, mode, dir_fd=dir_fd, follow_symlinks=follow_symlinks)
    w = a.world
    p = w.fs.norm(path, a.cwd)
    w.check_vroot(a, p, 'chmod')
    w.op(a, 'chmod', p)
    w.fs.chmod(w.fs.resolve(p), mode)


def d_utime(path, *x, **kw):
    a = current()
    if a is None or a.internal:
        return R['utime'](path, *x, **kw)
    w = a.world
    w.check_vroot(a, w.fs.norm(path, a.cwd), 'utime')
    w.op(a, 'utime', w.fs.norm(path, a.cwd))
    _lookup(a, path)


def d_getcwd():
    a = current()
    return R['getcwd']() if a is None or a.internal else a.cwd


def d_chdir(path):
    a = current()
    if a is None or a.internal:
        return R['chdir'](path)
    p, n = _lookup(a, path)
    if n.kind != 'dir':
        raise oserr(errno.ENOTDIR, path)
    a.cwd = p


def d_osopen(path, flags, mode=0o777, *, dir_fd=None):
    a = current()
    if a is None or a.internal:
        return R['open'](path, flags, mode, dir_fd=dir_fd)
    if is_real(a, path):
        if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            a.world.check_vroot(a, a.world.fs.norm(path, a.cwd), 'open-w')
        return R['open'](path, flags, mode, dir_fd=dir_fd)
    w = a.world
    p = w.fs.resolve(w.fs.norm(path, a.cwd))
    n = w.fs.get(p)
    if n is not None and n.kind == 'dir' and not flags & os.O_ACCMODE:
        h = Handle(w, a, n, p, flags)         # a directory, e.g. for fsync
    else:
        h = w.sys_open(a, path, flags)
    fd = a.next_fd
    a.next_fd += 1
    a.fds[fd] = h
    return fd


def _h(fd):
    a = current()
    if a is None or a.internal:
        return None
    if fd in a.fds:
        return a.fds[fd]
    return _memfds.get(fd)


def d_osclose(fd):
    h = _h(fd)
    if h is None:
        return R['close'](fd)
    current().fds.pop(fd, None)
    h.close()


def d_osread(fd, n):
    h = _h(fd)
    return R['read'](fd, n) if h is None else h.read(n)


def d_oswrite(fd, data):
    h = _h(fd)
    return R['write'](fd, data) if h is None else h.write(bytes(data))


def d_pread(fd, n, off):
    h = _h(fd)
    if h is None:
        return R['pread'](fd, n, off)
    save, h.pos = h.pos, off
    try:
        return h.read(n)
    finally:
        h.pos = save


def d_pwrite(fd, data, off):
    h = _h(fd)
    if h is None:
        return R['pwrite'](fd, data, off)
    save, h.pos = h.pos, off
    try:
        return h.write(bytes(data))
    finally:
        h.pos = save


def d_lseek(fd, off, how):
    h = _h(fd)
    return R['lseek'](fd, off, how) if h is None else h.seek(off, how)


def d_fsync(fd):
    fd = fd if isinstance(fd, int) else fd.fileno()
    h = _h(fd)
    if h is None:
        return R['fsync'](fd)
    a = current()
    faults = a.world.op(a, 'fsync', h.path)
    a.world.err_faults(a, faults, 'fsync', h.path, ('EIO', 'ENOSPC', 'EDQUOT'))
    if h.node.kind == 'file':
        a.world.fs.fsync(h.node)


def d_fstat(fd):
    h = _h(fd)
    return R['fstat'](fd) if h is None else st_result(h.node, h.w.now)


def d_dup(fd, *x):
    h = _h(fd)
    if h is None:
        return R['dup'](fd, *x)
    return h.c_dup()


def d_ftruncate(fd, n):
    h = _h(fd)
    return R['ftruncate'](fd, n) if h is None else h.truncate(n)


def d_truncate(path, n):
    a = current()
    if a is None or a.internal:
        return R['truncate'](path, n)
    h = a.world.sys_open(a, path, os.O_WRONLY)
    h.truncate(n)
    h.close()


def d_sendfile(out_fd, in_fd, offset, count, *x, **kw):
    ho, hi = _h(out_fd), _h(in_fd)
    if ho is None and hi is None:
        return R['sendfile'](out_fd, in_fd, offset, count, *x, **kw)
    save = hi.pos
    hi.pos = offset
    try:
        data = hi.read(min(count, 1 << 20))
    finally:
        hi.pos = save
    return ho.write(data) if data else 0


def d_fdopen(fd, mode='r', buffering=-1, encoding=None, *args, **kw):
    a = current()
    if a is not None and fd in a.fds:
        return sim_fopen(a, fd, mode, buffering, encoding, *args, **kw)
    return R_open(fd, mode, buffering, encoding, *args, **kw)


def d_statvfs(path):
    a = current()
    if a is None or a.internal or isinstance(path, int) or is_real(a, path):
        return R['statvfs'](path)
    return R['statvfs']('/')


def d_sync():
    a = current()
    if a is None:
        return R['sync']()
    a.world.fs.mark_durable()


def d_umask(m):
    a = current()
    return R['umask'](m) if a is None else 0o022


def d_fchmod(fd, mode):
    h = _h(fd)
    if h is None:
        return R['fchmod'](fd, mode)
    h.node.mode = mode & 0o777


def d_listxattr(path=None, **kw):
    a = current()
    if a is None or a.internal or is_real(a, path):
        return R_listxattr(path, **kw)
    return []


def d_flock(fd, op):
    f = fd if isinstance(fd, int) else fd.fileno()
    return R_flock(fd, op) if _h(f) is None else None


def d_lockf(fd, *x):
    f = fd if isinstance(fd, int) else fd.fileno()
    return R_lockf(fd, *x) if _h(f) is None else None


# -- time ---------------------------------------------------------------------
def d_time():
    a = current()
    return R_time['time']() if a is None else a.world.now


def d_time_ns():
    a = current()
    return R_time['time_ns']() if a is None else int(a.world.now * 1e9)


def d_localtime(secs=None):
    a = current()
    if a is not None:
        return R_time['gmtime'](a.world.now if secs is None else secs)
    return R_time['localtime']() if secs is None else R_time['localtime'](secs)


def d_gmtime(secs=None):
    a = current()
    if a is not None and secs is None:
        secs = a.world.now
    return R_time['gmtime']() if secs is None else R_time['gmtime'](secs)


def d_strftime(fmt, t=None):
    if t is None:
        t = d_localtime()
    return R_time['strftime'](fmt, t)


def d_ctime(secs=None):
    a = current()
    if a is not None and secs is None:
        secs = a.world.now
    return R_time['ctime']() if secs is None else R_time['ctime'](secs)


def d_sleep(dt):
    a = current()
    if a is None:
        return R_time['sleep'](dt)
    a.world.sleep(a, dt)


def d_monotonic():
    a = current()
    return R_time['monotonic']() if a is None else a.world.step * a.world.tick


def d_perf():
    a = current()
    return R_time['perf_counter']() if a is None else a.world.step * a.world.tick


def d_mono_ns():
    a = current()
    return R_time['monotonic_ns']() if a is None else int(a.world.step * a.world.tick * 1e9)


class _DtMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _real_datetime)

    def __subclasscheck__(cls, c):
        return issubclass(c, _real_datetime)


_real_datetime = dt_mod.datetime


class SimDatetime(_real_datetime, metaclass=_DtMeta):
    """``datetime`` whose notion of now is that of the simulated world."""

    def __new__(cls, *x, **kw):
        return _real_datetime(*x, **kw)

    @classmethod
    def now(cls, tz=None):
        a = current()
        if a is None:
            return _real_datetime.now(tz)
        return _real_datetime.fromtimestamp(a.world.now, tz or dt_mod.timezone.utc) \
            .replace(tzinfo=tz)

    @classmethod
    def utcnow(cls):
        return cls.now()

    @classmethod
    def today(cls):
        return cls.now()


# -- step budget and line faults ------------------------------------------------
_mon = sys.monitoring
_TOOL = 4
_pre = REPO + '/'


def _cb_jump(code, off, dest):
    if not code.co_filename.startswith(_pre):
        return _mon.DISABLE
    a = getattr(_tls, 'actor', None)
    if a is not None and a.armed:
        a.on_jump()


def _cb_line(code, line):
    if not code.co_filename.startswith(_pre) or '/tests/' in code.co_filename:
        return _mon.DISABLE
    a = getattr(_tls, 'actor', None)
    if a is not None and a.trace_lines and a.armed:
        a.on_line(code, line)


_mon_state = None


def _monitor(lines):
    global _mon_state
    ev = _mon.events
    if _mon_state is None:
        _mon.use_tool_id(_TOOL, 'dst')
        _mon.register_callback(_TOOL, ev.JUMP, _cb_jump)
        _mon.register_callback(_TOOL, ev.BRANCH, _cb_jump)
        _mon.register_callback(_TOOL, ev.LINE, _cb_line)
    want = ev.JUMP | ev.BRANCH | (ev.LINE if lines else 0)
    if want != _mon_state:
        _mon.set_events(_TOOL, want)
        _mon_state = want


# -- output streams -----------------------------------------------------------
class StreamProxy(io.TextIOBase):
    def __init__(self, real, attr):
        self._real = real
        self._attr = attr

    def _t(self):
        a = current()
        return self._real if a is None else getattr(a, self._attr)

    def write(self, s):
        a = current()
        if a is not None and a.dead:
            return len(s)
        return self._t().write(s)

    def flush(self):
        if current() is None:
            self._real.flush()

    def isatty(self):
        return False

    @property
    def encoding(self):
        return 'utf-8'

    @property
    def errors(self):
        return 'strict'

    def fileno(self):
        if current() is None:
            return self._real.fileno()
        raise io.UnsupportedOperation('fileno')

    def writable(self):
        return True


def _gcf():
    m = sys.modules.get('matplotlib._pylab_helpers')
    return m.Gcf if m is not None else None


RC_BASE = {}


def _rc_copy():
    return {k: dict.__getitem__(RC, k) for k in RC_BASE}


def _rc_set(d):
    for k, v in d.items():
        if dict.__getitem__(RC, k) is not v:
            dict.__setitem__(RC, k, v)


RC = None


def rc_base():
    """Settings of the plotting library as a new process has them."""
    global RC
    import matplotlib
    RC = matplotlib.rcParams
    RC_BASE.update({k: dict.__getitem__(RC, k) for k in dict.keys(RC)})


# -- figures: drawn by the real library, but written as a canonical listing of what is in
# them in place of rendered pixels
def _num(v):
    import numpy as np
    a = np.ma.filled(np.ma.asarray(v, dtype=float), np.nan).ravel()
    return [float('%.9g' % (x + 0.0)) for x in a]


def figure_data(fig, kw):
    """What a figure shows, as plain lists and numbers."""
    import numpy as np
    out = {'size': _num(fig.get_size_inches()), 'saved': {k: v if v is None or isinstance(v, (bool, int, float, str))
                                                          else repr(v) for k, v in kw.items()}, 'axes': []}
    for ax in fig.axes:
        a = {'title': ax.get_title(), 'labels': [ax.get_xlabel(), ax.get_ylabel()], 'xlim': _num(ax.get_xlim()),
             'ylim': _num(ax.get_ylim()), 'scale': [ax.get_xscale(), ax.get_yscale()], 'aspect': str(ax.get_aspect()),
             'on': bool(ax.axison), 'lines': [], 'collections': []}
        out['axes'].append(a)
        for q in ax.lines:
            a['lines'].append({'label': str(q.get_label()), 'color': str(q.get_color()), 'x': _num(q.get_xdata()),
                               'y': _num(q.get_ydata())})
        for q in ax.collections:
            d = {'type': type(q).__name__}
            a['collections'].append(d)
            if q.get_array() is not None:
                d['array'] = _num(q.get_array())
                d['shape'] = list(np.shape(q.get_array()))
                d['clim'] = _num([np.nan if x is None else x for x in q.get_clim()])
                d['cmap'] = q.get_cmap().name
            if hasattr(q, 'levels'):
                d['levels'] = _num(q.levels)
                d['filled'] = bool(q.filled)
                d['colors'] = None if q.colors is None else [_num(x) for x in (q.get_facecolor() if q.filled else q.get_edgecolor())]
                d['paths'] = [[_num(x) for x, _ in p.iter_segments(curves=False, simplify=False)
                               if len(x)] for p in q.get_paths()]
                continue
            if hasattr(q, 'U'):
                d.update(U=_num(q.U), V=_num(q.V), arrow=[q.scale, q.width, q.pivot])
            if d['type'] == 'QuadMesh':
                d['corners'] = [_num(x) for x in (q.get_coordinates()[0, :, 0], q.get_coordinates()[:, 0, 1])]
                continue
            if d['type'] == 'LineCollection':
                d['segments'] = [_num(x) for x in q.get_segments()]
                d['widths'] = _num(q.get_linewidths())
            d['offsets'] = _num(q.get_offsets())
        for q in ax.images:
            a.setdefault('images', []).append([_num(q.get_array()), _num(q.get_clim()), q.get_cmap().name])
        for q in ax.patches:
            a.setdefault('patches', []).append(_num(q.get_path().vertices))
        for q in ax.texts:
            a.setdefault('texts', []).append(q.get_text())
        if ax.get_legend() is not None:
            a['legend'] = [t.get_text() for t in ax.get_legend().get_texts()]
        if ax is not fig.axes[0]:
            a['ticks'] = _num(ax.get_yticks())
            a['ticklabels'] = [t.get_text() for t in ax.get_yticklabels()]
    return out


def figure_text(fig, kw):
    return json.dumps(figure_data(fig, kw), sort_keys=True) + '\n'


def d_show(*args, **kw):
    a = current()
    if a is None:
        return R_show(*args, **kw)
    a.world.op(a, 'show', '/screen')               # the user looks at it
    g = _gcf()
    for n in sorted(g.figs):
        a.screen.append(figure_data(g.figs[n].canvas.figure, {}))


def d_savefig(fig, fname, *, transparent=None, **kw):
    a = current()
    if a is None or not isinstance(fname, (str, os.PathLike)):
        return R_savefig(fig, fname, transparent=transparent, **kw)
    fname = os.fspath(fname)
    ext = os.path.splitext(fname)[1][1:].lower()
    if not ext:
        fname += '.png'
    elif ext not in fig.canvas.get_supported_filetypes():
        raise ValueError('Format %r is not supported' % ext)
    data = figure_text(fig, dict(kw, transparent=transparent)).encode()
    with d_open(fname, 'wb') as fp:
        fp.write(data)


def figures():
    """The seam at the rendering of figures."""
    global R_savefig, R_show
    import matplotlib.figure as mf
    R_savefig = mf.Figure.savefig
    R_layout = mf.Figure.tight_layout

    def tight_layout(fig, *x, **kw):
        if current() is None:
            return R_layout(fig, *x, **kw)
    import matplotlib.pyplot as plt
    R_show = plt.show
    plt.show = d_show
    mf.Figure.savefig = d_savefig
    mf.Figure.tight_layout = tight_layout
    rc_base()


_installed = False


def _unraisable(u):
    """Python discards exceptions in finalizers.  An interrupt which arrives
    there is delivered right after; other exceptions are reported as usual."""
    a = current()
    if u.exc_type is not None and issubclass(u.exc_type, (SimCrash, StepLimit)):
        return
    if a is not None and u.exc_type is KeyboardInterrupt:
        a.pending = True
        return
    if a is None:
        sys.__unraisablehook__(u)
    elif not a.dead:
        a.stderr.write('Exception ignored in %s: %s: %s\n' % (
            type(u.object).__name__, u.exc_type.__name__, u.exc_value))


_PATHS = ('stat', 'lstat', 'access', 'mkdir', 'rename', 'replace', 'remove', 'unlink',
          'rmdir', 'listdir', 'scandir', 'link', 'chmod', 'utime', 'chdir', 'open',
          'readlink', 'truncate')


def _named(name, fn):
    """Errors carry the paths as they were given, and no path is no file."""
    two = name in ('rename', 'replace', 'link')

    def call(*x, **kw):
        a = current()
        if a is None or a.internal or not x:
            return fn(*x, **kw)
        if x[0] == '' or two and x[1:2] == ('',):
            if name == 'access':
                return False
            e = oserr(errno.ENOENT, x[0])
            if two:
                e.filename2 = x[1]
            raise e
        try:
            return fn(*x, **kw)
        except OSError as e:
            if isinstance(e.filename, str) and not isinstance(x[0], int):
                e.filename = os.fspath(x[0])
                if two and len(x) > 1:
                    e.filename2 = os.fspath(x[1])
            raise
    call.__name__ = name
    return call


class d_mmap(mmap.mmap):
    """A map of a simulated file: its bytes at this moment, to be read."""

    def __new__(cls, fileno, length, *x, **kw):
        h = _h(fileno) if fileno != -1 else None
        if h is None:
            return super().__new__(cls, fileno, length, *x, **kw)
        off = kw.get('offset', 0)
        acc = kw.get('access', mmap.ACCESS_READ if kw.get('prot') == mmap.PROT_READ else mmap.ACCESS_DEFAULT)
        if acc not in (mmap.ACCESS_READ, mmap.ACCESS_COPY):
            raise HarnessError('a simulated file mapped for writing')
        pos = h.seek(0, os.SEEK_CUR)
        n = length or h.seek(0, os.SEEK_END) - off
        h.seek(off, os.SEEK_SET)
        b = bytearray()
        while len(b) < n:
            d = h.read(n - len(b))
            if not d:
                break
            b += d
        h.seek(pos, os.SEEK_SET)
        if not n or len(b) < n:
            raise ValueError('cannot mmap an empty file' if not n else 'mmap length is greater than file size')
        m = super().__new__(cls, -1, n)
        m[:] = bytes(b)
        return m

    def __init__(self, *x, **kw):
        pass


R_thread_start = threading.Thread.start


def d_thread_start(self):
    """A thread made by a simulated program runs at once, to its end."""
    if current() is None:
        return R_thread_start(self)
    self._started.set()
    try:
        self.run()
    except Exception:
        threading.excepthook(threading.ExceptHookArgs(sys.exc_info() + (self,)))
    finally:
        self._is_stopped = True
        try:
            self._tstate_lock = None
        except AttributeError:
            pass


def d_submit(self, fn, /, *x, **kw):
    if current() is None:
        return R_submit(self, fn, *x, **kw)
    from concurrent import futures
    f = futures.Future()
    f.set_running_or_notify_cancel()
    try:
        f.set_result(fn(*x, **kw))
    except BaseException as e:
        if not isinstance(e, Exception):
            raise
        f.set_exception(e)
    return f


def install():
    """Put the seams in place.  Must run before numpy, pandas, click and the
    program under test are imported, so that no module keeps an original."""
    global _installed
    if _installed:
        return
    _installed = True
    for m in ('numpy', 'pandas', 'matplotlib', 'click', 'progressbar', 'strata',
              'droplets'):
        if m in sys.modules:
            raise HarnessError('%s imported before the seams' % m)
    sys.unraisablehook = _unraisable
    builtins.open = d_open
    io.open = d_open
    io.FileIO = d_FileIO
    g = globals()
    table = {'stat': 'd_stat', 'lstat': 'd_lstat', 'access': 'd_access',
             'mkdir': 'd_mkdir', 'rename': 'd_rename', 'replace': 'd_rename',
             'remove': 'd_unlink', 'unlink': 'd_unlink', 'rmdir': 'd_rmdir',
             'listdir': 'd_listdir', 'scandir': 'd_scandir', 'link': 'd_link',
             'symlink': 'd_symlink', 'readlink': 'd_readlink', 'chmod': 'd_chmod',
             'utime': 'd_utime', 'getcwd': 'd_getcwd', 'chdir': 'd_chdir',
             'open': 'd_osopen', 'close': 'd_osclose', 'read': 'd_osread',
             'write': 'd_oswrite', 'lseek': 'd_lseek', 'fsync': 'd_fsync',
             'fdatasync': 'd_fsync', 'fstat': 'd_fstat', 'dup': 'd_dup',
             'ftruncate': 'd_ftruncate', 'truncate': 'd_truncate',
             'sendfile': 'd_sendfile', 'fdopen': 'd_fdopen',
             'statvfs': 'd_statvfs', 'sync': 'd_sync', 'umask': 'd_umask',
             'fchmod': 'd_fchmod', 'pread': 'd_pread', 'pwrite': 'd_pwrite'}
    for n, d in table.items():
        setattr(os, n, _named(n, g[d]) if n in _PATHS else g[d])
    # sets which libraries consult for optional features of these functions
    for s in ('supports_dir_fd', 'supports_effective_ids', 'supports_fd',
              'supports_follow_symlinks'):
        cur = getattr(os, s)
        setattr(os, s, set(cur) | ({d_stat} if s == 'supports_follow_symlinks' else set()))
    os.listxattr = d_listxattr
    mmap.mmap = d_mmap
    threading.Thread.start = d_thread_start
    import concurrent.futures.thread as cft
    global R_submit
    R_submit = cft.ThreadPoolExecutor.submit
    cft.ThreadPoolExecutor.submit = d_submit
    import shutil
    import tokenize
    shutil._use_fd_functions = False
    tokenize._builtin_open = d_open
    fcntl.flock = d_flock
    fcntl.lockf = d_lockf
    time.time = d_time
    time.time_ns = d_time_ns
    time.localtime = d_localtime
    time.gmtime = d_gmtime
    time.strftime = d_strftime
    time.ctime = d_ctime
    time.sleep = d_sleep
    time.monotonic = d_monotonic
    time.perf_counter = d_perf
    time.monotonic_ns = d_mono_ns
    time.perf_counter_ns = d_mono_ns
    sys.stdout = StreamProxy(sys.stdout, 'stdout')
    sys.stderr = StreamProxy(sys.stderr, 'stderr')
    sys.addaudithook(_audit)
    import tempfile
    tempfile._name_sequence = _Names()


class _Names:
    """Deterministic names for temporary files."""
    n = 0

    def __iter__(self):
        return self

    def __next__(self):
        a = current()
        if a is None:
            _Names.n += 1
            return 'real%d_%d' % (os.getpid(), _Names.n)
        a.tmpn = getattr(a, 'tmpn', 0) + 1
        return 't%d_%d' % (a.idx, a.tmpn)


_W = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


def _audit(event, args):
    """Backstop: a simulated program must not change the real world by a way
    around the seams."""
    a = getattr(_tls, 'actor', None)
    if a is None or a.internal:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or not isinstance(flags, int):
            return
        if flags & _W and path != '/dev/null':
            a.world.escapes.append((a.name, 'audit-open', str(path)))
            raise PermissionError('simulated program opened a real file: %r' % (path,))
    elif event in ('os.remove', 'os.rename', 'os.rmdir', 'os.mkdir', 'os.chmod',
                   'os.link', 'os.symlink', 'os.truncate', 'os.utime',
                   'os.system', 'os.exec', 'os.posix_spawn', 'os.kill',
                   'subprocess.Popen', 'os.fork', 'os.forkpty', 'socket.connect'):
        if event == 'os.truncate' and isinstance(args[0], int):
            return
        a.world.escapes.append((a.name, event, repr(args)[:200]))
        raise PermissionError('simulated program bypassed the seams: %s' % event)
