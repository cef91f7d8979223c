"""Crash points, faults and interleavings at the boundary of the file system.

Nothing here depends on how the code is written: the interpreter's profiling events tell when a
file system function is about to be called.
"""
import io
import os
import posix
import sys
import threading

_real = {name: getattr(os, name) for name in ('listdir', 'stat', 'fstat', 'open', 'read', 'close', 'fsync')}
if hasattr(os, 'fdatasync'):
    _real['fdatasync'] = os.fdatasync
READS = ('fspath', 'getpid', 'stat', 'lstat', '_path_normpath', 'fstat', 'getcwd', 'getuid', 'urandom', 'get_inheritable', 'set_inheritable')


def is_fs(arg):
    owner = getattr(arg, '__self__', None)
    if owner is posix:
        return arg.__name__ not in READS
    if isinstance(owner, io.IOBase):
        return arg.__name__ in ('write', 'flush', 'close', 'read', 'truncate', 'readline', 'readlines', 'readall')
    return arg is io.open or arg is open


def snapshot(root, synced):
    """{relative name: (contents, contents that survive a power failure)} of a two level tree."""
    out = {}
    for sub in sorted(os.listdir(root)):
        path = os.path.join(root, sub)
        out[sub] = None
        for name in sorted(os.listdir(path)):
            full = os.path.join(path, name)
            with open(full, 'rb') as f:
                data = f.read()
            ino = os.stat(full).st_ino
            out[sub + '/' + name] = (data, data if synced.get(ino) == data else b'')
    return out


def restore(state, root, power=False):
    os.mkdir(root)
    for name, data in sorted(state.items()):
        path = os.path.join(root, name)
        if data is None:
            os.mkdir(path)
        else:
            with open(path, 'wb') as f:
                f.write(data[1 if power else 0])
            os.chmod(path, 0o600)


class SyncLog(object):
    """Records what was forced to disk, by inode."""

    def __init__(self, root):
        self.synced = {}
        for sub in os.listdir(root):
            for name in os.listdir(os.path.join(root, sub)):
                full = os.path.join(root, sub, name)
                with open(full, 'rb') as f:
                    self.synced[os.stat(full).st_ino] = f.read()

    def _record(self, fd):
        fd = fd if isinstance(fd, int) else fd.fileno()
        st = _real['fstat'](fd)
        with open('/proc/self/fd/%d' % fd, 'rb') as f:
            self.synced[st.st_ino] = f.read()

    def __enter__(self):
        def make(real):
            def sync(fd):
                real(fd)
                prof = sys.getprofile()
                sys.setprofile(None)
                try:
                    self._record(fd)
                finally:
                    sys.setprofile(prof)
            return sync
        for name in ('fsync', 'fdatasync'):
            if name in _real:
                setattr(os, name, make(lambda fd: None))
        return self

    def __exit__(self, *args):
        for name in ('fsync', 'fdatasync'):
            if name in _real:
                setattr(os, name, _real[name])


def crash_states(func, root):
    """Run func, noting the state of the directory around every call that it makes.

    Returns (states, result): the last state is the one after func has returned. The states are
    those that a process killed at that point leaves behind: data in buffers is not in them.
    """
    states = []

    with SyncLog(root) as log:
        def note():
            s = snapshot(root, log.synced)
            if not states or states[-1] != s:
                states.append(s)

        def prof(frame, event, arg):
            if event in ('c_call', 'c_return') and is_fs(arg):
                note()

        note()
        sys.setprofile(prof)
        try:
            result = func()
        finally:
            sys.setprofile(None)
        note()
        # the state after the return is listed by itself, even if it is the same as the one before
        final = snapshot(root, log.synced)
    return states, final, result


def count_fs(func):
    names = []

    def prof(frame, event, arg):
        if event == 'c_call' and is_fs(arg):
            names.append(arg.__name__)
    sys.setprofile(prof)
    try:
        func()
    finally:
        sys.setprofile(None)
    return names


class Fault(object):
    """Makes the k-th file system call (from 0) fail, and if sticky also later calls of that kind."""
    STICKY = ('rename', 'replace', 'unlink', 'remove', 'link')

    def __init__(self, k, code, sticky=False):
        self.k, self.code, self.seen, self.hit, self.sticky = k, code, 0, None, sticky

    def run(self, func):
        saved = {}

        def failing(*args, **kw):
            raise OSError(self.code, os.strerror(self.code))

        def prof(frame, event, arg):
            if event == 'c_call' and is_fs(arg):
                self.seen += 1
                if self.seen - 1 == self.k:
                    self.hit = arg.__name__
                    if self.sticky and self.hit in self.STICKY:
                        saved[self.hit] = getattr(os, self.hit)
                        setattr(os, self.hit, failing)
                    # raising an exception removes the profile function
                    raise OSError(self.code, os.strerror(self.code))
        sys.setprofile(prof)
        try:
            return func()
        finally:
            sys.setprofile(None)
            for name, real in saved.items():
                setattr(os, name, real)


class Interleave(object):
    """Runs functions in threads, one at a time, switching only right before file system calls."""

    def __init__(self, funcs, schedule):
        self.funcs, self.schedule = funcs, list(schedule)
        self.results = [None] * len(funcs)
        self.switches = 0

    def run(self):
        n = len(self.funcs)
        go = [threading.Semaphore(0) for _ in range(n)]
        back = threading.Semaphore(0)
        done = [False] * n

        def body(i):
            go[i].acquire()

            def prof(frame, event, arg):
                if event == 'c_call' and is_fs(arg):
                    back.release()
                    go[i].acquire()
            sys.setprofile(prof)
            try:
                try:
                    res = ('ok', self.funcs[i]())
                finally:
                    sys.setprofile(None)
            except BaseException as e:
                res = ('raised', e)
            self.results[i] = res
            done[i] = True
            back.release()

        threads = [threading.Thread(target=body, args=(i,)) for i in range(n)]
        for t in threads:
            t.daemon = True
            t.start()
        step, last = 0, None
        while not all(done):
            ready = [i for i in range(n) if not done[i]]
            pick = ready[(self.schedule[step] if step < len(self.schedule) else step) % len(ready)]
            step += 1
            if last is not None and pick != last:
                self.switches += 1
            last = pick
            go[pick].release()
            back.acquire()
        for t in threads:
            t.join()
        return self.results
