"""Seams: the boundary between the code under test and the world.

`install()` replaces, once per worker process and before elsie is imported, the functions
through which Python code reaches the file system, child processes, clocks, randomness and
thread synchronisation.  Every replacement passes straight through to the original unless a
simulation is active; under a simulation each call is an event of the kernel, which may delay
it, let another task run, fail it, tear it, or kill the session in the middle of it.
"""
import builtins
import errno
import io
import os
import shutil
import stat as _stat
import sys
import tempfile
import threading
import time
import _thread

from . import kernel as K
from .kernel import SimCrash, SimError, Interrupt

real = {}
_installed = False
TOOLS = ("/usr/bin/inkscape", "/usr/bin/pdflatex", "/usr/bin/pdf2svg", "/usr/bin/pdfunite")


def kern():
    return K.CURRENT


def active():
    """The kernel, when simulated code is running (not the harness itself)."""
    k = K.CURRENT
    return k if k is not None and not k.muted and k.cur.session is not None else None


def path_class(k, path):
    """Coarse class of a path; used for fault planning, never for verdicts."""
    base = os.path.basename(path)
    if base.startswith("queries"):
        return "queries"
    if "/cache" in path[len(k.root):]:
        return "cache"
    if path.startswith(k.root + "/tmp"):
        return "tmp"
    if base.startswith("out"):
        return "out"
    if path.startswith(k.root + "/as-"):
        return "asset"
    return "other"


def _abs(path, dir_fd=None):
    if isinstance(path, int):
        k = K.CURRENT
        return k.fdtable.get(path) if k else None
    p = os.fsdecode(path)
    if dir_fd is not None and not os.path.isabs(p):
        base = K.CURRENT.fdtable.get(dir_fd)
        if base is None:
            return None
        p = os.path.join(base, p)
    return os.path.normpath(os.path.join(real["getcwd"](), p))


def inside(k, p):
    return p == k.root or p.startswith(k.root + "/")


def guard_mutation(k, p, what):
    """Nothing simulated may change anything outside the scratch directory of the run."""
    if p is None or not inside(k, p):
        k.escapes.append((what, str(p)))
        raise PermissionError(errno.EACCES, "simulator: outside the scratch directory", str(p))


def rel(k, p):
    return p[len(k.root) + 1:] if p and inside(k, p) else str(p)


def dead():
    k = K.CURRENT
    s = k.session
    return s is not None and s.dead


def os_error(kind):
    e = {
        "enospc": errno.ENOSPC, "eio": errno.EIO, "eacces": errno.EACCES,
        "emfile": errno.EMFILE, "enoent": errno.ENOENT, "eagain": errno.EAGAIN,
        "enomem": errno.ENOMEM, "edquot": errno.EDQUOT,
    }[kind]
    return OSError(e, "injected: " + os.strerror(e))


ERRS = ("enospc", "eio", "eacces", "emfile", "enoent", "eagain", "enomem", "edquot")


# ------------------------------------------------------------------ files
class SimRaw(io.FileIO):
    """A real file of the scratch directory whose every system call is an event."""

    def __init__(self, file, mode="r", closefd=True, opener=None):
        self._k = None
        super().__init__(file, mode, closefd, opener)
        k = active()
        if k is None:
            return
        p = None
        try:
            p = k.fdtable.get(self.fileno())
        except (OSError, ValueError):
            pass
        if p is None and not isinstance(file, int):
            p = _abs(file)
        if p is None or not inside(k, p):
            return
        self._k = k
        self._p = p
        self._rel = rel(k, p)
        self._cls = path_class(k, p)
        self._s = k.session
        k.fdtable[self.fileno()] = p

    def _on(self):
        k = self._k
        return k is not None and k is K.CURRENT and not k.muted

    def write(self, b):
        if not self._on():
            if self._k is not None and self._k is not K.CURRENT:
                return len(b)  # file of a finished run, flushed by the collector
            return super().write(b)
        k = self._k
        n = memoryview(b).nbytes
        if self._s is not None and self._s.dead:
            return n
        f = k.event("write", self._cls, f"{self._rel} {n}", self._s)
        if self._s is not None and self._s.dead:
            return n
        if f is None and k.disk_full:
            raise os_error("enospc")
        if f is not None:
            kind = f.kind
            if kind == "crash":
                cut = (f.arg or 0.5)
                m = min(n, int(n * cut + 0.5)) if n else 0
                if m:
                    super().write(memoryview(b).cast("B")[:m])
                k.crash(f, self._s)
            elif kind == "enospc":
                k.mark_fired(f)
                m = int(n * (f.arg if f.arg is not None else 0.5))
                k.disk_full = True
                if m:
                    super().write(memoryview(b).cast("B")[:m])
                    raise os_error("enospc")
                raise os_error("enospc")
            elif kind in ERRS:
                k.mark_fired(f)
                raise os_error(kind)
            elif kind == "short":
                if n > 1:
                    k.mark_fired(f)
                    return super().write(memoryview(b).cast("B")[: max(1, n // 2)])
        return super().write(b)

    def _read_event(self, size, short=True):
        k = self._k
        if self._s is not None and self._s.dead:
            raise SimCrash()
        f = k.event("read", self._cls, self._rel, self._s)
        if f is not None:
            if f.kind in ERRS:
                k.mark_fired(f)
                raise os_error(f.kind)
            if f.kind == "short" and short:
                k.mark_fired(f)
                return max(1, (size or 8192) // 3)
        return None

    def readinto(self, b):
        if not self._on():
            return super().readinto(b)
        lim = self._read_event(len(b))
        if lim is not None and lim < len(b):
            mv = memoryview(b)[:lim]
            return super().readinto(mv)
        return super().readinto(b)

    def read(self, size=-1):
        if not self._on():
            return super().read(size)
        if size is None or size < 0:
            return self.readall()
        # an unbuffered read of a regular file is never short on the systems elsie runs on
        self._read_event(size, short=False)
        return super().read(size)

    def readall(self):
        if not self._on():
            return super().readall()
        self._read_event(None)
        return super().readall()

    def truncate(self, size=None):
        if self._on() and self._s is not None and self._s.dead:
            return 0
        return super().truncate(size)

    def close(self):
        k = self._k
        if k is not None and not self.closed:
            try:
                k.fdtable.pop(self.fileno(), None)
            except (OSError, ValueError):
                pass
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
             closefd=True, opener=None):
    k = active()
    if k is None:
        return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    if isinstance(file, int):
        p = k.fdtable.get(file)
        if p is None:
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    else:
        p = _abs(file)
        if opener is None and not inside(k, p):
            if writing and p not in ("/dev/null",):
                guard_mutation(k, p, "open for writing")
            return real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if dead():
        raise SimCrash()
    cls = path_class(k, p) if p else "tmp"
    if opener is None and not isinstance(file, int):
        f = k.event("open.w" if writing else "open.r", cls, rel(k, p))
        if dead():
            raise SimCrash()
        if f is not None:
            if f.kind == "crash":
                if (f.arg or 0) > 0.5:
                    # the file was created or truncated, nothing written yet
                    io.FileIO(file, "".join(c for c in mode if c not in "tb")).close()
                k.crash(f, k.session)
            if f.kind in ERRS:
                k.mark_fired(f)
                raise os_error(f.kind)
    text = "b" not in mode
    rawmode = "".join(c for c in mode if c in "rwax+")
    raw = SimRaw(file, rawmode, closefd, opener)
    try:
        if buffering == 0:
            if text:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        size = buffering if buffering > 1 else k.cfg.get("bufsize", 8192)
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        elif writing:
            buf = io.BufferedWriter(raw, size)
        else:
            buf = io.BufferedReader(raw, size)
        if not text:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, line_buffering=buffering == 1)
        t.mode = mode
        return t
    except BaseException:
        raw.close()
        raise


class _IoShim:
    """Stands in for the `_io` module where a standard library module holds a reference."""

    def __getattr__(self, name):
        import _io
        return getattr(_io, name)

    open = staticmethod(sim_open)


# ------------------------------------------------------------------ os functions
def _mutator(name, site, npaths=1):
    orig = getattr(os, name)
    real[name] = orig

    def wrapper(*args, **kw):
        k = active()
        if k is None:
            return orig(*args, **kw)
        dfd = kw.get("dir_fd")
        if dead():
            return None
        p = _abs(args[0], kw.get("src_dir_fd", dfd))
        q = _abs(args[1], kw.get("dst_dir_fd", dfd)) if npaths == 2 else None
        guard_mutation(k, p, name)
        if npaths == 2:
            guard_mutation(k, q, name)
        main = q if q is not None else p
        f = k.event(site, path_class(k, main), rel(k, p) + (" > " + rel(k, q) if q else ""))
        if dead():
            return None
        if f is not None:
            if f.kind == "crash":
                if (f.arg or 0) > 0.5:
                    orig(*args, **kw)  # the call took effect just before the kill
                k.crash(f, k.session)
            if f.kind in ERRS:
                k.mark_fired(f)
                raise os_error(f.kind)
        r = orig(*args, **kw)
        if k.on_mutation is not None:
            k.on_mutation(name, p, q)
        return r

    wrapper.__name__ = name
    setattr(os, name, wrapper)


def _observer(name, site):
    orig = getattr(os, name)
    real[name] = orig

    def wrapper(*args, **kw):
        k = active()
        if k is None or not args or isinstance(args[0], int) or kw.get("dir_fd") is not None:
            return orig(*args, **kw)
        try:
            p = _abs(args[0])
        except (TypeError, ValueError):
            return orig(*args, **kw)
        if p in TOOLS:
            return orig("/bin/sh", *args[1:], **kw)
        if not inside(k, p):
            return orig(*args, **kw)
        f = k.event(site, path_class(k, p), rel(k, p))
        if f is not None and f.kind == "eio":
            k.mark_fired(f)
            raise os_error("eio")
        return orig(*args, **kw)

    wrapper.__name__ = name
    setattr(os, name, wrapper)


class _ScandirIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _install_os():
    _mutator("remove", "unlink")
    _mutator("unlink", "unlink")
    _mutator("rmdir", "unlink")
    _mutator("mkdir", "mkdir")
    _mutator("rename", "replace", 2)
    _mutator("replace", "replace", 2)
    _mutator("link", "replace", 2)
    _mutator("symlink", "replace", 2)
    _mutator("truncate", "write")
    _mutator("chmod", "meta")
    _mutator("utime", "meta")
    _observer("stat", "stat")
    _observer("lstat", "stat")
    _observer("access", "stat")

    real["getcwd"] = os.getcwd
    real["listdir"] = os.listdir
    real["scandir"] = os.scandir
    real["os.open"] = os.open
    real["os.write"] = os.write
    real["os.close"] = os.close
    real["urandom"] = os.urandom

    def listdir(path="."):
        k = active()
        if k is None:
            return real["listdir"](path)
        p = _abs(path)
        if p is None or not inside(k, p):
            return real["listdir"](path)
        k.event("list", path_class(k, p), rel(k, p))
        names = sorted(real["listdir"](path))
        k.rng("listdir").shuffle(names)
        return names

    def scandir(path="."):
        k = active()
        if k is None or isinstance(path, int):
            return real["scandir"](path)
        p = _abs(path)
        if not inside(k, p):
            return real["scandir"](path)
        k.event("list", path_class(k, p), rel(k, p))
        with real["scandir"](path) as it:
            es = sorted(it, key=lambda e: e.name)
        k.rng("listdir").shuffle(es)
        return _ScandirIter(es)

    def os_open(path, flags, mode=0o777, *, dir_fd=None):
        k = active()
        if k is None:
            return real["os.open"](path, flags, mode, dir_fd=dir_fd)
        p = _abs(path, dir_fd)
        writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC)
        if p is None or not inside(k, p):
            if writing and p != "/dev/null":
                guard_mutation(k, p, "os.open for writing")
            return real["os.open"](path, flags, mode, dir_fd=dir_fd)
        if dead():
            raise SimCrash()
        f = k.event("open.w" if writing else "open.r", path_class(k, p), rel(k, p))
        if dead():
            raise SimCrash()
        if f is not None:
            if f.kind == "crash":
                if (f.arg or 0) > 0.5:
                    real["os.close"](real["os.open"](path, flags, mode, dir_fd=dir_fd))
                k.crash(f, k.session)
            if f.kind in ERRS:
                k.mark_fired(f)
                raise os_error(f.kind)
        fd = real["os.open"](path, flags, mode, dir_fd=dir_fd)
        k.fdtable[fd] = p
        return fd

    def os_write(fd, data):
        k = active()
        if k is None or fd not in k.fdtable:
            return real["os.write"](fd, data)
        if dead():
            return len(data)
        p = k.fdtable[fd]
        f = k.event("write", path_class(k, p), rel(k, p))
        if f is None and k.disk_full:
            raise os_error("enospc")
        if f is not None:
            if f.kind == "crash":
                real["os.write"](fd, data[: int(len(data) * (f.arg or 0.5))])
                k.crash(f, k.session)
            if f.kind in ERRS:
                k.mark_fired(f)
                raise os_error(f.kind)
        return real["os.write"](fd, data)

    def os_close(fd):
        k = K.CURRENT
        if k is not None:
            k.fdtable.pop(fd, None)
        return real["os.close"](fd)

    def urandom(n):
        k = active()
        if k is None:
            return real["urandom"](n)
        return k.rng("urandom").randbytes(n)

    os.listdir = listdir
    os.scandir = scandir
    os.open = os_open
    os.write = os_write
    os.close = os_close
    os.urandom = urandom
    shutil._use_fd_functions = False
    shutil._USE_CP_SENDFILE = False
    real["which"] = shutil.which

    def which(cmd, *a, **kw):
        if active() is not None and "/usr/bin/" + os.path.basename(cmd) in TOOLS:
            return "/usr/bin/" + os.path.basename(cmd)
        return real["which"](cmd, *a, **kw)

    shutil.which = which


# ------------------------------------------------------------------ tempfile names
class _Names:
    chars = "abcdefghijklmnopqrstuvwxyz0123456789_"

    def __init__(self, k):
        self.k = k

    def __iter__(self):
        return self

    def __next__(self):
        r = self.k.rng("tempnames")
        return "".join(r.choice(self.chars) for _ in range(8))


def _install_tempfile():
    real["names"] = tempfile._get_candidate_names

    def names():
        k = K.CURRENT
        if k is None:
            return real["names"]()
        return _Names(k)

    tempfile._get_candidate_names = names
    tempfile._io = _IoShim()
    real["gettempdir"] = tempfile.gettempdir


# ------------------------------------------------------------------ clocks
def _install_time():
    for name in ("time", "monotonic", "perf_counter"):
        real[name] = getattr(time, name)

        def fn(_orig=real[name]):
            k = K.CURRENT
            if k is None:
                return _orig()
            k.clock += 0.00001
            return k.clock

        setattr(time, name, fn)
    for name in ("time_ns", "monotonic_ns", "perf_counter_ns"):
        real[name] = getattr(time, name)

        def fn_ns(_orig=real[name]):
            k = K.CURRENT
            if k is None:
                return _orig()
            k.clock += 0.00001
            return int(k.clock * 1e9)

        setattr(time, name, fn_ns)
    real["sleep"] = time.sleep

    def sleep(s):
        k = active()
        if k is None:
            return real["sleep"](s)
        f = k.event("wait", "sleep", f"{s}")
        if dead():
            raise SimCrash()
        k.sleep(s)

    time.sleep = sleep


# ------------------------------------------------------------------ locks and threads
class SimLock:
    def __init__(self):
        self._owner = None
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        k = K.CURRENT
        if k is None:
            self._locked = True
            return True
        if not k.muted and k.multi:
            k.event("lock", "acquire")
        if self._locked:
            if not blocking:
                return False
            dl = None if timeout is None or timeout < 0 else k.clock + timeout
            if not k.block(lambda: not self._locked, dl):
                return False
        self._locked = True
        self._owner = k.cur
        return True

    def release(self):
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        self._owner = None
        k = K.CURRENT
        if k is not None and k.multi and not k.muted and not k.aborting:
            s = k.cur.session
            if s is None or not s.dead:
                k.event("lock", "release")

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        k = K.CURRENT
        return k.cur if k is not None else _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        k = K.CURRENT
        me = self._me()
        if self._owner is me:
            self._count += 1
            return True
        if k is not None:
            if k.multi and not k.muted:
                k.event("lock", "racquire")
            if self._owner is not None:
                if not blocking:
                    return False
                dl = None if timeout is None or timeout < 0 else k.clock + timeout
                if not k.block(lambda: self._owner is None, dl):
                    return False
        self._owner = me
        self._count = 1
        return True

    def release(self):
        if self._owner is not self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner is self._me()

    def _release_save(self):
        c = self._count
        self._count = 0
        self._owner = None
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _at_fork_reinit(self):
        self._owner = None
        self._count = 0


def _install_threads():
    real["Lock"] = threading.Lock
    real["RLock"] = threading.RLock
    real["_allocate_lock"] = threading._allocate_lock
    real["_start_new_thread"] = threading._start_new_thread
    real["join"] = threading.Thread.join

    def Lock():
        return SimLock() if K.CURRENT is not None else real["Lock"]()

    def RLock():
        return SimRLock() if K.CURRENT is not None else real["RLock"]()

    def start_new_thread(fn, args=(), kwargs=None):
        k = active()
        if k is None:
            return real["_start_new_thread"](fn, args, kwargs or {})
        task = k.spawn(f"t{len(k.tasks)}", lambda: fn(*args, **(kwargs or {})), k.session)
        owner = getattr(fn, "__self__", None)
        if owner is not None:
            owner._sim_task = task
        k.event("lock", "thread-start")
        return 100000 + len(k.tasks)

    def join(self, timeout=None):
        task = getattr(self, "_sim_task", None)
        k = K.CURRENT
        if task is None or k is None:
            return real["join"](self, timeout)
        dl = None if timeout is None else k.clock + timeout
        k.block(lambda: task.done, dl)

    threading.Lock = Lock
    threading.RLock = RLock
    threading._allocate_lock = Lock
    threading._start_new_thread = start_new_thread
    threading.Thread.join = join


# ------------------------------------------------------------------ native PDF writer
def _install_cairo():
    """cairo writes PDF files natively; here the bytes go through a simulated file."""
    import cairocffi

    Real = cairocffi.PDFSurface
    real["PDFSurface"] = Real

    class PDFSurface(Real):
        def __init__(self, target, width, height):
            self._file = self._buf = None
            self._s = None
            if active() is None or not isinstance(target, (str, bytes, os.PathLike)):
                super().__init__(target, width, height)
                return
            self._k = K.CURRENT
            self._s = self._k.session
            self._file = sim_open(target, "wb")  # the file exists from now on
            self._buf = io.BytesIO()
            super().__init__(self._buf, width, height)
            # cairo would write the real time into the file
            self.set_metadata(cairocffi.PDF_METADATA_CREATE_DATE, "2024-01-01T00:00:00")

        def finish(self):
            f = self._file
            super().finish()
            if f is not None:
                self._file = None
                try:
                    f.write(self._buf.getvalue())
                finally:
                    f.close()

        def __del__(self):
            # an unfinished surface is completed when it is released
            f, k = self._file, K.CURRENT
            if f is None or k is None or k is not self._k:
                return
            if self._s is not None and self._s.dead:
                return
            self._file = None
            k.muted += 1
            try:
                Real.finish(self)
                f.write(self._buf.getvalue())
                f.close()
            except Exception:
                pass
            finally:
                k.muted -= 1

    cairocffi.PDFSurface = PDFSurface


# ------------------------------------------------------------------ audit backstop
def _audit(event, args):
    k = K.CURRENT
    if k is None or k.muted:
        return
    if event == "open":
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        if flags is not None and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            try:
                p = os.path.normpath(os.path.join(real["getcwd"](), os.fsdecode(path)))
            except TypeError:
                return
            if p.startswith("/") and not inside(k, p) and p != "/dev/null":
                k.escapes.append(("open", p))
                raise PermissionError(errno.EACCES, "simulator: outside the scratch directory", p)
    elif event in ("os.system", "os.exec", "os.posix_spawn", "os.fork", "subprocess.Popen",
                   "os.kill", "os.killpg", "os.spawn", "socket.connect", "pty.spawn"):
        k.escapes.append((event, repr(args)[:200]))
        raise PermissionError(errno.EACCES, "simulator: blocked " + event)


def install():
    global _installed
    if _installed:
        return
    _installed = True
    real["open"] = builtins.open
    builtins.open = sim_open
    io.open = sim_open
    _install_os()
    _install_tempfile()
    _install_time()
    _install_threads()
    import lxml.etree as et

    real["et.parse"] = et.parse

    def parse(source, parser=None, **kw):
        k = active()
        if k is None or not isinstance(source, (str, bytes, os.PathLike)):
            return real["et.parse"](source, parser, **kw)
        with sim_open(source, "rb") as f:
            data = f.read()
        return real["et.parse"](io.BytesIO(data), parser, **kw)

    et.parse = parse
    import PyPDF2.merger

    def pdf_file(name, mode="r"):
        k = active()
        if k is None:
            return io.FileIO(name, mode)
        if dead():
            raise SimCrash()
        p = _abs(name)
        f = k.event("open.r", path_class(k, p), rel(k, p))
        if f is not None and f.kind in ERRS:
            k.mark_fired(f)
            raise os_error(f.kind)
        return SimRaw(name, mode)

    class FileMeta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, io.FileIO)

        def __call__(cls, *a, **kw):
            return pdf_file(*a, **kw)

    class FileProxy(metaclass=FileMeta):
        pass

    PyPDF2.merger.file = FileProxy
    from . import tools

    tools.install()
    _install_cairo()
    sys.unraisablehook = lambda *a: None
    sys.addaudithook(_audit)
