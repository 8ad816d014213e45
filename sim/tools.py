"""Stub child processes (Inkscape shell, pdflatex, pdf2svg, pdfunite) under simulator control.

A stub is a generator.  It yields ("stdin", _) when it needs input, ("stderr", _) when its
error pipe is full, and ("work", label) before each unit of work; each unit is a kernel event
at which the child can die, fail, talk nonsense, flood its error pipe, or at which the parent
can be interrupted or killed.  The Inkscape stub follows the observed behaviour of the shell of
Inkscape 1.2.2 (see DESIGN.md).
"""
import errno
import hashlib
import io
import os
import re
import subprocess

from . import kernel as K
from .kernel import Interrupt, SimCrash, SimError

ERR_CAPACITY = 65536
PIPE, STDOUT, DEVNULL = subprocess.PIPE, subprocess.STDOUT, subprocess.DEVNULL
_real = {}


# ------------------------------------------------------------------ documents
def make_pdf(markers, pad=0):
    """A small valid PDF, one page per marker; the marker is in the page's content stream."""
    out = bytearray(b"%PDF-1.4\n")
    offs = []

    def obj(n, body):
        offs.append((n, len(out)))
        out.extend(b"%d 0 obj\n" % n + body + b"\nendobj\n")

    kids = b" ".join(b"%d 0 R" % (3 + 2 * i) for i in range(len(markers)))
    obj(1, b"<< /Type /Catalog /Pages 2 0 R >>")
    obj(2, b"<< /Type /Pages /Kids [%s] /Count %d >>" % (kids, len(markers)))
    for i, m in enumerate(markers):
        s = b"%% MARK[" + m.encode() + b"]KRAM\n"
        if pad:
            s += b"%" + b"." * pad + b"\n"
        obj(3 + 2 * i, b"<< /Type /Page /Parent 2 0 R /MediaBox [0 0 100 100] "
            b"/Resources << >> /Contents %d 0 R >>" % (4 + 2 * i))
        obj(4 + 2 * i, b"<< /Length %d >>\nstream\n" % len(s) + s + b"\nendstream")
    xref = len(out)
    out.extend(b"xref\n0 %d\n0000000000 65535 f \n" % (len(offs) + 1))
    for _, o in sorted(offs):
        out.extend(b"%010d 00000 n \n" % o)
    out.extend(b"trailer\n<< /Size %d /Root 1 0 R >>\nstartxref\n%d\n%%%%EOF\n"
               % (len(offs) + 1, xref))
    return bytes(out)


MARK = re.compile(rb"MARK\[(.*?)\]KRAM", re.S)


def pdf_markers_raw(data):
    """Markers of a PDF made by `make_pdf` (None when it is not complete)."""
    if not data.startswith(b"%PDF") or not data.rstrip().endswith(b"%%EOF"):
        return None
    return [m.decode() for m in MARK.findall(data)]


def make_other(kind, marker):
    if kind == "png":
        return b"\x89PNG\r\n\x1a\n" + b"MARK[" + marker.encode() + b"]KRAM" + b"\0IEND\xaeB`\x82"
    if kind == "svg":
        return b"<svg><!-- MARK[" + marker.encode() + b"]KRAM --></svg>"
    return kind.encode() + b" MARK[" + marker.encode() + b"]KRAM END"


def other_marker(kind, data):
    ends = {"png": b"IEND\xaeB`\x82", "svg": b"</svg>"}.get(kind, b"END")
    if not data.endswith(ends):
        return None
    m = MARK.findall(data)
    return m[0].decode() if len(m) == 1 else None


def num(v):
    return float(v)


def tspan_lines(root, target):
    """Lays out the text of `target` in a simple deterministic way: [(line, advance, inside)]."""


def metrics(svg_root, target_id, salt):
    """Deterministic stand-in for text measuring: (x, width, height) or None."""
    ns = "{http://www.w3.org/2000/svg}"
    target = None
    for e in svg_root.iter():
        if isinstance(e.tag, str) and e.get("id") == target_id:
            target = e
            break
    if target is None:
        return None
    # the enclosing text element
    text = target
    while text is not None and not text.tag.endswith("}text"):
        text = text.getparent()
    if text is None:
        return (0.0, 10.0, 10.0)
    anchor = text.get("text-anchor", "start")
    lines = [[0.0, None, 0.0]]  # width, target start, target width
    total_h = [0.0]

    def style_of(e, inherited):
        size, fam, bold, ital = inherited
        if e.get("font-size"):
            size = float(e.get("font-size"))
        if e.get("font-family"):
            fam = e.get("font-family")
        st = e.get("style") or ""
        if "font-weight" in st:
            bold = "bold" in st
        if "font-style" in st:
            ital = "italic" in st
        return size, fam, bold, ital

    def put(s, st, inside):
        size, fam, bold, ital = st
        fh = (sum(map(ord, fam)) + salt) % 7 * 0.01
        adv = 0.0
        for c in s:
            adv += size * (0.42 + fh + 0.02 * (ord(c) % 13)) * (1.12 if bold else 1.0) * (
                0.97 if ital else 1.0)
        line = lines[-1]
        if inside:
            if line[1] is None:
                line[1] = line[0]
            line[2] += adv
        line[0] += adv

    def walk(e, st, inside):
        st = style_of(e, st)
        inside = inside or e is target
        if e.tag.endswith("}tspan") and e.get("x") is not None and e.get("dy") is not None:
            lines.append([0.0, None, 0.0])
            total_h[0] += float(e.get("dy"))
        if inside and e is target and lines[-1][1] is None:
            lines[-1][1] = lines[-1][0]
        if e.text:
            put(e.text, st, inside)
        for c in e:
            walk(c, st, inside)
            if c.tail:
                put(c.tail, st, inside)

    base = (16.0, "x", False, False)
    walk(text, base, False)
    size = style_of(text, base)[0]
    if target is text:
        w = max(l[0] for l in lines)
        shift = {"start": 0.0, "middle": -w / 2, "end": -w}[anchor]
        return (shift, w, total_h[0] + size)
    for l in lines:
        if l[1] is not None:
            shift = {"start": 0.0, "middle": -l[0] / 2, "end": -l[0]}[anchor]
            return (l[1] + shift, l[2], size)
    return (0.0, 0.0, size)


def salt_of(version):
    return int(hashlib.sha1(version.encode()).hexdigest()[:4], 16)


def fmt(v):
    return "%g" % v


# ------------------------------------------------------------------ pipes
class Pipe:
    def __init__(self, capacity=None):
        self.buf = bytearray()
        self.wclosed = False
        self.rclosed = False
        self.capacity = capacity

    def room(self):
        return self.capacity is None or len(self.buf) < self.capacity


class PipeReader(io.RawIOBase):
    def __init__(self, proc, pipe, name):
        self.proc, self.pipe, self.name_ = proc, pipe, name
        self.eofs = 0

    def readable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("simulated pipe")

    def close(self):
        self.pipe.rclosed = True
        super().close()

    def readinto(self, b):
        p, pipe = self.proc, self.pipe
        k = K.CURRENT
        if k is not p.k:
            return 0
        if p.session.dead:
            raise SimCrash()
        k.event("pipe.read", p.name, self.name_, p.session)
        while True:
            if pipe.buf:
                n = min(len(b), len(pipe.buf))
                mode = k.cfg.get("chunk", "all")
                if mode == "one":
                    n = 1
                elif mode == "rand":
                    n = k.rng("chunk").randint(1, n)
                b[:n] = pipe.buf[:n]
                del pipe.buf[:n]
                return n
            if pipe.wclosed:
                self.eofs += 1
                if self.eofs > k.MAX_EOF_READS:
                    k.declare_hang(f"reads the closed output of {p.name} for ever")
                return 0
            if p.pump():
                continue
            k.block(lambda: pipe.buf or pipe.wclosed or p.can_run())


class PipeWriter(io.RawIOBase):
    def __init__(self, proc):
        self.proc = proc

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation("simulated pipe")

    def write(self, b):
        p = self.proc
        k = K.CURRENT
        data = bytes(b)
        if k is not p.k or p.session.dead:
            return len(data)
        gone = p.returncode_real is not None or p.stdin_pipe.rclosed
        # writing to a pipe that nobody reads fails at once: no signal can interrupt it
        k.event("pipe.dead" if gone else "pipe.write", p.name, "", p.session)
        if p.session.dead:
            return len(data)
        if p.returncode_real is not None or p.stdin_pipe.rclosed:
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        p.stdin_pipe.buf += data
        return len(data)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self.proc.stdin_pipe.wclosed = True


# ------------------------------------------------------------------ Popen
class SimPopen:
    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None,
                 preexec_fn=None, close_fds=True, shell=False, cwd=None, env=None,
                 universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *, user=None,
                 group=None, extra_groups=None, encoding=None, errors=None, text=None,
                 umask=-1, pipesize=-1, process_group=None):
        k = K.CURRENT
        self.k = k
        self.args = args
        self.session = k.session
        if self.session is None:
            raise SimError("process started outside a session")
        if self.session.dead:
            raise SimCrash()
        if isinstance(args, (str, bytes)):
            argv = os.fsdecode(args).split() if shell else [os.fsdecode(args)]
        else:
            argv = [os.fsdecode(a) for a in args]
        base = os.path.basename(argv[0])
        for name in ("inkscape", "pdflatex", "pdf2svg", "pdfunite"):
            if base.startswith(name):
                break
        else:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", argv[0])
        self.name = name
        self.pid = 5000 + len(self.session.procs)
        self.returncode = None
        self.returncode_real = None
        f = k.event("spawn", name, "", self.session)
        if f is not None:
            from .seams import ERRS, os_error
            if f.kind in ERRS:
                k.mark_fired(f)
                raise os_error(f.kind)
        self.session.procs.append(self)
        self.group = not start_new_session
        self.cwd = os.path.abspath(cwd) if cwd else os.getcwd()
        textmode = bool(text or universal_newlines or encoding or errors)
        self.text_mode = textmode
        self.encoding = encoding
        self.errors = errors
        self.stdin = self.stdout = self.stderr = None
        self.stdin_pipe = Pipe()
        self.out_pipe = Pipe()
        self.err_pipe = Pipe(ERR_CAPACITY)
        self.out_to = None if stdout in (None, DEVNULL) else self.out_pipe
        if stderr == STDOUT:
            self.err_to = self.out_to
        elif stderr in (None, DEVNULL):
            self.err_to = None
        else:
            self.err_to = self.err_pipe
        self.out_file = self.err_file = None
        if stdout is not None and stdout not in (PIPE, DEVNULL, STDOUT):
            self.out_to = None
            self.out_file = stdout
        if stderr is not None and stderr not in (PIPE, DEVNULL, STDOUT):
            self.err_to = None
            self.err_file = stderr
        if stdin == PIPE:
            size = bufsize if bufsize > 1 else 8192
            w = io.BufferedWriter(PipeWriter(self), size)
            self.stdin = io.TextIOWrapper(
                w, encoding, errors, write_through=True, line_buffering=bufsize == 1
            ) if textmode else w
        else:
            self.stdin_pipe.wclosed = True
        if stdout == PIPE:
            self.stdout = self._reader(self.out_pipe, "stdout", textmode, encoding, errors)
        if stderr == PIPE:
            self.stderr = self._reader(self.err_pipe, "stderr", textmode, encoding, errors)
        self.need = ("start", None)
        self.gen = PROGRAMS[name](self, argv)
        k.stats_procs = getattr(k, "stats_procs", 0) + 1

    def _reader(self, pipe, name, textmode, encoding, errors):
        r = io.BufferedReader(PipeReader(self, pipe, name), 8192)
        return io.TextIOWrapper(r, encoding, errors) if textmode else r

    # -- child side
    def out(self, text):
        data = text.encode() if isinstance(text, str) else text
        if self.out_to is not None and not self.out_to.rclosed:
            self.out_to.buf += data

    def err(self, text):
        data = text.encode() if isinstance(text, str) else text
        if self.err_to is None or self.err_to.rclosed:
            return
        while data:
            if self.err_to.capacity is None:
                self.err_to.buf += data
                return
            room = self.err_to.capacity - len(self.err_to.buf)
            if room <= 0:
                yield ("stderr", None)
                continue
            self.err_to.buf += data[:room]
            data = data[room:]

    def readline(self):
        b = self.stdin_pipe.buf
        while b"\n" not in b:
            if self.stdin_pipe.wclosed:
                return None
            yield ("stdin", None)
        i = b.index(b"\n")
        line = bytes(b[:i]).decode("utf8", "replace")
        del b[: i + 1]
        return line

    def can_run(self):
        if self.returncode_real is not None:
            return False
        kind = self.need[0]
        if kind == "stdin":
            return b"\n" in self.stdin_pipe.buf or self.stdin_pipe.wclosed
        if kind == "stderr":
            return self.err_to.room() or self.err_to.rclosed
        return True

    def pump(self, quiet=False):
        """Runs the child for one unit of work; False when it cannot move."""
        if not self.can_run():
            return False
        msg = None
        if self.need[0] == "work":
            label = self.need[1]
            f = None
            if not quiet:
                f = self.k.event("tool", self.name, label, self.session)
                if self.session.dead:
                    raise SimCrash()
                if self.returncode_real is not None:
                    return True
            if f is not None:
                kind = f.kind
                if kind == "interrupt":
                    self.k.mark_fired(f)
                    if f.arg and self.group:
                        self.session.interrupt_children()
                    raise Interrupt()
                if kind == "crash":
                    self.k.crash(f, self.session)
                if kind == "die":
                    self.k.mark_fired(f)
                    self.exit(f.arg if f.arg is not None else -9)
                    return True
                if kind in ("toolerr", "garbage", "silent", "nan"):
                    msg = f
                elif kind == "noise":
                    self.k.mark_fired(f)
                    self.gen = _noisy(self, f.arg or 200_000, self.gen)
                else:
                    self.k.mark_fired(f)
                    msg = K.Fault("toolerr")
                    msg.site, msg.info, msg.fired = f.site, f.info, True
        try:
            if self.need[0] == "start":
                self.need = next(self.gen)
            else:
                self.need = self.gen.send(msg)
        except StopIteration as e:
            self.exit(e.value or 0)
        return True

    def exit(self, code):
        if self.returncode_real is None:
            self.returncode_real = code
            self.gen.close()
            self.out_pipe.wclosed = True
            self.err_pipe.wclosed = True
            self.stdin_pipe.rclosed = True

    def orphan(self, steps):
        """The parent is gone: the child runs on for some steps without a reader."""
        self.stdin_pipe.wclosed = True
        self.out_pipe.rclosed = True
        self.err_pipe.rclosed = True
        while steps > 0 and self.pump(quiet=True):
            steps -= 1
        self.exit(-9)

    # -- parent side
    def _end(self):
        self.returncode = self.returncode_real
        return self.returncode

    def poll(self):
        if self.returncode is not None:
            return self.returncode
        self.k.event("wait", self.name, "poll", self.session)
        self.pump()
        if self.returncode_real is not None:
            return self._end()
        return None

    def wait(self, timeout=None):
        if self.returncode is not None:
            return self.returncode
        if self.session.dead:
            raise SimCrash()
        self.k.event("wait", self.name, "", self.session)
        if self.session.dead:
            raise SimCrash()
        while self.returncode_real is None:
            if not self.pump():
                dl = None if timeout is None else self.k.clock + timeout
                if not self.k.block(
                    lambda: self.returncode_real is not None or self.can_run(), dl
                ):
                    raise subprocess.TimeoutExpired(self.args, timeout)
        return self._end()

    def communicate(self, input=None, timeout=None):
        if self.stdin is not None:
            if input:
                self.stdin.write(input)
            try:
                self.stdin.close()
            except BrokenPipeError:
                pass
        if self.session.dead:
            raise SimCrash()
        self.k.event("wait", self.name, "communicate", self.session)
        out, err = bytearray(), bytearray()

        def drain():
            if self.stdout is not None:
                out.extend(self.out_pipe.buf)
                del self.out_pipe.buf[:]
            if self.stderr is not None:
                err.extend(self.err_pipe.buf)
                del self.err_pipe.buf[:]

        while self.returncode_real is None:
            if not self.pump():
                drain()
                if not self.pump():
                    self.k.block(lambda: self.returncode_real is not None or self.can_run())
            drain()
        drain()
        self._end()

        def conv(stream, data):
            if stream is None:
                return None
            data = bytes(data)
            if self.text_mode:
                return data.decode(self.encoding or "utf8", self.errors or "strict")
            return data

        return conv(self.stdout, out), conv(self.stderr, err)

    def send_signal(self, sig):
        if self.session.dead:
            return
        if self.returncode_real is None:
            self.exit(-int(sig))

    def terminate(self):
        self.send_signal(15)

    def kill(self):
        self.send_signal(9)

    def __enter__(self):
        return self

    def __exit__(self, exc_type, value, tb):
        for s in (self.stdout, self.stderr):
            if s:
                s.close()
        try:
            if self.stdin:
                self.stdin.close()
        finally:
            self.wait()


def _noisy(proc, amount, gen):
    yield from proc.err(b"W" * amount)
    msg = None
    first = True
    while True:
        try:
            need = gen.send(msg) if not first else gen.send(None)
            first = False
        except StopIteration as e:
            return e.value
        msg = yield need


# ------------------------------------------------------------------ child file access
def child_write(proc, path, data, mode="wb"):
    """Direct file access of a child process (not an event of the parent)."""
    from . import seams

    k = proc.k
    p = os.path.normpath(os.path.join(proc.cwd, path))
    if not seams.inside(k, p):
        k.escapes.append(("child write", p))
        raise OSError(errno.EACCES, "outside the scratch directory")
    if k.disk_full:
        raise OSError(errno.ENOSPC, "no space")
    with seams.real["open"](p, mode) as f:
        f.write(data)


def child_read(proc, path):
    from . import seams

    p = os.path.normpath(os.path.join(proc.cwd, path))
    with seams.real["open"](p, "rb") as f:
        return f.read()


def failed(msg):
    return msg is not None


def take(proc, msg):
    proc.k.mark_fired(msg)
    return msg.kind


# ------------------------------------------------------------------ Inkscape
# What Inkscape says besides its answers: whole lines, none of them looks like a prompt
CHATTER = [
    "** (inkscape:%d): WARNING **: value %d\n",
    "** (inkscape:%d): WARNING **: <svg:flowRoot> is not supported, %d left\n",
    "Unimplemented style property %d: a > b > %d\n",
    "(inkscape:%d): Gtk-CRITICAL **: gtk_main: assertion 'n > 0' failed %d\n",
    "WARNING: >%d<>%d> \n",
    "file-open:%d select:%d\n",
    "\n\tquery-width %d -> %d >\n",
    # plain numbers, never instead of an answer
    "%d.%d\n",
    "-%d\n%d\n",
]


INK_OTHER = "Inkscape 1.3.1 (9b9bdc1480, 2023-11-25, custom)"


def version_of(session, argv):
    """Several versions may be installed side by side."""
    return INK_OTHER if "other" in argv[0] else session.ink_version


def inkscape(proc, argv):
    import lxml.etree as et
    from . import seams

    k = proc.k
    s = proc.session
    version = version_of(s, argv)
    if "--version" in argv:
        proc.out(version + "\n")
        return 0
    if "--shell" not in argv:
        raise SimError("unsupported Inkscape invocation: " + repr(argv))
    rng = k.rng("ink")
    salt = salt_of(version)
    noise = s.cfg.get("noise", 0)
    chatter = s.cfg.get("chatter", 0.0)
    s.shells.append(proc)
    docs = proc.docs = [{"path": None, "svg": b"", "root": None, "sel": None}]
    active = docs[0]
    exp = {}
    yield ("work", "start")
    proc.out("Inkscape interactive shell mode. Type 'action-list' to list all actions. "
             "Type 'quit' to quit.\n Input of the form:\n> action1:arg1; action2;arg2; verb1\n"
             "Only verbs that don't require a desktop may be used.\n".replace("\n> a", "\n a"))
    proc.out("> ")
    while True:
        line = yield from proc.readline()
        if line is None:
            return 0
        cmd, _, arg = line.strip().partition(":")
        s.commands.append((cmd, arg))
        if noise:
            yield from proc.err(b"n" * noise)
        msg = yield ("work", cmd)
        proc.out(line + "\n")
        if failed(msg):
            kind = take(proc, msg)
            if cmd in ("select", "file-close", "inkscape-version", "export-text-to-path"):
                # selecting an object that exists, closing a document, setting a flag, naming the version
                # cannot fail, only talk
                proc.out("** (inkscape:7): WARNING **: something\n")
                kind = None
            if kind == "garbage":
                proc.out("** (org.inkscape.Inkscape:1): CRITICAL **: assertion failed\n> ")
                continue
            if kind == "silent":
                proc.out("> ")
                continue
            if kind == "nan":
                proc.out(("%s\n> " % rng.choice(["nan", "-nan", "inf", "NaN"]))
                         if cmd.startswith("query-") else "> ")
                continue
            if kind == "toolerr":
                yield from proc.err(b"ERROR: could not do it\n")
                if cmd == "export-do" or cmd == "file-open":
                    proc.out("> ")
                    continue
                proc.out("ink_file_error: something went wrong\n> ")
                continue
        if chatter and rng.random() < chatter:
            for _ in range(rng.randint(1, 3)):
                lines = CHATTER if active is not None else CHATTER[:-2]
                proc.out(rng.choice(lines) % (rng.randint(1, 999), rng.randint(1, 999)))
        if cmd == "inkscape-version":
            proc.out(version + "\n")
        elif cmd == "quit":
            return 0
        elif cmd == "file-close":
            if active is not None:
                docs.remove(active)
                active = None
        elif cmd == "file-open":
            try:
                data = child_read(proc, arg)
            except OSError:
                yield from proc.err(b"ink_file_open: no such file\n")
                data = None
            if data is not None:
                try:
                    root = et.fromstring(data)
                except et.XMLSyntaxError:
                    s.malformed.append(data)
                    proc.out("Emergency save activated!\nEmergency save completed. "
                             "Inkscape will close now.\n")
                    return -6
                active = {"path": arg, "svg": data, "root": root, "sel": None}
                docs.append(active)
        elif cmd == "select":
            if active is not None and active["root"] is not None:
                for e in active["root"].iter():
                    if isinstance(e.tag, str) and e.get("id") == arg:
                        active["sel"] = arg
                        break
        elif cmd in ("query-width", "query-height", "query-x", "query-y"):
            if active is not None:
                if active["root"] is None or active["sel"] is None:
                    proc.out("0\n")
                else:
                    m = metrics(active["root"], active["sel"], salt)
                    v = {"query-x": m[0], "query-width": m[1], "query-height": m[2],
                         "query-y": 0.0}[cmd]
                    s.queries.append((cmd, active["sel"], hashlib.sha1(active["svg"]).hexdigest()))
                    proc.out(fmt(v) + "\n")
        elif cmd == "export-type":
            exp["type"] = arg
        elif cmd == "export-filename":
            exp["file"] = arg
        elif cmd == "export-text-to-path":
            exp["ttp"] = True
        elif cmd == "export-do":
            if active is None:
                proc.out("Emergency save activated!\n")
                return -11
            kind = exp.get("type", "svg")
            target = exp.get("file")
            ok = target is not None and active["root"] is not None
            if ok:
                stem, ext = os.path.splitext(target)
                if ext != "." + kind:
                    target = (stem if ext else target) + "." + kind
                sha = hashlib.sha1(active["svg"]).hexdigest()
                k.svg_store[sha] = active["svg"]
                marker = "SVG:%s:%s:%s:%s:%s" % (
                    sha, kind, hashlib.sha1(version.encode()).hexdigest()[:8],
                    s.elsie_version, "ttp" if exp.get("ttp") else "txt")
                data = make_pdf([marker]) if kind == "pdf" else make_other(kind, marker)
                s.exports.append((sha, kind, bool(exp.get("ttp"))))
                cut = rng.randint(1, len(data) - 1)
                try:
                    child_write(proc, target, b"")
                    yield ("work", "export-create")
                    child_write(proc, target, data[:cut], "ab")
                    yield ("work", "export-partial")
                    child_write(proc, target, data[cut:], "ab")
                    yield ("work", "export-written")
                except OSError as e:
                    if e.errno == errno.ENOSPC:
                        try:
                            seams.real["remove"](os.path.join(proc.cwd, target))
                        except OSError:
                            pass
                    yield from proc.err(b"export failed\n")
        proc.out("> ")


# ------------------------------------------------------------------ LaTeX tools
def latex_marker(text):
    m = re.search(rb"x_\{(\d+)\}", text)
    mark = m.group(1) if m else b""
    for what, pat in ((b"h", rb"HDR\{(\d)\}"), (b"t", rb"TAIL\{(\d)\}")):
        f = re.search(pat, text)
        mark += what + f.group(1) if f else b""
    return "TEX:" + hashlib.sha1(text).hexdigest() + "x" + mark.decode()


def pdflatex(proc, argv):
    proc.session.latex_runs.append(("pdflatex", None))
    msg = yield ("work", "read")
    noise = proc.session.cfg.get("latex_noise", 0)
    if noise:
        yield from proc.err(b"e" * noise)
        proc.out(b"o" * noise)
    name = argv[-1]
    stem = name[:-4] if name.endswith(".tex") else name
    try:
        text = child_read(proc, name)
    except OSError:
        return 1
    proc.session.latex_runs[-1] = ("pdflatex", hashlib.sha1(text).hexdigest())
    bad = b"\\fail" in text
    if failed(msg):
        bad = True
        if take(proc, msg) == "silent":
            return 1  # failed without a log
    try:
        child_write(proc, stem + ".log", b"This is the log\n")
        if bad:
            child_write(proc, stem + ".log", b"! LaTeX Error\n", "ab")
            # some errors leave a document, others none
            if proc.k.rng("tex").random() < 0.5:
                data = make_pdf([latex_marker(text) + ":broken"])
                child_write(proc, stem + ".pdf", data)
            return 1
        data = make_pdf([latex_marker(text) + ":" + proc.session.elsie_version])
        child_write(proc, stem + ".pdf", data[: len(data) // 2])
        msg = yield ("work", "partial")
        if failed(msg):
            take(proc, msg)
            return 1
        child_write(proc, stem + ".pdf", data)
        msg = yield ("work", "done")
        if failed(msg):
            take(proc, msg)
            return 1
    except OSError:
        return 1
    return 0


def pdf2svg(proc, argv):
    proc.session.latex_runs.append(("pdf2svg", None))
    msg = yield ("work", "read")
    noise = proc.session.cfg.get("latex_noise", 0)
    if noise:
        yield from proc.err(b"e" * noise)
    if failed(msg):
        take(proc, msg)
        yield from proc.err(b"Something wrong with PDF\n")
        if proc.k.rng("tex").random() < 0.5:
            # what could be drawn of it
            try:
                marks = pdf_markers_raw(child_read(proc, argv[1]))
                if marks:
                    child_write(proc, argv[2],
                                latex_svg(marks[0].rpartition(":")[0] + ":broken"))
            except OSError:
                pass
        return 1
    try:
        marks = pdf_markers_raw(child_read(proc, argv[1]))
        if not marks:
            yield from proc.err(b"damaged PDF\n")
            return 1
        svg = latex_svg(marks[0])
        child_write(proc, argv[2], svg[: len(svg) // 2])
        msg = yield ("work", "partial")
        if failed(msg):
            take(proc, msg)
            return 1
        child_write(proc, argv[2], svg)
        msg = yield ("work", "done")
        if failed(msg):
            take(proc, msg)
            return 1
    except OSError:
        return 1
    return 0


def latex_svg(marker):
    h = int(marker[4:12], 16)
    return (
        '<?xml version="1.0" encoding="UTF-8"?>\n'
        '<svg xmlns="http://www.w3.org/2000/svg" xmlns:xlink="http://www.w3.org/1999/xlink" '
        'width="%dpt" height="%dpt" version="1.1"><defs><g id="glyph0"><path d="M 0 0 L 1 1"/></g>'
        '</defs><g id="surface1"><use xlink:href="#glyph0" x="1" y="2"/>'
        '<desc>%s</desc></g></svg>\n' % (20 + h % 50, 10 + h % 17, marker)
    ).encode()


def pdfunite(proc, argv):
    proc.session.latex_runs.append(("pdfunite", None))
    msg = yield ("work", "read")
    if failed(msg):
        take(proc, msg)
        return 255
    marks = []
    try:
        for a in argv[1:-1]:
            m = pdf_markers_raw(child_read(proc, a))
            if m is None:
                return 255
            marks += m
        data = make_pdf(marks)
        child_write(proc, argv[-1], data[: len(data) // 2])
        msg = yield ("work", "partial")
        if failed(msg):
            take(proc, msg)
            return 255
        child_write(proc, argv[-1], data)
        msg = yield ("work", "done")
        if failed(msg):
            take(proc, msg)
            return 255
    except OSError:
        return 255
    return 0


PROGRAMS = {"inkscape": inkscape, "pdflatex": pdflatex, "pdf2svg": pdf2svg, "pdfunite": pdfunite}


class _PopenMeta(type):
    def __call__(cls, *a, **kw):
        k = K.CURRENT
        if k is None or k.muted:
            return _real["Popen"](*a, **kw)
        return SimPopen(*a, **kw)

    def __instancecheck__(cls, obj):
        return isinstance(obj, (SimPopen, _real["Popen"]))


def install():
    _real["Popen"] = subprocess.Popen

    class Popen(metaclass=_PopenMeta):
        pass

    subprocess.Popen = Popen
