"""The simulated world: sessions, decks, scenario steps, history and shared oracles."""
import gc
import hashlib
import io
import json
import os
import re
import shutil
import sys
import tempfile
import types
import warnings

import lxml.etree as et

from . import assets, deck as D, kernel as K, loader, model, notebook, seams, tools
from .kernel import (Fault, Interrupt, Kernel, SimAbort, SimCrash, SimError, SimHang)

INK = "Inkscape 1.2.2 (b0a8486541, 2022-12-01)"
INK_OTHER = tools.INK_OTHER
VER = "2.0-sim"


# ---------------------------------------------------------------- small helpers
def real_read(path):
    with seams.real["open"](path, "rb") as f:
        return f.read()


def real_write(path, data):
    with seams.real["open"](path, "wb") as f:
        f.write(data)


def real_rmtree(path):
    """Removes a scratch directory (only ever below the scratch root)."""
    if not path.startswith("/dev/shm/vsim-") and "/vsim-" not in path:
        raise SimError("refuses to remove " + path)
    for base, dirs, files in os.walk(path, topdown=False):
        for n in files:
            seams.real["unlink"](os.path.join(base, n))
        for n in dirs:
            p = os.path.join(base, n)
            if os.path.islink(p):
                seams.real["unlink"](p)
            else:
                seams.real["rmdir"](p)
    seams.real["rmdir"](path)


def listing(path):
    """{relative name: content hash} of a directory tree."""
    out = {}
    for base, dirs, files in os.walk(path):
        for n in files:
            p = os.path.join(base, n)
            try:
                out[os.path.relpath(p, path)] = hashlib.sha1(real_read(p)).hexdigest()[:12]
            except OSError:
                pass
    return out


_svgid_cache = {}


def svg_id(svg):
    """Identity of a page drawing: hash of its canonical XML."""
    if isinstance(svg, str):
        svg = svg.encode()
    key = hashlib.sha1(svg).digest()
    r = _svgid_cache.get(key)
    if r is None:
        try:
            r = node_id(et.fromstring(svg))
        except et.XMLSyntaxError:
            r = "raw" + key.hex()[:16]
        if len(_svgid_cache) > 20000:
            _svgid_cache.clear()
        _svgid_cache[key] = r
    return r


def node_id(el):
    return hashlib.sha1(
        et.tostring(el, method="c14n", exclusive=True, with_tail=False)
    ).hexdigest()[:16]


CAIRO_COLORS = {}  # page -> colours that its drawing sets, in order


def pdf_pages(data):
    """Pages of a PDF file as identities, or None when the file is not a complete PDF."""
    import PyPDF2

    if not data.startswith(b"%PDF") or not data.rstrip().endswith(b"%%EOF"):
        return None
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            reader = PyPDF2.PdfFileReader(io.BytesIO(data), strict=False)
            out = []
            for i in range(reader.getNumPages()):
                page = reader.getPage(i)
                c = page.get("/Contents")
                c = c.getObject() if c is not None else None
                if c is None:
                    raw = b""
                elif isinstance(c, list):
                    raw = b"\n".join(x.getObject().getData() for x in c)
                else:
                    raw = c.getData()
                if not isinstance(raw, bytes):
                    raw = raw.encode("latin1", "replace")
                m = tools.MARK.findall(raw)
                if m:
                    out.append(m[0].decode())
                else:
                    out.append("CAIRO:" + pdf_digest(page))
                    if len(CAIRO_COLORS) > 5000:
                        CAIRO_COLORS.clear()
                    CAIRO_COLORS[out[-1]] = [
                        "#%02x%02x%02x" % tuple(round(float(v) * 255) for v in m)
                        for m in re.findall(rb"([\d.]+) ([\d.]+) ([\d.]+) (?:rg|RG)\b", raw)]
            return out
    except (SimCrash, SimHang, SimAbort, SimError):
        raise
    except Exception:
        return None


def pdf_digest(page):
    """Canonical digest of everything a page shows (independent of object numbers)."""
    from PyPDF2 import generic as G

    h = hashlib.sha1()
    seen = {}

    def feed(o, depth=0):
        if isinstance(o, G.IndirectObject):
            key = (o.idnum, o.generation)
            if key in seen:
                h.update(b"@%d" % seen[key])
                return
            seen[key] = len(seen)
            o = o.getObject()
        if isinstance(o, G.StreamObject):
            h.update(b"S")
            try:
                d = o.getData()
            except Exception:
                d = o._data
            if isinstance(d, str):
                d = d.encode("latin1", "replace")
            h.update(d)
        if isinstance(o, dict):
            h.update(b"{")
            for k in sorted(o.keys()):
                if k in ("/Parent", "/Length", "/Filter", "/DecodeParms", "/Type", "/StructParents"):
                    continue
                h.update(str(k).encode())
                feed(o.raw_get(k) if hasattr(o, "raw_get") else o[k], depth + 1)
            h.update(b"}")
        elif isinstance(o, list):
            h.update(b"[")
            for x in o:
                feed(x, depth + 1)
            h.update(b"]")
        elif isinstance(o, (G.FloatObject, G.NumberObject, float, int)):
            h.update(b"%.4f," % float(o))
        elif isinstance(o, G.BooleanObject):
            h.update(b"T" if o.value else b"F")
        elif isinstance(o, G.NullObject):
            h.update(b"null")
        else:
            h.update(re.sub(r"^/[A-Z]{6}\+", "/", str(o)).encode("utf8", "replace"))

    for part in ("/MediaBox", "/Resources", "/Contents", "/Group"):
        if part in page:
            h.update(part.encode())
            feed(page.raw_get(part))
    return h.hexdigest()[:16]


def png_digest(data):
    from PIL import Image

    try:
        img = Image.open(io.BytesIO(data))
        img.load()
        return "PNG:" + hashlib.sha1(repr(img.size).encode() + img.tobytes()).hexdigest()[:16]
    except (SimCrash, SimHang, SimAbort, SimError):
        raise
    except Exception:
        return None


def complete_file(name, data):
    """Is this file of a cache directory complete, judging by its kind alone?"""
    ext = name.rsplit(".", 1)[-1]
    if ext == "pdf":
        return tools.pdf_markers_raw(data) is not None and (
            bool(tools.pdf_markers_raw(data)) or pdf_pages(data) is not None)
    if ext == "svg":
        try:
            et.fromstring(data)
            return True
        except et.XMLSyntaxError:
            return False
    if ext == "png":
        return tools.other_marker("png", data) is not None or png_digest(data) is not None
    if ext == "cache":
        try:
            json.loads(data)
            return True
        except ValueError:
            return False
    return tools.other_marker(ext, data) is not None


# ---------------------------------------------------------------- fake optional modules
class _FakePptx:
    """Stands in for python-pptx: reads each picture when it is added, writes one file."""

    class _Shapes:
        def __init__(self, pr):
            self.pr = pr

        def add_picture(self, image, *a):
            with open(image, "rb") as f:
                self.pr.pictures.append(f.read())

    class _Slide:
        def __init__(self, pr):
            self.shapes = _FakePptx._Shapes(pr)

    class _Slides:
        def __init__(self, pr):
            self.pr = pr

        def add_slide(self, layout):
            self.pr.layouts.append(layout.name)
            return _FakePptx._Slide(self.pr)

    class Presentation:
        def __init__(self):
            self.pictures = []
            self.layouts = []
            self.slide_layouts = [types.SimpleNamespace(name=n) for n in ("Title", "Blank", "Other")]
            self.slides = _FakePptx._Slides(self)
            self.slide_width, self.slide_height = 9144000, 6858000

        def save(self, filename):
            import base64

            data = json.dumps([base64.b64encode(p).decode() for p in self.pictures]).encode()
            with open(filename, "wb") as f:
                f.write(data)


def fake_modules(notebook):
    m = types.ModuleType("pptx")
    m.Presentation = _FakePptx.Presentation
    sys.modules["pptx"] = m
    if notebook:
        ip = types.ModuleType("IPython")
        ip.get_ipython = lambda: types.SimpleNamespace(config={"IPKernelApp": {}})
        sys.modules["IPython"] = ip
    else:
        sys.modules.pop("IPython", None)


# ---------------------------------------------------------------- sessions
class Session:
    """One simulated user process: a fresh copy of elsie and its child processes."""

    def __init__(self, world, name, spec):
        self.world = world
        self.k = world.k
        self.name = name
        self.ink_version = spec.get("ink") or INK
        self.elsie_version = spec.get("ver") or VER
        self.notebook = spec.get("notebook", False)
        self.cfg = dict(world.cfg.get("session", {}), **spec.get("cfg", {}))
        self.dead = False
        self.ended = False
        self.procs = []
        self.shells = []
        self.commands = []
        self.queries = []
        self.exports = []
        self.malformed = []
        self.latex_runs = []
        self.decks = {}
        fake_modules(self.notebook)
        self.k.muted += 1
        try:
            self.mods = loader.load(self.elsie_version, name)
        finally:
            self.k.muted -= 1

    def activate(self):
        loader.activate(self.mods)
        fake_modules(self.notebook)

    def kill(self):
        """SIGKILL of the process: its children lose their pipes and run on for a while."""
        if self.dead:
            return
        self.dead = True
        r = self.k.rng("orphans")
        for p in self.procs:
            if p.returncode_real is None:
                p.orphan(r.choice([0, 0, 1, 2, 3, 5, 8, 60]))

    def end(self):
        """Normal exit."""
        if self.dead or self.ended:
            return
        self.ended = True
        for p in self.procs:
            if p.returncode_real is None:
                p.orphan(100)
        self.dead = True

    def interrupt_children(self):
        for p in self.procs:
            if p.group and p.returncode_real is None:
                p.exit(-2)

    def work(self):
        """Counters of the external work done so far."""
        return (len(self.queries), len(self.exports), len(self.latex_runs))

    def open_docs(self):
        return [d["path"] for p in self.shells if p.returncode_real is None
                for d in p.docs if d["path"] is not None]


class Outcome:
    __slots__ = ("kind", "value", "exc", "msg", "faulted", "fired", "inside")

    def __init__(self, kind, value=None, exc=None, msg="", fired=()):
        self.kind = kind  # ok err intr crash hang skip
        self.value = value
        self.exc = exc
        self.msg = msg
        self.fired = list(fired)
        self.inside = False  # whether an error was raised in elsie

    @property
    def ok(self):
        return self.kind == "ok"

    def brief(self):
        return self.kind + (f" {self.exc}: {self.msg[:160]}" if self.exc else "")


class StopRun(Exception):
    """The rest of the scenario cannot be executed meaningfully."""


class _Sink(io.TextIOBase):
    def writable(self):
        return True

    def write(self, s):
        return len(s)


SINK = _Sink()


# pictures that can be read, but whose size cannot be told
NO_SIZE = [b"<svg xmlns='http://www.w3.org/2000/svg' viewBox='0 0 80 60' " + x + b"><rect id='t' "
           b"width='9' height='9'/></svg>\n" for x in
           (b"width='wide' height='60'", b"width='80' height='high'", b"width='80'",
            b"height='60'")]


# ---------------------------------------------------------------- world
class World:
    def __init__(self, scenario, root, faults=(), profile=False, seed=None, trace=False):
        self.sc = scenario
        self.root = root
        self.cfg = dict(scenario.get("cfg", {}))
        if trace:
            self.cfg["trace"] = True
        self.k = Kernel(scenario["seed"] if seed is None else seed, root, faults, self.cfg)
        self.k.cfg["edit"] = self._edit_fault
        if profile:
            self.k.profile = []
        self.versions = {a: 1 for a in scenario.get("assets", ())}
        self.sessions = {}
        self.problems = []
        self.history = []  # (step, outcome) of everything that ran
        self.renders = []
        self.info = {}
        self.counts = {}
        self.faulted = set()  # sessions in which a fault fired
        self.cur_name = None
        self.spoiled = {}
        self.par = None

    # -- bookkeeping
    def problem(self, oracle, msg, **extra):
        d = {"oracle": oracle, "step": self.k.step, "msg": msg,
             "faulted": self.cur_name in self.faulted}
        d.update(extra)
        self.problems.append(d)

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    # -- assets
    def asset_path(self, name):
        if self.cfg.get("dirs"):
            # files of one name in different directories
            stem, ext = name.rsplit(".", 1)
            return os.path.join(self.root, "as-" + stem, "pic." + ext)
        return os.path.join(self.root, "as-" + name)

    def given(self, path):
        """How the program writes a path."""
        return os.path.relpath(path) if self.cfg.get("rel") else path

    def put_asset(self, name):
        path = self.asset_path(name)
        real_write(path, assets.make(name, self.versions[name]))
        # the time stamp of an edited file says little: copies keep it, checkouts set it back
        x = int(hashlib.sha1(f"{name}/{self.versions[name]}".encode()).hexdigest(), 16)
        t = 1600000000 + (0, 0, 0, 0, 7, -7, x % 1000)[x % 7]
        seams.real["utime"](path, (t, t))

    def bump_asset(self, name):
        self.versions[name] += 1
        self.spoiled.pop(name, None)
        self.put_asset(name)

    def _edit_fault(self, arg):
        self.count("edits during operations")
        self.bump_asset(arg["asset"])

    def cache_path(self, name):
        return os.path.join(self.root, name)

    # -- running
    def setup(self):
        for d in ("", "tmp", "work", "deep", "deep/down"):
            seams.real["mkdir"](os.path.join(self.root, d) if d else self.root)
        for a in self.versions if self.cfg.get("dirs") else ():
            d = os.path.dirname(self.asset_path(a))
            if not os.path.isdir(d):
                seams.real["mkdir"](d)
        for a in self.versions:
            self.put_asset(a)
        self._old = (K.CURRENT, tempfile.tempdir, sys.stdout, sys.stderr, os.getcwd())
        K.CURRENT = self.k
        tempfile.tempdir = os.path.join(self.root, "tmp")
        sys.stdout = sys.stderr = SINK
        os.chdir(os.path.join(self.root, "work"))

    def teardown(self):
        try:
            self.k.shutdown()
        finally:
            for s in self.sessions.values():
                s.dead = True
            self.k.muted = 1
            old, tmp, out, err, cwd = self._old
            K.CURRENT, tempfile.tempdir, sys.stdout, sys.stderr = old, tmp, out, err
            os.chdir(cwd)
            loader.clear()

    def run(self):
        self.setup()
        try:
            for step in self.sc["steps"]:
                self.k.begin_step(step["i"])
                self.step = step
                try:
                    getattr(self, "do_" + step["s"])(step)
                except StopRun:
                    break
            self.k.begin_step(10 ** 6)
            if self.k.escapes:
                self.problem("escape", "tried to change something outside: %r" % self.k.escapes[:3])
        finally:
            self.teardown()
        return self

    def attempt(self, session, fn):
        """Runs one user-level operation in a session and classifies how it ended."""
        k = self.k
        me = k.cur
        if session.dead:
            return Outcome("skip")
        me.session = session
        self.cur_name = session.name
        if k.active_modules is not session:
            k.active_modules = session
            session.activate()
        n0 = len(k.fired)
        full = [f for f in k.fired if f.kind == "enospc"][-1:] if k.disk_full else []
        out = None
        try:
            out = Outcome("ok", fn())
        except SimCrash:
            out = Outcome("crash")
        except SimHang as e:
            out = Outcome("hang", msg=str(e))
        except SimAbort:
            raise
        except SimError:
            raise
        except D.BadHandle as e:
            out = Outcome("skip", msg=str(e))
        except KeyboardInterrupt:
            out = Outcome("intr", exc="KeyboardInterrupt")
        except BaseException as e:
            out = Outcome("err", exc=type(e).__name__, msg=str(e))
            tb = e.__traceback__
            while tb is not None:
                out.inside = out.inside or "/elsie/" in tb.tb_frame.f_code.co_filename
                tb = tb.tb_next
            if isinstance(e, (SystemExit, GeneratorExit)):
                out.msg = "exit " + out.msg
        finally:
            if session.dead and out is not None and out.kind not in ("crash", "hang"):
                out = Outcome("crash")
        out.fired = [f for f in k.fired[n0:] if f.sess in (None, session.name)
                     or f.kind == "enospc"]
        if full and not out.fired and self.par is not None:
            out.fired = full  # the disk that the other session found full
        if out.fired:
            self.faulted.add(session.name)
        if me is k.main:
            me.session = None
        if out.kind == "hang":
            self.problem("hang", out.msg)
            session.dead = True
            raise StopRun()
        return out

    # -- steps
    def do_open(self, st):
        self.k.main.session = None
        self.sessions[st["sess"]] = Session(self, st["sess"], st)
        self.k.active_modules = self.sessions[st["sess"]]

    def do_end(self, st):
        s = self.sessions[st["sess"]]
        k = self.k
        k.muted += 1
        try:
            s.end()
            s.decks.clear()
            gc_collect(self)
        finally:
            k.muted -= 1

    def do_kill(self, st):
        self.k.muted += 1
        try:
            self.sessions[st["sess"]].kill()
        finally:
            self.k.muted -= 1

    def do_chdir(self, st):
        """The program goes to another working directory."""
        os.chdir(os.path.join(self.root, st["to"]))
        self.count("working directory changes")

    def do_asset(self, st):
        if st.get("v"):  # what it was at some earlier time
            self.versions[st["asset"]] = st["v"] - 1
        self.bump_asset(st["asset"])

    def do_spoil(self, st):
        """An image file becomes unusable."""
        path = self.asset_path(st["asset"])
        data = assets.make(st["asset"], self.versions[st["asset"]])
        how = st["how"]
        self.spoiled[st["asset"]] = how
        if how == "remove":
            seams.real["unlink"](path)
        elif how == "layer":
            real_write(path, assets.damaged_layer(data, st.get("n", 0)))
        else:
            real_write(path, {"empty": b"", "garbage": b"\x00\x01 no picture \xff" * 20,
                              "text": b"see the other file\n",
                              "bare": b"<html><body>no picture</body></html>",
                              "nosize": NO_SIZE[st.get("n", 0) % len(NO_SIZE)],
                              "cut": data[: len(data) * 2 // 3]}[how])

    def do_restore(self, st):
        self.spoiled.pop(st["asset"], None)
        self.put_asset(st["asset"])

    def do_par(self, st):
        """Sessions that run at the same time, scheduled by the simulator."""
        k = self.k
        tasks = []
        self.par = []
        for n, branch in enumerate(st["branches"]):
            def body(branch=branch):
                for sub in branch:
                    getattr(self, "do_" + sub["s"])(dict(sub, i=st["i"]))
            tasks.append(k.spawn("p%d" % n, body, self.sessions[branch[0]["sess"]]))
        try:
            k.join_all(tasks)
        finally:
            k.multi = False
        judged, self.par = self.par, None
        for t in tasks:
            if t.error is not None and not isinstance(
                    t.error, (SimCrash, SimAbort, StopRun, SimHang)):
                raise t.error
        if k.hang:
            raise StopRun()
        for s, c, sub, rec, n in judged:
            self.cur_name = s.name
            self.judge_render(s, c, sub, rec, n)

    def do_rmcache(self, st):
        """The user deletes some files of a cache directory."""
        path = self.cache_path(st.get("cache", "cache"))
        if not os.path.isdir(path):
            return
        r = self.k.rng("rmcache%d" % st["i"])
        for n in sorted(seams.real["listdir"](path)):
            if r.random() < st.get("p", 0.5) and os.path.isfile(os.path.join(path, n)):
                if not n.startswith(("cache.", "queries")) or n == "queries.bak":
                    continue
                seams.real["unlink"](os.path.join(path, n))

    def do_foreign(self, st):
        """A file that is none of elsie's business appears in the cache directory."""
        path = self.cache_path(st.get("cache", "cache"))
        if not os.path.isdir(path):
            seams.real["mkdir"](path)
        data = st.get("data", "something").encode()
        real_write(os.path.join(path, st["name"]), data)

    def do_copy(self, st):
        """A copy of an added PDF file lies where the output goes."""
        a = st["asset"]
        real_write(os.path.join(self.root, st["to"]), assets.make(a, self.versions[a]))

    def do_damage(self, st):
        """The stored measurements are truncated, emptied or lost."""
        path = self.cache_path(st.get("cache", "cache"))
        if not os.path.isdir(path):
            return
        for n in sorted(seams.real["listdir"](path)):
            if n.startswith("queries") and n.endswith(".cache"):
                p = os.path.join(path, n)
                data = real_read(p)
                how = st["how"]
                self.count("measurement file damaged")
                if how == "empty":
                    real_write(p, b"")
                elif how == "cut":
                    real_write(p, data[: int(len(data) * st.get("at", 0.5))])
                else:
                    seams.real["unlink"](p)

    # -- decks
    def make_deck(self, session, st):
        m = session.mods
        elsie = m["elsie"]
        cache = self.given(self.cache_path(st.get("cache", "cache")))
        kw = dict(st.get("kw", {}))
        if st.get("backend") == "cairo":
            kw = dict({"width": 256, "height": 192}, **kw)  # drawing pixels costs time
        if st.get("share"):
            # a second deck over the backend of another deck
            other = session.decks[st["share"]]
            return elsie.SlideDeck(backend=other.deck.backend, cache_dir=cache, **kw)
        if st.get("backend") == "cairo":
            backend = m["elsie.render.backends"].CairoBackend(cache_dir=cache)
            return elsie.SlideDeck(backend=backend, cache_dir=cache, **kw)
        if st.get("ttp"):
            shell = m["elsie.render.inkscape"].InkscapeShell(self.ink_path(st), text_to_path=True)
            backend = m["elsie.render.backends"].InkscapeBackend(shell, cache_dir=cache)
            return elsie.SlideDeck(backend=backend, cache_dir=cache, **kw)
        if st.get("ink"):
            # another Inkscape than the one that is found
            backend = m["elsie.render.backends"].InkscapeBackend(self.ink_path(st), cache_dir=cache)
            return elsie.SlideDeck(backend=backend, cache_dir=cache, **kw)
        return elsie.SlideDeck(cache_dir=cache, **kw)

    def ink_path(self, st):
        return "/opt/inkscape-other/bin/inkscape-other" if st.get("ink") else "/usr/bin/inkscape"

    def new_deck(self, session, st):
        deck = self.make_deck(session, st)
        ctx = D.DeckCtx(self, session, st["deck"], deck, st.get("backend", "inkscape"), st)
        session.decks[st["deck"]] = ctx
        ctx.cache = self.cache_path(st.get("cache", "cache"))
        return ctx

    def retrying(self, session, fn, what, tries=3):
        """Repeats an operation that failed under a fault; the cause is gone on a retry."""
        out = None
        for n in range(tries):
            out = self.attempt(session, fn)
            self.judge_outcome(out, what)
            if out.kind in ("ok", "crash", "skip"):
                return out, n
            if not out.fired:
                return out, n
            self.k.disk_full = False
        return out, tries

    def judge_outcome(self, out, what):
        if out.kind in ("err", "intr") and not out.fired and not self.k.disk_full:
            self.problem("raise", f"{what} raised {out.exc}: {out.msg[:300]} although nothing "
                         "failed during it")
        if out.kind == "intr" and not any(f.kind == "interrupt" for f in out.fired):
            self.problem("raise", what + " raised KeyboardInterrupt without an interrupt")

    def do_deck(self, st):
        s = self.sessions[st["sess"]]
        if s.dead:
            return
        out, _ = self.retrying(s, lambda: self.new_deck(s, st), "creating a deck")
        self.history.append((st["i"], "deck", out))
        self.after(s, st, out)

    def ctx(self, st):
        s = self.sessions.get(st["sess"])
        if s is None or s.dead:
            return None, None
        return s, s.decks.get(st["deck"])

    def do_ops(self, st):
        s, c = self.ctx(st)
        if c is None:
            return
        for op in st["ops"]:
            if s.dead:
                return
            self.run_op(s, c, op, st)
        self.after(s, st, None)

    def run_op(self, s, c, op, st):
        what = "adding " + op["op"]
        versions = {}
        a = op.get("asset")
        if a:
            # a deck remembers the image files it has read
            known = op["op"] == "image" and op.get("how", "file") == "file" and a in c.images
            versions[a] = c.images[a] if known else self.versions.get(a)
            if a in self.spoiled and op["op"] == "image" and not known:
                op = dict(op, bad="spoiled")
        if c.tainted:
            self.attempt(s, lambda: D.apply_op(c, op))
            return None
        for n in range(3):
            out = self.attempt(s, lambda: D.apply_op(c, op))
            if op.get("bad") == "spoiled" and out.kind == "ok" and a not in self.spoiled:
                op = {k: v for k, v in op.items() if k != "bad"}  # edited in the middle
            if op.get("bad"):
                if out.kind == "err" and not out.inside:
                    self.count("additions that never reached elsie")
                if out.kind == "ok":
                    self.problem("accept", f"{op} was accepted")
                    c.tainted = True
                elif out.kind == "intr" or (out.kind == "err" and out.fired):
                    self.k.disk_full = False
                    if a in self.spoiled or op["bad"] is True:
                        continue
                    op = {k: v for k, v in op.items() if k != "bad"}
                    continue
                return out
            self.op_hook(s, c, op, out, n)
            if out.kind in ("ok", "crash", "skip"):
                break
            if op["op"] in D.COMPOSITE:
                if out.fired:
                    c.tainted = True
                else:
                    c.log_failed(op, out)
                break
            if not out.fired:
                c.log_failed(op, out)
                break
            self.k.disk_full = False
            self.count("operations repeated after a failure")
        if out.kind == "ok":
            if a and not known:
                # an edit may have happened while the image was being read
                v = self.versions[a]
                if v != versions[a]:
                    versions[a] = [versions[a], v]
                if op["op"] == "image" and op.get("how", "file") == "file":
                    c.images[a] = versions[a]
            c.log.append((op, versions))
            if n:
                c.retried.add(len(c.log) - 1)
        return out

    def op_hook(self, s, c, op, out, n):
        pass

    # -- rendering
    def do_render(self, st):
        s, c = self.ctx(st)
        if c is None:
            return
        self.render(s, c, st)

    def render_kw(self, c, st):
        kw = dict(st.get("kw", {}))
        if kw.get("select"):
            kw["select_slides"] = [c.get("S:" + x) for x in kw.pop("select")]
        else:
            kw.pop("select", None)
        if kw.get("slides_per_page"):
            kw["slides_per_page"] = tuple(kw["slides_per_page"])
        if kw.pop("post", None):
            seen = c.post = []
            kw["slide_postprocessing"] = lambda boxes: seen.append(list(boxes))
        return kw

    def render(self, s, c, st):
        rec = {"i": st["i"], "st": st, "ctx": c, "sess": s}
        c.live_model = None
        out_path = os.path.join(self.root, st.get("out", "out-%s.pdf" % st["deck"]))
        for n in range(3):
            rec["before"] = listing(c.cache) if os.path.isdir(c.cache) else {}
            rec["out_before"] = real_read(out_path) if os.path.isfile(out_path) else None
            rec["work0"] = s.work()
            rec["raw_versions"] = dict(self.versions)
            rec["loglen"] = len(c.log)
            rec["blocked"] = os.path.isdir(out_path) or not os.path.isdir(os.path.dirname(out_path))

            def go():
                kw = self.render_kw(c, st)
                return c.deck.render(self.given(out_path), **kw)

            if st.get("pptx"):
                def go():
                    kw = self.render_kw(c, st)
                    return s.mods["elsie.ext.export"].export_pptx(c.deck, self.given(out_path), **kw)
            out = self.attempt(s, go)
            rec["out"] = out
            rec["work1"] = s.work()
            rec["after"] = listing(c.cache) if os.path.isdir(c.cache) else {}
            rec["out_after"] = real_read(out_path) if os.path.isfile(out_path) else None
            rec["raw_versions2"] = dict(self.versions)
            self.renders.append(dict(rec))
            if self.par is not None:
                self.par.append((s, c, st, dict(rec), n))
            else:
                self.judge_render(s, c, st, rec, n)
            self.history.append((st["i"], "render", out))
            self.after(s, st, out)
            if out.kind in ("ok", "crash", "skip"):
                break
            if not out.fired:
                break
            self.k.disk_full = False
            self.count("renders repeated after a failure")
        return rec

    def judge_render(self, s, c, st, rec, n):
        out = rec["out"]
        if out.kind == "ok":
            try:
                pages = self.decode_output(s, c, st, rec)
            except Exception as e:
                if isinstance(e, (SimError,)):
                    raise
                pages = None
                self.problem("output", f"the result of the render cannot be read: {e!r}")
                return
            rec["pages"] = pages
            if self.par is None and self.renders[-1]["out"] is out:
                self.renders[-1]["pages"] = pages
            self.count("renders completed")
            if c.tainted:
                return
            n0 = len(self.problems)
            for log in log_variants(c.log[: rec["loglen"]]):
                del self.problems[n0:]
                exp = self.expected_pages(c, st, rec, log)
                if exp is None:
                    break
                self.compare(pages, exp, st)
                if len(self.problems) == n0:
                    break
        elif out.kind in ("err", "intr") and not out.fired:
            if not c.tainted and self.expected_error(c, st, rec) is None:
                self.problem("raise", f"render raised {out.exc}: {out.msg[:300]} although "
                             "nothing failed during it")

    def compare(self, pages, exp, st, oracle="pages"):
        if pages is None:
            self.problem(oracle if oracle != "pages" else "output", "the output is not complete")
            return
        if isinstance(exp, tuple) and exp and exp[0] == "error":
            self.problem(oracle, f"render succeeded, but a fresh session raises {exp[1]}")
            return
        if len(pages) != len(exp):
            self.problem(oracle, f"{len(pages)} pages, expected {len(exp)}: "
                         f"{pages[:8]} / {exp[:8]}")
            return
        for i, (a, b) in enumerate(zip(pages, exp)):
            if isinstance(b, tuple) and b[0] == "grid":
                bad = self.grid_differs(a, b)
                if bad:
                    self.problem(oracle, f"page {i + 1} of {len(exp)} is a grid of slides, but {bad}",
                                 page=i)
                    return
            elif a != b and not (isinstance(b, set) and a in b):
                self.problem(oracle, f"page {i + 1} of {len(exp)} is {a}, expected {b}", page=i,
                             got=self.svg_of(a), want=self.svg_of(b))
                return

    def svg_of(self, page):
        try:
            if isinstance(page, tuple) and page[0] == "svg":
                return SVG_BY_ID.get(page[1], "")[:3000]
        except Exception:
            pass
        return None

    # -- displaying
    def do_show(self, st):
        """A notebook displays a slide."""
        s, c = self.ctx(st)
        if c is None or ("S:" + st["slide"]) not in c.h:
            return
        how = st.get("how", "repr")
        for n in range(3):
            before = listing(c.cache)

            def go():
                slide = c.get("S:" + st["slide"])
                if how == "repr":
                    return slide._repr_html_()
                if how == "box":
                    return c.get(st["slide"])._repr_html_()
                return s.mods["elsie.render.jupyter"].render_slide_html(slide, how)

            out = self.attempt(s, go)
            rec = {"st": st, "out": out, "before": before, "after": listing(c.cache),
                   "loglen": len(c.log), "sess": s, "ctx": c}
            self.judge_show(s, c, st, rec)
            self.history.append((st["i"], "show", out))
            self.after(s, st, out)
            if out.kind in ("ok", "crash", "skip") or not out.fired:
                break
            self.k.disk_full = False

    def judge_show(self, s, c, st, rec):
        out = rec["out"]
        if out.kind in ("err", "intr") and not out.fired:
            if not c.tainted and clean_pages(self, c, c.log)[st["slide"]][0] == "ok":
                self.problem("raise", f"display raised {out.exc}: {out.msg[:300]} although "
                             "nothing failed during it")
            return
        lost = [n for n, h in rec["before"].items() if rec["after"].get(n) != h
                and not n.startswith("queries")]
        if lost:
            self.problem("show", f"a display removed or changed {lost[:3]} in the cache")
        if out.kind != "ok" or c.tainted:
            return
        self.count("displays")
        kind = "svg" if st.get("how") == "svg" else "png"
        parts = re.split(r"""<div class=['"]elsie-step step-(\d+)['"][^>]*>""", out.value)
        nums, bodies = parts[1::2], parts[2::2]
        if nums != [str(i + 1) for i in range(len(nums))]:
            self.problem("show", f"fragments are numbered {nums}")
        ids = re.findall(r"""['"]elsie-wrapper ([^'" ]+)['"]""", out.value)
        if len(ids) != 1:
            self.problem("show", f"display identifiers: {ids}")
        elif ids[0] in self.info.setdefault("ids", set()):
            self.problem("show", f"identifier {ids[0]} was used by an earlier display")
        else:
            self.info["ids"].add(ids[0])
        controls = bool(re.search(r"""class=['"]elsie-next['"]""", out.value))
        if controls != (len(nums) > 1):
            self.problem("show", f"navigation controls: {controls} with {len(nums)} fragments")
        seen = self.info.setdefault("notebook", [])
        wrong = notebook.run(seen[-1:] + [out.value])
        seen.append(out.value)
        if isinstance(wrong, tuple):
            self.count("controls not understood")
        elif wrong is not None:
            self.problem("show", wrong)
        else:
            self.count("controls judged")
        pages = []
        import base64

        for b in bodies:
            if kind == "svg":
                body = b.split("</div>")[0].strip()
                i = svg_id(body)
                SVG_BY_ID[i] = body
                pages.append(("svg", i))
            else:
                m = re.search(r'src="data:image/png;base64,\s*([A-Za-z0-9+/=\s]+)"', b)
                try:
                    r = self.decode_file(base64.b64decode(m.group(1)), "png")
                except Exception:
                    r = None
                if r is None:
                    self.problem("show", "a fragment is not a complete picture")
                    return
                pages += r
        n0 = len(self.problems)
        for log in log_variants(c.log[: rec["loglen"]]):
            del self.problems[n0:]
            cp = clean_pages(self, c, log)[st["slide"]]
            if cp[0] != "ok":
                return
            if c.backend == "cairo":
                exp = [("cairo", x) for x in cp[1]["png"]]
            elif kind == "svg":
                exp = [("svg", x) for x in cp[1]]
            else:
                verh = hashlib.sha1(c.ink_version.encode()).hexdigest()[:8]
                ttp = "ttp" if c.opts.get("ttp") else "txt"
                exp = [("svg", x, "png", verh, s.elsie_version, ttp) for x in cp[1]]
            self.compare(pages, exp, st, oracle="show")
            if len(self.problems) == n0:
                return

    # -- decoding
    def page_from_marker(self, m):
        if m.startswith("SVG:"):
            _, sha, kind, ver, ev, ttp = m.split(":")
            svg = self.k.svg_store[sha]
            i = svg_id(svg)
            SVG_BY_ID[i] = svg.decode("utf8", "replace")
            return ("svg", i, kind, ver, ev, ttp)
        if m.startswith("RAW:"):
            _, name, v, i = m.split(":")
            return ("raw", name, int(v), int(i))
        return ("cairo", m)

    def decode_file(self, data, kind):
        """Pages of one output file, or None when it is not complete."""
        if kind == "pdf":
            p = pdf_pages(data)
            return None if p is None else [self.page_from_marker(m) for m in p]
        m = tools.other_marker(kind, data)
        if m is not None:
            return [self.page_from_marker(m)]
        if kind == "png":
            d = png_digest(data)
            return None if d is None else [("cairo", d)]
        return None

    def decode_output(self, s, c, st, rec):
        kw = st.get("kw", {})
        kind = kw.get("export_type", "pdf")
        v = rec["out"].value
        if st.get("pptx"):
            import base64

            pics = [base64.b64decode(x) for x in json.loads(rec["out_after"])]
            out = []
            for p in pics:
                r = self.decode_file(p, "png")
                if r is None:
                    return None
                out += r
            return out
        if kw.get("return_units"):
            if c.backend == "cairo":
                return None
            out = []
            for u in v:
                svg = u.get_svg()
                if svg is None:
                    r = self.decode_file(real_read(u.filename), "pdf")
                    if r is None:
                        return None
                    out += r
                else:
                    i = svg_id(svg)
                    SVG_BY_ID[i] = svg
                    out.append(("svg", i))
            return out
        if kind == "pdf" and kw.get("pdf_merger", "pypdf") is not None:
            if rec["out_after"] is None:
                return None
            return self.decode_file(rec["out_after"], "pdf")
        out = []
        for f in v:
            r = self.decode_file(real_read(f), kind)
            if r is None:
                return None
            out += r
        return out

    # -- expectations
    def order_of_slides(self, c, st, loglen=None):
        """Handles of the slides that a render has to output, in order (model)."""
        sel = st.get("kw", {}).get("select")
        if sel:
            return [("slide", x) for x in sel]
        return model_order(c, loglen)

    def expected_pages(self, c, st, rec, log=None):
        kw = st.get("kw", {})
        log = c.log[: rec["loglen"]] if log is None else log
        kind = render_kind(st)
        order = self.order_of_slides(c, st, rec["loglen"])
        clean = clean_pages(self, c, log)
        s = rec["sess"]
        verh = hashlib.sha1(c.ink_version.encode()).hexdigest()[:8]
        units = []
        for what, ident in order:
            if what == "pdf":
                n = len(tools.pdf_markers_raw(assets.make(ident, 1)))
                vs = {rec["raw_versions"][ident], rec["raw_versions2"][ident]}
                units.append(("raw", [
                    {("raw", ident, v, i) for v in vs} for i in range(n)]))
            else:
                p = clean.get(ident)
                if p is None:
                    raise SimError("no clean pages of " + ident)
                if p[0] == "error":
                    return p
                pages = p[1][kind] if c.backend == "cairo" else p[1]
                units.append(("slide", pages))
        grid = kw.get("slides_per_page")
        if grid and grid[0] * grid[1] > 1:
            return self.expected_grid(c, st, units, kind, verh, s)
        out = []
        for what, pages in units:
            if what == "raw":
                out += pages
            elif c.backend == "cairo":
                out += [("cairo", x) for x in pages]
            elif kw.get("return_units"):
                out += [("svg", x) for x in pages]
            else:
                ttp = "ttp" if c.opts.get("ttp") else "txt"
                out += [("svg", x, kind, verh, s.elsie_version, ttp) for x in pages]
        return out

    def expected_grid(self, c, st, units, kind, verh, s):
        if c.backend == "cairo":
            return None
        kw = st["kw"]
        ttp = "ttp" if c.opts.get("ttp") else "txt"
        tail = () if kw.get("return_units") else (kind, verh, s.elsie_version, ttp)
        grid = tuple(kw["slides_per_page"])
        out, cells = [], None
        for what, pages in units:
            if what == "raw":
                out += pages
                cells = None
                continue
            for p in pages:
                if cells is None or len(cells) == grid[0] * grid[1]:
                    cells = []
                    out.append(("grid", cells, tail, grid))
                cells.append(p)
        return out

    def grid_differs(self, page, want):
        """Why a page is not the wanted page of several slides, or None."""
        _, ids, tail, grid = want
        if page[0] != "svg" or tuple(page[2:]) != tail:
            return "it is no such page"
        root = et.fromstring(SVG_BY_ID[page[1]].encode())
        cells = model.grid_cells(root)
        if cells is None or len(cells) != len(ids):
            return f"it has {None if cells is None else len(cells)} slides, not {len(ids)}"
        bad = model.grid_problem(root, cells, grid)
        if bad:
            return "it is " + bad
        for i, ((_, _, el), p) in enumerate(zip(cells, ids)):
            a = et.tostring(et.fromstring(et.tostring(el, with_tail=False)), method="c14n")
            b = et.tostring(et.fromstring(SVG_BY_ID[p].encode()), method="c14n")
            if a != b:
                d = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                return (f"its slide {i + 1} is {a[:60]!r}.. and from byte {d} on "
                        f"{a[d:d + 160]!r}, expected {b[d:d + 160]!r}")
        return None

    def expected_error(self, c, st, rec):
        """The error that a fresh session raises for the same render, or None."""
        order = self.order_of_slides(c, st, rec["loglen"])
        if not order:
            return ("error", "Exception")
        if rec["blocked"] and writes_output(st):
            return ("error", "OSError")
        kind = render_kind(st)
        if any(w == "pdf" for w, _ in order) and kind != "pdf":
            return ("error", "AssertionError")
        clean = clean_pages(self, c, c.log[: rec["loglen"]])
        for what, ident in order:
            if what == "slide" and clean[ident][0] == "error":
                return clean[ident]
        return None

    # -- after every operation
    def after(self, s, st, out):
        pass


SVG_BY_ID = {}


def render_kind(st):
    return "png" if st.get("pptx") else st.get("kw", {}).get("export_type", "pdf")


def writes_output(st):
    """Does the render write the file that it is given?"""
    kw = st.get("kw", {})
    return bool(st.get("pptx")) or (
        render_kind(st) == "pdf" and kw.get("pdf_merger", "pypdf") is not None
        and not kw.get("return_units"))


def gc_collect(world):
    gc.collect()


def model_order(c, loglen=None):
    """The deck's slides according to its name policy (an independent little model)."""
    policy = c.opts.get("kw", {}).get("name_policy", "auto")
    if policy == "auto":
        policy = "replace" if c.session.notebook else "ignore"
    out = []
    for op, _ in c.log[:loglen]:
        if op["op"] == "pdf":
            out.append(("pdf", op["asset"], None))
        elif op["op"] == "slide":
            name = slide_name(op)
            if policy == "replace":
                out = [x for x in out if x[0] == "pdf" or x[2] != name]
            out.append(("slide", op["id"], name))
    return [(a, b) for a, b, _ in out]


def slide_name(op):
    name = op.get("name")
    if op.get("how") == "deco" and name is None:
        name = op.get("fname") or "fn"
    return name


# ---------------------------------------------------------------- clean room
_clean = {}
_clean_n = [0]


class _CleanWorld:
    """Just enough of a world to build a deck from an empty cache directory."""

    def __init__(self, root, seed="clean"):
        self.root = root
        self.cfg = {}
        self.k = Kernel(seed, root, (), {})
        self.versions = {}

    def asset_path(self, name):
        p = os.path.join(self.root, "as-" + name)
        real_write(p, assets.make(name, self.versions[name]))
        return p

    def given(self, path):
        return path


def owners(log):
    """{op index: slide id or None} following the handles."""
    own = {}
    of = {}
    for i, (op, _) in enumerate(log):
        if op["op"] == "slide":
            of[op["id"]] = op["id"]
            own[i] = op["id"]
            continue
        ref = op.get("p") or op.get("t") or op.get("l") or (
            op.get("on") if op.get("on") != "deck" else None)
        o = of.get(ref)
        own[i] = o
        if op.get("id"):
            of[op["id"]] = o
    return own


def log_variants(log):
    """The log once per combination of image versions that an edit in the middle of a read allows."""
    amb = {}
    for i, (_, v) in enumerate(log):
        for a, x in v.items():
            if isinstance(x, list):
                amb.setdefault((a, tuple(x)), []).append(i)
    if not amb:
        return [log]
    groups = sorted(amb)[:5]
    out = []
    for bits in range(2 ** len(groups)):
        cp = list(log)
        for j, g in enumerate(groups):
            for i in amb[g]:
                op, v = cp[i]
                cp[i] = (op, dict(v, **{g[0]: g[1][bits >> j & 1]}))
        out.append(cp)
    return out


def clean_pages(world, c, log, alone=None):
    """Pages of every slide of the deck when it is built alone from an empty cache.

    Result: {slide id: ("ok", [page, ...]) or ("error", type)}; for the Cairo backend the list
    is replaced by {"pdf": [...], "png": [...]} on demand.
    """
    if alone is not None:
        own = owners(log)
        log = [x for i, x in enumerate(log) if own[i] == alone or (
            own[i] is None and x[0]["op"] in ("style",))]
    kws = {k: v for k, v in c.opts.get("kw", {}).items()
           if k not in ("name_policy", "debug")}
    dk = {"kw": kws, "backend": c.backend, "ttp": bool(c.opts.get("ttp"))}
    key = hashlib.sha1(json.dumps(
        [log, dk, c.ink_version, c.session.elsie_version, loader.REPO],
        sort_keys=True, default=str).encode()).hexdigest()
    if key in _clean:
        return _clean[key]
    r = _build_clean(world, c, log, dk)
    if len(_clean) > 400:
        _clean.clear()
    _clean[key] = r
    return r


MEASURING = {"text", "code", "item", "md", "todo", "line_box", "inline_box"}


def in_clean_room(world, c, dk, body, forget=True):
    """Runs body(cw, ctx, add) on a fresh deck over an empty cache, without any fault.

    forget: no operation knows the measurements that earlier operations have made.
    """
    _clean_n[0] += 1
    root = world.root + "-clean"
    if os.path.isdir(root):
        real_rmtree(root)
    cw = _CleanWorld(root)
    old = (K.CURRENT, tempfile.tempdir, os.getcwd(), dict(loader.snapshot()))
    oldmod = {n: sys.modules.get(n) for n in ("IPython",)}
    mut = world.k.muted
    world.k.muted += 1
    for d in ("", "tmp", "cache", "forget"):
        seams.real["mkdir"](os.path.join(root, d) if d else root)
    K.CURRENT = cw.k
    tempfile.tempdir = os.path.join(root, "tmp")
    sess = None
    try:
        sess = Session(cw, "clean", {"ink": c.ink_version, "ver": c.session.elsie_version})
        cw.k.main.session = sess
        cw.k.active_modules = sess
        st = {"kw": dict(dk["kw"]), "backend": dk["backend"], "ttp": dk["ttp"], "deck": "d"}
        deck = World.make_deck(_DeckMaker(cw), sess, st)
        ctx = D.DeckCtx(cw, sess, "d", deck, dk["backend"], st)

        def add(op, versions):
            if op["op"] in ("lookup", "frag", "getstyle", "hasstyle"):
                return
            for a, v in versions.items():
                cw.versions[a] = v[0] if isinstance(v, list) else v
            if not forget or op["op"] not in MEASURING:
                if forget and op["op"] in ("latex", "image"):
                    # nor what was converted before it
                    for f in os.listdir(os.path.join(root, "cache")):
                        if f.endswith(".svg"):
                            os.remove(os.path.join(root, "cache", f))
                D.apply_op(ctx, op)
                return
            # what was measured before this operation is not known to it
            deck = ctx.deck
            mods = sess.mods["elsie.render.backends"]
            where = {"cache_dir": os.path.join(root, "forget")}
            if dk["backend"] == "cairo":
                fresh = mods.CairoBackend(**where)
            else:
                fresh = mods.InkscapeBackend(deck.backend.inkscape, **where)
            fresh.set_dimensions(deck.width, deck.height)
            real, deck.backend = deck.backend, fresh
            try:
                D.apply_op(ctx, op)
            finally:
                deck.backend = real

        return body(cw, ctx, add)
    except (SimCrash, SimHang, SimAbort) as e:
        raise CleanFailed(repr(e))
    except D.BadHandle as e:
        raise CleanFailed(repr(e))
    except (SimError, CleanFailed):
        raise
    except Exception as e:
        import traceback
        raise CleanFailed(repr(e) + traceback.format_exc()[-1500:])
    finally:
        if sess is not None:
            sess.dead = True
        cw.k.muted = 1
        K.CURRENT, tempfile.tempdir = old[0], old[1]
        loader.activate(old[3])
        for n, m in oldmod.items():
            if m is None:
                sys.modules.pop(n, None)
            else:
                sys.modules[n] = m
        world.k.muted = mut
        real_rmtree(root)


def _build_clean(world, c, log, dk):
    result = {}

    def body(cw, ctx, add):
        slides = []
        for op, versions in log:
            if op["op"] == "pdf":
                continue
            if op["op"] == "slide":
                slides.append(op["id"])
            add(op, versions)
        for sid in slides:
            sl = ctx.h["S:" + sid]
            try:
                if dk["backend"] == "cairo":
                    pages = {}
                    for kind in ("pdf", "png"):
                        files = ctx.deck.render(
                            None, export_type=kind, pdf_merger=None, select_slides=[sl],
                            prune_cache=False, save_cache=False)
                        out = []
                        for f in files:
                            data = real_read(f)
                            out.append(pdf_pages(data)[0] if kind == "pdf" else png_digest(data))
                        pages[kind] = out
                    result[sid] = ("ok", pages)
                else:
                    units = ctx.deck.render(None, return_units=True, select_slides=[sl],
                                            prune_cache=False, save_cache=False)
                    out = []
                    for u in units:
                        svg = u.get_svg()
                        i = svg_id(svg)
                        SVG_BY_ID[i] = svg
                        out.append(i)
                    result[sid] = ("ok", out)
            except (SimCrash, SimHang, SimAbort) as e:
                raise SimError("clean room: " + repr(e))
            except SimError:
                raise
            except Exception as e:
                result[sid] = ("error", type(e).__name__)
        return result

    return in_clean_room(world, c, dict(dk, kw=dict(dk["kw"], name_policy="ignore")), body)


def fragment_alone(world, c, log, sid, n):
    """The page of one fragment of a slide when no other fragment of it is drawn before (Inkscape
    backend): ("ok", page) or ("error", type); None when the drawing cannot be told apart."""
    dk = {"kw": {k: v for k, v in c.opts.get("kw", {}).items()
           if k not in ("name_policy", "debug")},
          "backend": c.backend, "ttp": bool(c.opts.get("ttp"))}
    key = "alone" + hashlib.sha1(json.dumps(
        [log, dk, sid, n, c.ink_version, c.session.elsie_version, loader.REPO],
        sort_keys=True, default=str).encode()).hexdigest()
    if key in _clean:
        return _clean[key]
    own = owners(log)
    log = [x for i, x in enumerate(log) if own[i] == sid or (
        own[i] is None and x[0]["op"] == "style")]

    def body(cw, ctx, add):
        for op, versions in log:
            add(op, versions)
        backend = ctx.deck.backend
        real = backend.create_render_unit
        calls = []

        def only(*a, **kw):
            calls.append(None)
            if len(calls) != n:
                return None
            return real(*a, **kw)

        backend.create_render_unit = only
        try:
            units = ctx.deck.render(None, return_units=True, select_slides=[ctx.h["S:" + sid]],
                                    prune_cache=False, save_cache=False)
        except (SimCrash, SimHang, SimAbort, SimError) as e:
            raise SimError("clean room: " + repr(e))
        except Exception as e:
            return ("error", type(e).__name__)
        left = [u for u in units if u is not None]
        if len(left) != 1 or len(units) != len(calls):
            return None
        svg = left[0].get_svg()
        i = svg_id(svg)
        SVG_BY_ID[i] = svg
        return ("ok", i)

    r = in_clean_room(world, c, dict(dk, kw=dict(dk["kw"], name_policy="ignore")), body)
    _clean[key] = r
    return r


class CleanFailed(Exception):
    """Operations that were accepted fail when they are repeated in a fresh session."""


class _DeckMaker:
    def __init__(self, cw):
        self.root = cw.root

    def given(self, path):
        return path

    def ink_path(self, st):
        return "/usr/bin/inkscape"

    def cache_path(self, name):
        return os.path.join(self.root, name)
