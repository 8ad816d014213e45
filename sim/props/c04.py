"""C04: concurrent requests to one artefact cache."""
import hashlib
import json
import os

from .. import loader, scen, seams
from ..kernel import SimAbort, SimCrash, SimError, SimHang
from ..prop import Prop, READ_SITES, WRITE_SITES
from ..world import StopRun, World, real_read, real_write


def content(data, kind, size):
    """The complete artefact of an input."""
    body = json.dumps([hashlib.sha1(data).hexdigest(), kind, "x" * size])
    return body + "END"


class Req:
    def __init__(self, spec, task):
        self.spec = spec
        self.task = task
        self.data = spec["key"].encode()
        self.ident = (spec["key"], spec["type"])
        self.failed = False  # its own production failed
        self.made = False
        self.path = None


class ProductionError(Exception):
    pass


class W4(World):
    def do_threads(self, st):
        k = self.k
        s = self.sessions[st["sess"]]
        if s.dead:
            return
        path = self.cache_path("cache")
        if not os.path.isdir(path):
            seams.real["mkdir"](path)
        out = self.attempt(s, lambda: __import__("elsie.utils.cache").utils.cache.FsCache(
            path, st.get("version", "v")))
        if not out.ok:
            return
        cache = out.value
        key = st.get("version", "v")
        before = {i for i, (p, v) in self.info.setdefault("files", {}).items()
                  if v == key and os.path.isfile(p)}
        active, done, ended = set(), {}, []
        src = os.path.join(loader.REPO, "elsie", "utils", "cache.py")

        def line(frame, event, arg):
            if event == "line":
                k.yield_point()
            return line

        def tracer(frame, event, arg):
            return line if frame.f_code.co_filename == src else None

        def finished(req):
            # with faults the file may still get lost; then only the return of the request counts
            if not k.plan:
                done[req.ident] = req.task

        def construct(req):
            def body(data, target, kind):
                if req.ident in active:
                    self.problem("twice", f"{req.ident} is produced by two requests at once")
                if req.ident in done or req.ident in before:
                    self.problem("twice", f"{req.ident} is produced again")
                active.add(req.ident)
                try:
                    self.count("productions")
                    if (data if isinstance(data, bytes) else data.encode()) != req.data \
                            or kind != req.spec["type"]:
                        self.problem("wrong", f"production of {req.ident} got {data!r} {kind}")
                    how = req.spec.get("fail")
                    if how == "early":
                        raise ProductionError("x")
                    if how != "silent":
                        text = content(req.data, req.spec["type"], req.spec["size"])
                        with open(target, "w") as f:
                            third = len(text) // 3
                            f.write(text[:third])
                            f.flush()
                            k.yield_point()
                            if how == "mid":
                                raise OSError(28, "no space")
                            f.write(text[third:])
                    k.yield_point()
                    if how == "late":
                        raise ProductionError("x")
                    if how == "base":
                        raise KeyboardInterrupt()
                    if how is None:
                        req.made = True
                        finished(req)
                    else:
                        req.failed = True
                except BaseException:
                    req.failed = True
                    raise
                finally:
                    active.discard(req.ident)
            return body

        def getter(req):
            inner = construct(req)

            def body(text):
                # the cache stores what this returns
                if text.encode() != req.data:
                    self.problem("wrong", f"production of {req.ident} got {text!r}")
                if req.ident in active:
                    self.problem("twice", f"{req.ident} is produced by two requests at once")
                if req.ident in done or req.ident in before:
                    self.problem("twice", f"{req.ident} is produced again")
                active.add(req.ident)
                self.count("productions")
                try:
                    k.yield_point()
                    if req.spec.get("fail"):
                        req.failed = True
                        raise ProductionError("x")
                    k.yield_point()
                    req.made = True
                    finished(req)
                    return content(req.data, req.spec["type"], req.spec["size"])
                finally:
                    active.discard(req.ident)
            return body

        def request(req):
            sp = req.spec
            kw = {} if sp.get("wait", True) else {"wait_on_collision": False}
            if sp["api"] == "get":
                req.path = None
                return cache.get(sp["key"], sp["type"], getter(req))
            if sp["api"] == "file":
                f = os.path.join(self.root, "in-" + req.task)
                real_write(f, req.data)
                return cache.ensure_by_file(f, sp["type"], construct(req), **kw)
            data = req.data if sp["api"] == "bytes" else sp["key"]
            return cache.ensure(data, sp["type"], construct(req), **kw)

        def runner(name, specs):
            def body():
                me = k.cur
                me.session = s
                for sp in specs:
                    req = Req(sp, name)
                    n0 = len(k.fired)
                    busy = req.ident in active
                    try:
                        v = request(req)
                        kind = "ok"
                    except (SimCrash, SimAbort, SimHang, SimError):
                        raise
                    except BaseException as e:
                        kind, v = "err", e
                    self.count("requests")
                    mine = [f for f in k.fired[n0:] if f.task == name]
                    if kind == "err":
                        if not (req.failed or mine or k.disk_full):
                            self.problem("raise", f"request {req.ident} of {name} raised {v!r} "
                                         "although its production did not fail")
                        continue
                    if req.failed:
                        self.problem("error", f"the production of {req.ident} failed "
                                     f"({sp.get('fail')}) and its request returned")
                    if req.made:
                        done[req.ident] = name
                    if sp["api"] == "get":
                        self.check_text(req, v)
                        continue
                    req.path = os.path.abspath(v)
                    if not sp.get("wait", True) and not req.made:
                        ended.append(req)
                        continue
                    ended.append(req)
                    self.check_file(req, req.path)
            return body

        k.tracer = tracer
        me = k.cur
        self.cur_name = s.name
        tasks = []
        try:
            for n, specs in enumerate(st["ops"]):
                tasks.append(k.spawn("t%d" % n, runner("t%d" % n, specs), s))
            k.join_all(tasks)
        except SimHang as e:
            self.problem("hang", str(e) + f"; {len(ended)} requests had returned")
            raise StopRun()
        finally:
            k.multi = False
            k.tracer = None
        for t in tasks:
            if t.error is not None and not isinstance(t.error, (SimCrash, SimAbort)):
                raise t.error
        if s.dead:
            return
        paths = {}
        for req in ended:
            p = paths.setdefault(req.path, req.ident)
            if p != req.ident:
                self.problem("wrong", f"{p} and {req.ident} share one file")
        by = {}
        for req in ended:
            q = by.setdefault(req.ident, req.path)
            if q != req.path:
                self.problem("wrong", f"{req.ident} got two different files")
            if os.path.isfile(req.path):
                self.check_file(req, req.path)
                self.info["files"][req.ident] = (req.path, key)
        me.session = None

    def check_file(self, req, path):
        try:
            text = real_read(path).decode()
        except OSError as e:
            self.problem("wrong", f"the file of {req.ident} does not exist: {e!r}")
            return
        self.check_text(req, text)

    def check_text(self, req, text):
        try:
            ok = text.endswith("END") and json.loads(text[:-3])[:2] == [
                hashlib.sha1(req.data).hexdigest(), req.spec["type"]]
        except ValueError:
            ok = False
        if not ok:
            self.problem("wrong", f"the file of {req.ident} is incomplete or of another input: "
                         f"{len(text)} characters, {text[:80]!r}")


class C04(Prop):
    id = "C04"
    world = W4
    oracles = {"twice", "wrong", "raise", "error", "hang"}

    def gen(self, r):
        keys = ["a", "ab", "b", "a.svg", "", "x" * 50]
        pool = [(r.choice(keys), r.choice(["svg", "svg", "pdf", "png"]))
                for _ in range(r.randint(1, 4))]
        steps = []
        for i in range(r.randint(1, 3)):
            if not i or r.random() < 0.5:
                name = "S%d" % i
                steps.append({"s": "open", "sess": name})
            tasks = []
            fails = r.choice([0, 0.2, 0.5])
            for _ in range(r.randint(2, 5)):
                specs = []
                for _ in range(r.randint(1, 4)):
                    k, t = r.choice(pool)
                    sp = {"key": k, "type": t, "size": r.choice([0, 30, 9000]),
                          "api": r.choice(["bytes", "bytes", "str", "file", "get"])}
                    if sp["api"] != "get" and r.random() < 0.15:
                        sp["wait"] = False
                    if r.random() < fails:
                        sp["fail"] = r.choice(["early", "mid", "late", "silent", "base"])
                    specs.append(sp)
                tasks.append(specs)
            st = {"s": "threads", "sess": name, "ops": tasks}
            if r.random() < 0.15:
                st["version"] = "w"
            steps.append(st)
            if r.random() < 0.3:
                steps.append({"s": "rmcache", "p": 0.5})
        sc = scen.scenario(r, steps)
        x = r.random()
        sc["cfg"]["sched"] = {"kind": "random"} if x < 0.4 else \
            {"kind": "sticky", "p": r.choice([0.05, 0.2])} if x < 0.6 else \
            {"kind": "pct", "depth": r.choice([1, 2, 3]), "len": r.choice([60, 200, 600])}
        return sc

    def plan(self, r, sc, pl):
        plans = []
        for _ in range(2):
            if r.random() < 0.75:
                plans.append([pl.io(None, sites=WRITE_SITES | READ_SITES)])
            else:
                plans.append([pl.crash()])
        return plans

    def nontrivial(self, w, faults):
        return w.k.switches > 5


PROP = C04()
