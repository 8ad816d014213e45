"""What a property check consists of, and the shared fault planner."""
import random

from .kernel import Fault
from .world import World

WRITE_SITES = {"write", "open.w", "replace", "mkdir", "unlink"}
READ_SITES = {"read", "open.r"}


class Planner:
    """Chooses fault positions from the events of a fault-free run of the same scenario."""

    def __init__(self, r, profile, skip_steps=()):
        self.r = r
        self.events = [e for e in profile if e[0] not in skip_steps and e[0] < 10 ** 6]

    def pick(self, accept):
        """An event, balanced over (step, site, class) groups rather than over events."""
        groups = {}
        for step, n, site, cls in self.events:
            if accept(step, site, cls):
                groups.setdefault((step, site, cls), []).append(n)
        if not groups:
            return None
        key = self.r.choice(sorted(groups))
        ns = groups[key]
        x = self.r.random()
        n = ns[0] if x < 0.15 else ns[-1] if x < 0.35 else self.r.choice(ns)
        return key[0], n, key[1], key[2]

    def crash(self, accept=lambda step, site, cls: True):
        e = self.pick(accept)
        if e is None:
            return None
        return Fault("crash", round(self.r.random(), 3), e[0], e[1])

    def io(self, classes=None, sites=WRITE_SITES, kinds=None, steps=None):
        e = self.pick(lambda st, s, c: s in sites and (classes is None or c in classes)
                      and (steps is None or st in steps))
        if e is None:
            return None
        if kinds is None:
            if e[2] == "write":
                kinds = ["enospc", "enospc", "eio", "edquot"]
            elif e[2] in READ_SITES:
                kinds = ["eio", "eacces", "emfile", "enoent"] if e[2] == "open.r" else ["eio"]
            elif e[2] == "unlink":
                kinds = ["eacces"]
            else:
                kinds = ["enospc", "eacces", "eio"] + (["emfile"] if e[2] == "open.w" else [])
        kind = self.r.choice(kinds)
        arg = self.r.choice([0.0, 0.3, 0.9]) if kind == "enospc" else None
        return Fault(kind, arg, e[0], e[1])

    def tool(self, names=None, kinds=("die", "die", "toolerr", "garbage", "silent", "noise"),
             steps=None):
        e = self.pick(lambda st, s, c: s == "tool" and (names is None or c in names)
                      and (steps is None or st in steps))
        if e is None:
            return None
        kind = self.r.choice(kinds)
        arg = self.r.choice([70000, 300000]) if kind == "noise" else None
        if kind == "die":
            arg = self.r.choice([-9, -11, 1, 0])
            if arg == 0 and e[3] == "pdfunite":
                arg = 1  # a tool that ends normally did its work
        return Fault(kind, arg, e[0], e[1])

    def spawn(self, kinds=("eagain", "enoent", "enomem", "emfile")):
        e = self.pick(lambda st, s, c: s == "spawn")
        if e is None:
            return None
        return Fault(self.r.choice(kinds), None, e[0], e[1])

    def interrupt(self, steps=None):
        e = self.pick(lambda st, s, c: s in (
            "open.r", "open.w", "read", "write", "pipe.read", "pipe.write", "wait", "tool")
            and (steps is None or st in steps))
        if e is None:
            return None
        return Fault("interrupt", self.r.random() < 0.5, e[0], e[1])

    def edit(self, assets, steps=None):
        e = self.pick(lambda st, s, c: s in ("open.r", "read") and c == "asset"
                      and (steps is None or st in steps))
        if e is None or not assets:
            return None
        return Fault("edit", {"asset": self.r.choice(assets)}, e[0], e[1])

    def short(self):
        e = self.pick(lambda st, s, c: s in ("read", "write"))
        if e is None:
            return None
        return Fault("short", None, e[0], e[1])


class Prop:
    id = None
    title = ""
    oracles = {"pages", "output", "raise", "hang"}
    world = World
    quick = 160  # scenarios
    thorough_s = 420  # seconds
    plans = 3  # fault plans per scenario
    real = "elsie (all of /repo/elsie, unmodified), PyPDF2, lxml, PIL, cairocffi"
    stubs = "Inkscape shell, pdflatex, pdf2svg, pdfunite, python-pptx (simulated)"
    rule = ""
    assumptions = ()
    need_faults = False  # count a run as non-trivial only when a fault fired

    def gen(self, r):
        raise NotImplementedError

    def plan(self, r, sc, pl):
        """Fault plans for this scenario: a list of lists of faults."""
        return []

    def judge(self, w):
        """Extra problems, judged over the whole history after the run."""

    def nontrivial(self, w, faults):
        if faults or self.need_faults:
            return bool(w.k.fired)
        return w.k.total_events > 50

    def relevant(self, p):
        return p["oracle"] in self.oracles or p["oracle"] == "escape"

    def minimisable(self, sc):
        return True


def steps_list(items):
    """Numbers scenario steps."""
    return [dict(st, i=n) for n, st in enumerate(items)]


def common_cfg(r):
    """Swarm choices about the environment that every scenario makes."""
    cfg = {"session": {}}
    cfg["chunk"] = r.choice(["all", "all", "rand", "one"])
    cfg["bufsize"] = r.choice([8192, 8192, 512, 64, 4096])
    s = cfg["session"]
    if r.random() < 0.25:
        s["noise"] = r.choice([10, 3000, 70000])
    if r.random() < 0.3:
        s["chatter"] = r.choice([0.1, 0.5])
    if r.random() < 0.25:
        s["latex_noise"] = r.choice([100, 80000])
    return cfg


ASSETS = ["a.svg", "b.ora", "c.png", "g.png", "d.jpg", "e.svg", "f.ora", "r.pdf", "q.pdf"]
