"""C20: Cairo pages never mix across renders, decks and sessions."""
import hashlib
import os

from .. import scen
from ..modelworld import judge_same, model_pairs
from ..prop import Prop, READ_SITES, WRITE_SITES
from ..world import World, real_read, render_kind
from .c09 import framed


class W20(World):
    """Watches every page file that some render returned."""

    def setup(self):
        super().setup()
        self.watched = {}  # path -> (digest, cache, number of decks when it was made)
        self.made = 0
        self.removers = set()

    def do_deck(self, st):
        super().do_deck(st)
        self.made += 1
        s = self.sessions[st["sess"]]
        if st["deck"] in s.decks:
            s.decks[st["deck"]].number = self.made
        self.check(st)

    def render(self, s, c, st):
        if st.get("kw", {}).get("prune_cache", True):
            for p in [p for p, (_, cache, n) in self.watched.items()
                      if cache == c.cache and n < c.number]:
                del self.watched[p]
        return super().render(s, c, st)

    def judge_render(self, s, c, st, rec, n):
        super().judge_render(s, c, st, rec, n)
        judge_same(self, model_pairs(self, c, st, rec))
        self.check(st)
        v = rec["out"].value
        if rec["out"].kind == "ok" and isinstance(v, list) and c.backend == "cairo" \
                and not st.get("pptx"):
            for p in v:
                p = os.path.abspath(p)
                if p in self.watched:
                    self.problem("page files", f"two renders returned the same file {p}")
                if os.path.isfile(p):
                    self.watched[p] = (hashlib.sha1(real_read(p)).hexdigest(), c.cache, self.made)
                    self.count("page files watched")

    def do_show(self, st):
        super().do_show(st)
        self.check(st)

    def do_rmcache(self, st):
        self.watched.clear()
        super().do_rmcache(st)

    def check(self, st):
        for p, (h, _, _) in list(self.watched.items()):
            name = os.path.basename(p)
            if not os.path.isfile(p):
                self.problem("page files", f"{name}, returned by an earlier render, is gone")
            elif hashlib.sha1(real_read(p)).hexdigest() != h:
                self.problem("page files", f"{name}, returned by an earlier render, has changed")
            else:
                continue
            del self.watched[p]


class C20(Prop):
    id = "C20"
    world = W20
    oracles = {"pages", "output", "raise", "hang", "page files", "show"}

    def gen(self, r):
        flags = {"latex": r.choice([0, 0.5]), "ora": r.choice([0, 1]), "rawpdf": 0, "near": r.choice([0.1, 0.7]),
                 "frags": r.choice([0.2, 0.6]), "vb": r.choice([0.15, 1.2])}
        base, g = scen.program(r, slides=(1, 3), size=(1, 5), flags=flags, raw=False)
        if r.random() < 0.5:
            base = framed(r, base, g)
        if r.random() < 0.35:
            base = scen.twins(r, base, g, r.randint(1, 3))
        steps = []
        n = r.randint(1, 3)
        for i in range(n):
            name = "S%d" % i
            steps.append({"s": "open", "sess": name})
            decks = []
            for j in range(r.choice([1, 1, 2])):
                d = "d%d" % j
                kind = "cairo" if r.random() < 0.9 else "inkscape"
                ops = base if r.random() < 0.5 else scen.mutate(r, base, g)
                if r.random() < 0.3:
                    # fragments in which nothing changes
                    ops = ops + [{"op": "box", "p": r.choice(scen.slide_ids(ops)),
                                  "id": g.id("b"), "kw": {"show": "%d+" % r.randint(4, 6)}}]
                st = {"s": "deck", "sess": name, "deck": d, "backend": kind}
                if j and kind == "cairo" and decks[0][2] == "cairo" and r.random() < 0.3:
                    st["share"] = "d0"
                if r.random() < 0.5:
                    st["kw"] = {"name_policy": "ignore"}
                if r.random() < 0.25:
                    st.setdefault("kw", {}).update(width=160, height=120)
                decks.append((d, ops, kind, st))
            if r.random() < 0.5:
                for d, ops, kind, st in decks:
                    steps += [st, {"s": "ops", "sess": name, "deck": d, "ops": ops}]
                started = set(range(len(decks)))
            else:
                started = set()
            for _ in range(r.randint(2, 6)):
                j = r.randrange(len(decks))
                if decks[j][3].get("share") and 0 not in started:
                    j = 0
                d, ops, kind, st = decks[j]
                if j not in started:
                    started.add(j)
                    steps += [st, {"s": "ops", "sess": name, "deck": d, "ops": ops}]
                ids = scen.slide_ids(ops)
                x = r.random()
                if x < 0.12:
                    steps.append({"s": "show", "sess": name, "deck": d, "slide": r.choice(ids),
                                  "how": r.choice(["repr", "png", "box"])})
                    continue
                kw = scen.render_kw(r, ops, backend=kind, units=0, select=0.35)
                rs = {"s": "render", "sess": name, "deck": d, "kw": kw}
                if x < 0.2:
                    kw.pop("export_type", None)
                    kw.pop("pdf_merger", None)
                    rs["pptx"] = True
                elif kw.get("export_type", "pdf") == "pdf" and r.random() < 0.35:
                    kw["pdf_merger"] = None
                steps.append(rs)
            x = r.random()
            if x < 0.15 and i + 1 < n:
                steps.append({"s": "kill", "sess": name})
            else:
                steps.append({"s": "end", "sess": name})
            if r.random() < 0.1:
                steps.append({"s": "rmcache", "p": 0.5})
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        last = max(st["i"] for st in sc["steps"] if st["s"] == "open")
        plans = []
        for _ in range(4):
            fs = []
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                if x < 0.4:
                    f = pl.crash(lambda st, s, c: st < last)
                elif x < 0.8:
                    f = pl.io(("cache", "out", "queries"), sites=WRITE_SITES | READ_SITES)
                else:
                    f = pl.interrupt()
                fs.append(f)
            plans.append(fs)
        return plans


PROP = C20()
