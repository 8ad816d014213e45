"""C17: a failed image read is reported and never remembered."""
from collections import Counter

import lxml.etree as et

from .. import model as M, scen
from ..deck import Gen, JUNK
from ..modelworld import model_pairs
from ..prop import Prop
from ..world import SVG_BY_ID, World

PICTURES = ["a.svg", "b.ora", "c.png", "g.png", "c.png", "d.jpg", "e.svg", "f.ora"]
# data in which no picture of that kind can be recognised
SPOIL = {"svg": ["remove", "empty", "garbage", "text", "cut", "bare", "bare", "nosize", "nosize"],
         "ora": ["remove", "empty", "garbage", "text", "cut", "layer", "layer", "layer"],
         "png": ["remove", "empty", "garbage", "text"], "jpg": ["remove", "empty", "garbage", "text"]}


class W17(World):
    def judge_render(self, s, c, st, rec, n):
        super().judge_render(s, c, st, rec, n)
        if c.backend == "cairo":
            return
        for slide, k, page in model_pairs(self, c, st, rec):
            root = et.fromstring(SVG_BY_ID[page[1]].encode())
            have = Counter(f.key for f in M.facts(root, slide.debug) if f.key[0] in ("img", "bmp"))
            want = Counter(x for x, _ in slide.page(k) if x[0] in ("img", "bmp"))
            self.count("pages whose images were identified")
            if have != want:
                self.problem("pages", f"slide {slide.id}, fragment {k} shows the images "
                             f"{sorted((have - want).elements(), key=str)[:4]} instead of "
                             f"{sorted((want - have).elements(), key=str)[:4]}")
                return

    def op_hook(self, s, c, op, out, n):
        if op["op"] == "image":
            self.count("images added" if out.ok else "image reads failed")
            if out.ok and any(f.kind in ("eio", "eacces", "enoent", "emfile") and
                              f.site in ("read:asset", "open.r:asset") for f in out.fired):
                self.problem("accept", f"{op} was accepted although reading the image failed")


class C17(Prop):
    id = "C17"
    world = W17
    oracles = {"pages", "output", "raise", "hang", "accept"}

    def image(self, r, g, sl, pics):
        op = g.g_image(sl)
        while op["op"] != "image":
            op = g.g_image(sl)
        op["asset"] = r.choice(pics)
        op.pop("how")
        kind = op["asset"].rsplit(".", 1)[1]
        if kind in ("png", "jpg"):
            op["kw"] = {k: v for k, v in op["kw"].items() if k == "scale"}
            op["how"] = r.choice(["file", "file", "bytes", "stream", "memory"])
            if op["how"] == "memory" and r.random() < 0.5:
                op["pre"] = r.randint(1, 400)
        return op

    def gen(self, r):
        pics = r.sample(PICTURES, r.randint(2, 5))
        flags = {"image": 2, "ora": 2, "bitmap": 2, "latex": 0, "styles": 0, "md": 0, "todo": 0,
                 "frags": r.choice([0, 0.5, 0.9])}
        steps = []
        for i in range(r.randint(1, 2)):
            name = "S%d" % i
            kind = "cairo" if r.random() < 0.15 else "inkscape"
            steps.append({"s": "open", "sess": name})
            g = Gen(r, flags, pics)
            decks = ["d0"] if r.random() < 0.7 else ["d0", "d1"]
            for d in decks:
                steps.append({"s": "deck", "sess": name, "deck": d, "backend": kind})
                g.slides = []
                spoiled = set()
                have = 0
                hot = None  # a picture that was spoiled or repaired a moment ago
                for _ in range(r.randint(3, 8)):
                    ops = []
                    if not have or r.random() < 0.3:
                        ops.append(g.slide())
                        have += 1
                    sl = r.choice(g.slides)
                    memory = []
                    for _ in range(r.randint(1, 3)):
                        x = r.random()
                        if x < 0.75:
                            op = self.image(r, g, sl, [hot] if hot and r.random() < 0.6 else pics)
                            ops.append(op)
                            if op["how" if "how" in op else "op"] == "memory":
                                memory.append(op)
                        elif x < 0.85 and memory:
                            m = r.choice(memory)
                            ops.append(dict(m, id=g.id("i"), how="drained", of=m["id"], bad=True))
                        elif x < 0.9:
                            ops.append({"op": "image", "p": sl["id"], "id": g.id("i"), "bad": True,
                                        "asset": r.choice(["c.png", "d.jpg"]),
                                        "how": r.choice(["broken", "junk"]),
                                        "ends": r.choice(sorted(JUNK))})
                            if ops[-1]["how"] == "broken" and r.random() < 0.5:
                                ops[-1]["ends"] = r.choice(["io", "value", "timeout"])
                        else:
                            ops.append(g.content(sl))
                    steps.append({"s": "ops", "sess": name, "deck": d, "ops": ops})
                    x = r.random()
                    a = r.choice(pics)
                    if hot in spoiled and r.random() < 0.5:
                        a = hot
                        steps.append({"s": "restore", "asset": a})
                        spoiled.discard(a)
                    elif x < 0.35:
                        hot = a
                        if a in spoiled:
                            steps.append({"s": "restore", "asset": a})
                            spoiled.discard(a)
                        else:
                            steps.append({"s": "spoil", "asset": a,
                                          "how": r.choice(SPOIL[a.rsplit(".", 1)[1]]),
                                          "n": r.randrange(4)})
                            spoiled.add(a)
                    elif x < 0.5:
                        steps.append({"s": "asset", "asset": a})
                        spoiled.discard(a)
                    elif x < 0.6:
                        steps.append({"s": "render", "sess": name, "deck": d,
                                      "kw": {"return_units": True} if kind != "cairo" else {}})
                steps.append({"s": "render", "sess": name, "deck": d,
                              "kw": {"return_units": True} if kind != "cairo"
                              and r.random() < 0.5 else {}})
                for a in sorted(spoiled):
                    steps.append({"s": "restore", "asset": a})
            steps.append({"s": "end", "sess": name})
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        plans = []
        assets = [a for a in sc["assets"] if not a.endswith(".pdf")]
        for _ in range(4):
            fs = []
            for _ in range(r.choice([1, 2, 3])):
                x = r.random()
                if x < 0.55:
                    fs.append(pl.io(("asset",), sites={"read", "open.r"}))
                elif x < 0.7:
                    fs.append(pl.edit(assets))
                elif x < 0.8:
                    fs.append(pl.io(("cache",), sites={"read", "open.r", "write", "replace"}))
                elif x < 0.9:
                    fs.append(pl.short())
                else:
                    fs.append(pl.interrupt())
            plans.append(fs)
        return plans


PROP = C17()
