"""C22: list labels count the items of their own list."""
from .. import model as M, scen
from ..deck import Gen
from ..modelworld import ModelWorld
from ..prop import ASSETS, Prop


class W22(ModelWorld):
    def check_page(self, c, st, slide, n, root, i):
        have = [f.key for f in M.facts(root, slide.debug) if f.key[0] in ("label", "text")]
        want = [k for k, _ in slide.page(n) if k[0] in ("label", "text")]
        self.count("labels compared", sum(k[0] == "label" for k in want))
        if have == want:
            return
        j = next((j for j, (a, b) in enumerate(zip(have, want)) if a != b),
                 min(len(have), len(want)))
        self.bad("label", st, f"page {i + 1} (slide {slide.id}, fragment {n}), entry {j}: "
                 f"{have[j:j + 2]} instead of {want[j:j + 2]}")


class C22(Prop):
    id = "C22"
    world = W22
    oracles = {"label", "accept", "raise", "output", "count"}

    def gen(self, r):
        flags = dict(md=0, todo=0, near=0, hl=0, lfn=0, lists=6, place=0, z=r.choice([0, 1, 2]), rawpdf=0, image=0, ora=0, bitmap=0,
                     latex=0, points=0, lazy=0, frags=r.choice([0, 0.3, 0.7]), text=1, code=0,
                     styles=r.choice([0, 0.5]), vb=0, deep=r.choice([0.2, 0.2, 0.5, 0.95]))
        g = Gen(r, flags, ASSETS)
        ops = []
        for _ in range(r.randint(1, 2)):
            ops.append(g.slide())
        deep = flags["deep"] > 0.9
        for _ in range(r.randint(4, 40 if deep else 22)):
            sl = r.choice(g.slides)
            if not sl["lists"] or r.random() < 0.12:
                op = g.g_list(sl)
            elif r.random() < 0.75:
                op = g.g_item(sl) if r.random() < (0.5 if deep else 0.7) else g.g_sub(sl)
            else:
                op = g.content(sl)
            if op["op"] in ("list", "sub", "item"):
                kw = op["kw"]
                if op["op"] != "item":
                    if op["kind"] == "ol" and r.random() < 0.4:
                        kw["start"] = r.choice([1, 2, 3, 10])
                    if op["kind"] == "ol" and op["op"] == "sub" and r.random() < 0.25:
                        kw["level"] = [r.randint(1, 9) for _ in range(r.randint(0, 3))]
                    if op["op"] == "list":
                        kw.pop("level", None)
                x = r.random()
                if x < 0.12:
                    kw["label"] = {"fn": "roman"}
                elif x < 0.24:
                    kw["label"] = r.choice(["-", "+", "Q.", "#"])
                if r.random() < 0.12:
                    kw["label"] = 5 if op["op"] == "item" else kw.get("label")
                    if op["op"] == "item":
                        op["bad"] = True
                    elif kw["label"] is None:
                        del kw["label"]
                elif r.random() < 0.06:
                    kw["show"] = "3-1"
                    op["bad"] = op["op"] != "list"
                    if not op["bad"]:
                        del op["bad"]
                        del kw["show"]
            if op.get("bad"):
                # nothing may refer to what is rejected
                sl["boxes"] = [b for b in sl["boxes"] if b != op["id"]]
                sl["lists"] = [x for x in sl["lists"] if x[0] != op["id"]]
            ops.append(op)
        kind = "cairo" if r.random() < 0.05 else "inkscape"
        steps = [{"s": "open", "sess": "S0"},
                 {"s": "deck", "sess": "S0", "deck": "d", "backend": kind}]
        pos = 0
        while pos < len(ops):
            n = r.randint(2, 12)
            steps.append({"s": "ops", "sess": "S0", "deck": "d", "ops": ops[pos:pos + n]})
            pos += n
            if r.random() < 0.3 or pos >= len(ops):
                steps.append({"s": "render", "sess": "S0", "deck": "d",
                              "kw": {"return_units": True} if kind != "cairo"
                              and r.random() < 0.6 else {}})
            elif r.random() < 0.2 and scen.slide_ids(ops[:pos]):
                steps.append({"s": "show", "sess": "S0", "deck": "d", "how": "repr",
                              "slide": scen.slide_ids(ops[:pos])[0]})
        steps.append({"s": "end", "sess": "S0"})
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        renders = {st["i"] for st in sc["steps"] if st["s"] in ("render", "show")}
        return [[pl.tool(steps=renders)], [pl.interrupt(steps=renders)]]


PROP = C22()
