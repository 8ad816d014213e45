"""C23: paint order follows the insertion history and z-levels."""
from collections import Counter

from .. import model as M, scen
from ..deck import Gen
from ..modelworld import ModelWorld
from ..prop import ASSETS, Prop
from ..world import CAIRO_COLORS
from .c12 import MODEL_FLAGS


class W23(ModelWorld):
    def check_page(self, c, st, slide, n, root, i):
        have = [f.key for f in M.facts(root, slide.debug)]
        want = [k for k, _ in slide.page(n)]
        if Counter(have) != Counter(want):
            self.count("pages with other content")  # what is shown is the subject of C12
            return
        self.count("pages ordered")
        if have == want:
            return
        j = next(j for j, (a, b) in enumerate(zip(have, want)) if a != b)
        self.bad("order", st, f"page {i + 1} (slide {slide.id}, fragment {n}), element {j}: "
                 f"{have[j:j + 4]} painted instead of {want[j:j + 4]}")

    def check_cairo(self, c, st, slide, n, marker, i):
        want = [k[1] for k, it in slide.page(n) if k[0] == "shape"]
        have = list(dict.fromkeys(x for x in CAIRO_COLORS.get(marker, ()) if x in want))
        want = [x for x in want if x in have]
        self.count("Cairo pages ordered")
        if have != want:
            self.bad("order", st, f"page {i + 1} (slide {slide.id}, fragment {n}): the shapes are "
                     f"painted in the order {have[:12]} instead of {want[:12]}")


def cairo_program(r):
    """Filled boxes with all kinds of places, whose Cairo pages tell the order of painting."""
    g = Gen(r, {"vb": 0, "frags": r.choice([0, 0.3]), "place": r.choice([1, 3]), "lazy": 0,
                "z": r.choice([0, 1, 4, 4]), "debug_boxes": 0})
    ops = [g.slide()]
    sl = g.slides[-1]
    for _ in range(r.randint(3, 14)):
        op = g.g_box(sl)
        op["kw"].update(width=20, height=20)
        op.pop("how", None)
        ops.append(op)
        for _ in range(r.choice([0, 1, 1, 2])):
            ops.append({"op": r.choice(["rect", "ellipse"]), "p": r.choice(sl["boxes"]),
                        "id": g.id("i"), "kw": {"bg_color": g.color()}})
    return ops


class C23(Prop):
    id = "C23"
    world = W23
    oracles = {"order", "accept", "raise", "output"}

    def gen(self, r):
        if r.random() < 0.12:
            steps = scen.session_steps("S0", cairo_program(r), [{"kw": {}}], backend="cairo")
            return scen.scenario(r, steps)
        flags = dict(MODEL_FLAGS, place=r.choice([1, 3, 4]), z=r.choice([0, 1, 4]), nested=6,
                     shapes=6, points=2, text=2, lists=r.choice([0, 1]), latex=0.5, rawpdf=0,
                     frags=r.choice([0, 0.3]), code=0.5, vb=0)
        g = Gen(r, flags, ASSETS)
        ops = []
        for _ in range(r.randint(1, 2)):
            ops.append(g.slide())
        for _ in range(r.randint(5, 24)):
            sl = r.choice(g.slides)
            if r.random() < 0.12:
                ops.append(self.bad(r, g, sl))
            else:
                op = g.content(sl)
                if op["op"] == "box" and r.random() < 0.1 and op["kw"].get("above"):
                    op["kw"]["prepend"] = True  # the sibling decides
                if op["op"] in ("line_box", "inline_box") and flags["z"] and r.random() < 0.3:
                    op["kw"]["z_level"] = r.choice([-1, 0, 1, 0.5, -0.3])
                ops.append(op)
        steps = [{"s": "open", "sess": "S0"}, {"s": "deck", "sess": "S0", "deck": "d"}]
        if r.random() < 0.2:
            steps[1]["kw"] = {"bg_color": "#fefefe"}
        pos = 0
        while pos < len(ops):
            n = r.randint(2, 14)
            steps.append({"s": "ops", "sess": "S0", "deck": "d", "ops": ops[pos:pos + n]})
            pos += n
            if r.random() < 0.3 or pos >= len(ops):
                k = {"return_units": True} if r.random() < 0.6 else {}
                if r.random() < 0.15:
                    k["slides_per_page"] = [2, 2]
                steps.append({"s": "render", "sess": "S0", "deck": "d", "kw": k})
            elif r.random() < 0.15 and scen.slide_ids(ops[:pos]):
                steps.append({"s": "show", "sess": "S0", "deck": "d", "how": "repr",
                              "slide": scen.slide_ids(ops[:pos])[0]})
        steps.append({"s": "end", "sess": "S0"})
        return scen.scenario(r, steps)

    def bad(self, r, g, sl):
        """A placement next to something that is not there."""
        p = r.choice(sl["boxes"])
        mine = set(sl["kids"].get(p, ()))
        par = sl["parent"]
        strange = [x for s in g.slides for x in s["boxes"]
                   if x not in mine and par.get(x) != p]
        kw = {}
        if mine and r.random() < 0.4:
            kw = {"above": r.choice(sorted(mine)), "below": r.choice(sorted(mine))}
        else:
            kw[r.choice(["above", "below"])] = r.choice(strange)
        if r.random() < 0.3:
            kw["z_level"] = 3
        if r.random() < 0.3:
            kw["prepend"] = True
        return {"op": "box", "p": p, "id": g.id("x"), "kw": kw, "bad": True}

    def plan(self, r, sc, pl):
        x = r.random()
        fs = [pl.tool()] if x < 0.4 else [pl.interrupt(), pl.tool()] if x < 0.7 else \
            [pl.io(("tmp", "cache", "asset"))]
        return [fs]


PROP = C23()
