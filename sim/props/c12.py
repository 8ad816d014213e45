"""C12: the output holds every fragment once, in deck order, with the selected content."""
from collections import Counter

from .. import model as M, scen
from ..modelworld import ModelWorld
from ..prop import Prop, READ_SITES, WRITE_SITES
from ..world import CAIRO_COLORS, render_kind
from ..deck import Gen

MODEL_FLAGS = dict(md=0, todo=0, fitsafe=1, near=0, hl=0, lfn=0, pri=0, again=0)


class W12(ModelWorld):
    def check_page(self, c, st, slide, n, root, i):
        have = Counter(f.key for f in M.facts(root, slide.debug))
        want = Counter(k for k, _ in slide.page(n))
        if have != want:
            self.bad("content", st, f"page {i + 1} (slide {slide.id}, fragment {n}): "
                     f"missing {sorted((want - have).elements(), key=str)[:5]}, "
                     f"unexpected {sorted((have - want).elements(), key=str)[:5]}")

    def check_cairo(self, c, st, slide, n, marker, i):
        if not marker.startswith("CAIRO:"):
            return
        colors = CAIRO_COLORS.get(marker)
        colors = None if colors is None else set(colors)
        want = {k[1] for k, it in slide.page(n) if k[0] == "shape"}
        if colors is not None and not want <= colors:
            self.bad("content", st, f"page {i + 1} (slide {slide.id}, fragment {n}): "
                     f"lacks shapes {sorted(want - colors)}")
        every = {it.key[1] for b in slide.boxes for it in b.kids
                 if isinstance(it, M.Item) and it.key and it.key[0] == "shape"}
        if colors is not None and (every - want) & colors:
            self.bad("content", st, f"page {i + 1} (slide {slide.id}, fragment {n}): "
                     f"shows shapes {sorted((every - want) & colors)} of other fragments")

    def judge_model(self, s, c, st, rec, m, exp, pages):
        if any(e[0] == "raw" for e in exp) and render_kind(st) != "pdf":
            self.bad("accept", st, "a deck with an added PDF was rendered as "
                     + render_kind(st))
            return
        super().judge_model(s, c, st, rec, m, exp, pages)
        post = getattr(c, "post", None)
        if st.get("kw", {}).get("post"):
            want = [c.get(x.id) for x in m.order if isinstance(x, M.Slide)]
            if st["kw"].get("select"):
                want = [c.get(x) for x in st["kw"]["select"]]
            if [b for b in post[-1:]] != [want]:
                self.bad("content", st, "postprocessing did not get the root boxes of the "
                         "rendered slides in order")



def simple(r):
    """Decks of small filled boxes, whose Cairo pages can be read back."""
    g = Gen(r, {"frags": r.choice([0.4, 0.9]), "vb": 0})
    ops = []
    for _ in range(r.randint(1, 3)):
        ops.append(g.slide())
        sl = g.slides[-1]
        for _ in range(r.randint(1, 7)):
            b = g.id("b")
            kw = {"width": 20, "height": 20}
            sel = g.selector()
            if sel is not None:
                kw["show"] = sel
            ops.append({"op": "box", "p": r.choice(sl["boxes"][-3:]), "id": b, "kw": kw})
            sl["boxes"].append(b)
            if r.random() < 0.8:
                ops.append({"op": "rect", "p": b, "id": g.id("i"), "kw": {"bg_color": g.color()}})
    return ops


class C12(Prop):
    id = "C12"
    world = W12
    oracles = {"count", "order", "content", "output", "raise", "accept"}

    def gen(self, r):
        kind = "cairo" if r.random() < 0.2 else "inkscape"
        dk = {}
        if r.random() < 0.2:
            dk["bg_color"] = "#fefefe"
        if kind == "cairo":
            ops = simple(r)
            g = None
        else:
            flags = dict(MODEL_FLAGS, rawpdf=r.choice([0, 2]), frags=r.choice([0.3, 0.8]),
                         ora=2, image=2)
            ops, g = scen.program(r, slides=(1, 4), size=(2, 8), flags=flags)
            if r.random() < 0.15:
                dk["name_policy"] = "replace"
                n = 0
                for op in ops:
                    if op["op"] == "slide":
                        op["name"] = r.choice(["na", "nb", "nc"])
            if r.random() < 0.12:
                ops = scen.repeat_slides(r, ops, g, r.choice([1, 1, 2, 9]))
            for op in ops:
                if op["op"] == "slide" and r.random() < 0.15:
                    op["how"] = "deco"
                    op["fname"] = "f" + op["id"]
        if r.random() < 0.06:
            dk["debug"] = True
        steps = [{"s": "open", "sess": "S0"},
                 {"s": "deck", "sess": "S0", "deck": "d", "backend": kind, "kw": dk}]
        cut = r.randint(1, len(ops))
        raw = any(o["op"] == "pdf" for o in ops)
        for part in (ops[:cut], ops[cut:]):
            steps.append({"s": "ops", "sess": "S0", "deck": "d", "ops": part})
            have = ops[:cut] if part is ops[:cut] else ops
            for _ in range(r.randint(1, 3)):
                live = have
                if dk.get("name_policy") == "replace":
                    live = [o for o in have if o["op"] == "pdf"]
                k = scen.render_kw(r, live, backend=kind, units=0.25, select=0.3)
                st = {"s": "render", "sess": "S0", "deck": "d", "kw": k}
                x = r.random()
                if x < 0.15 and not raw and not k.get("return_units"):
                    k.pop("export_type", None)
                    k.pop("pdf_merger", None)
                    st["pptx"] = True
                elif x < 0.3 and raw:
                    # no picture can be made of an added PDF
                    k.pop("return_units", None)
                    k["export_type"] = r.choice(["png", "png", "svg", "ps"])
                    k.pop("pdf_merger", None)
                if r.random() < 0.3 and kind == "inkscape":
                    k["slides_per_page"] = r.choice([[2, 1], [1, 2], [2, 2], [1, 1], [3, 2], [2, 3]])
                if r.random() < 0.1 and not st.get("pptx"):
                    k["post"] = True
                steps.append(st)
        steps.append({"s": "end", "sess": "S0"})
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        return [[pl.io(("cache", "out", "tmp", "asset"), sites=WRITE_SITES | READ_SITES)],
                [r.choice([pl.tool, pl.interrupt, pl.short])()]]


PROP = C12()
