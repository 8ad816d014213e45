"""C10: rendering is repeatable and has no side effects on the deck."""
from .. import scen
from ..prop import Prop
from ..world import World, clean_pages, fragment_alone


def any_render(r, ops, name, deck, kind="inkscape", **kw):
    """A render, export or display step."""
    x = r.random()
    ids = scen.slide_ids(ops)
    if x < 0.15:
        return {"s": "show", "sess": name, "deck": deck, "slide": r.choice(ids),
                "how": "repr" if kind == "cairo" else r.choice(["repr", "svg", "box"])}
    k = scen.render_kw(r, ops, backend=kind, units=0.3, select=0.3, prune=0.5, **kw)
    st = {"s": "render", "sess": name, "deck": deck, "kw": k}
    raw = any(o["op"] == "pdf" for o in ops)
    if x < 0.25 and not raw and not k.get("return_units"):
        k.pop("export_type", None)
        k.pop("pdf_merger", None)
        st["pptx"] = True
    elif x < 0.35 and kind == "inkscape":
        k["slides_per_page"] = r.choice([[2, 1], [1, 2], [2, 2], [1, 1], [3, 2]])
        k.pop("select", None)
    if r.random() < 0.1 and not st.get("pptx"):
        k["post"] = True
    return st


class W10(World):
    """Adds: a fragment is the same page whether or not the fragments before it were drawn."""

    def judge_render(self, s, c, st, rec, n):
        super().judge_render(s, c, st, rec, n)
        if not st.get("alone") or c.tainted or c.backend == "cairo" or self.k.fired:
            return
        log = c.log[: rec["loglen"]]
        if any(isinstance(x, list) for _, v in log for x in v.values()):
            return
        clean = clean_pages(self, c, log)
        todo = [(i, len(p[1])) for i, p in clean.items() if p[0] == "ok" and len(p[1]) > 1]
        todo.sort(key=lambda x: (-x[1], x[0]))
        for sid, steps in todo[:2]:
            for k in sorted({steps, 2}):
                got = fragment_alone(self, c, log, sid, k)
                if got is None:
                    continue
                self.count("fragments drawn alone")
                if got != ("ok", clean[sid][1][k - 1]):
                    self.problem("pages", f"fragment {k} of slide {sid} depends on whether the "
                                 f"fragments before it are drawn: {clean[sid][1][k - 1]} after "
                                 f"them, {got} alone")


class C10(Prop):
    id = "C10"
    world = W10
    oracles = {"pages", "output", "raise", "hang", "show"}

    def gen(self, r):
        flags = {"latex": r.choice([0, 1]), "fit": r.choice([1, 3]), "line_box": 2, "inline_box": 2,
                 "fwd": r.choice([0, 0, 0.9]), "place": r.choice([1, 3])}
        if r.random() < 0.25:
            flags["debug_boxes"] = 1.2
        ops, g = scen.program(r, slides=(1, 3), size=(3, 9), flags=flags)
        kind = "cairo" if r.random() < 0.2 else "inkscape"
        st = [{"s": "open", "sess": "S0"}, {"s": "deck", "sess": "S0", "deck": "d"}]
        if kind == "cairo":
            st[1]["backend"] = "cairo"
        cuts = sorted(r.randint(1, len(ops)) for _ in range(r.randint(1, 3))) + [len(ops)]
        a = 0
        for b in cuts:
            if b > a:
                st.append({"s": "ops", "sess": "S0", "deck": "d", "ops": ops[a:b]})
                a = b
            if scen.slide_ids(ops[:b]):
                for _ in range(r.randint(1, 3)):
                    st.append(any_render(r, ops[:b], "S0", "d", kind))
        st.append({"s": "render", "sess": "S0", "deck": "d", "alone": r.random() < 0.5,
                   "kw": {} if kind == "cairo" else r.choice([{}, {"return_units": True}])})
        st.append({"s": "end", "sess": "S0"})
        return scen.scenario(r, st)

    def plan(self, r, sc, pl):
        plans = []
        for _ in range(2):
            x = r.random()
            if x < 0.4:
                fs = [pl.io(("cache", "out", "tmp", "queries")), pl.io(("cache", "out"))]
            elif x < 0.7:
                fs = [pl.tool()]
            else:
                fs = [pl.interrupt()]
            plans.append(fs)
        return plans


PROP = C10()
