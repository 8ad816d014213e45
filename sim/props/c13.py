"""C13: the slide name policy holds at every point of every history."""
from .. import model as M, scen
from ..deck import Gen
from ..modelworld import ModelWorld
from ..prop import ASSETS, Prop

NAMES = ["na", "nb", "nc", "", "na ", "NA"]


class W13(ModelWorld):
    def check_page(self, c, st, slide, n, root, i):
        have = {f.key for f in M.facts(root, slide.debug)}
        want = {k for k, _ in slide.page(n)}
        if have != want:
            self.bad("order", st, f"page {i + 1} is not slide {slide.id} fragment {n}: "
                     f"{sorted(have, key=str)[:4]} instead of {sorted(want, key=str)[:4]}")

    def run_op(self, s, c, op, st):
        out = super().run_op(s, c, op, st)
        if s.dead or c.tainted:
            return out
        m = self.model(c, c.log)
        for name in self.sc["names"]:
            found = [x for x in m.order if isinstance(x, M.Slide) and x.name == name]
            r = self.attempt(s, lambda: c.deck.get_slide_by_name(name))
            if r.kind in ("crash", "skip"):
                return out
            if r.kind != "ok":
                self.problem("lookup", f"lookup of {name!r} raised {r.brief()} after {op}")
                return out
            live = [c.h["S:" + x.id] for x in found]
            self.count("lookups")
            if (r.value is None) != (not found) or (found and all(r.value is not x for x in live)):
                self.problem("lookup", f"lookup of {name!r} gave {r.value!r} after {op}; the deck "
                             f"holds {[x.id for x in found]}")
                return out
        return out

    def do_render(self, st):
        s, c = self.ctx(st)
        if c is None or not self.model(c, c.log).order:
            return
        super().do_render(st)


class C13(Prop):
    id = "C13"
    world = W13
    oracles = {"count", "order", "lookup", "accept", "raise", "output"}

    def gen(self, r):
        steps = []
        names = r.sample(NAMES, r.randint(2, 4))
        for sess in range(1):
            notebook = r.random() < 0.3
            steps.append({"s": "open", "sess": "S0", "notebook": notebook})
            policy = r.choice(["unique", "replace", "ignore", "replace", "auto", None])
            dk = {} if policy is None else {"name_policy": policy}
            kind = "cairo" if r.random() < 0.1 else "inkscape"
            steps.append({"s": "deck", "sess": "S0", "deck": "d", "kw": dk, "backend": kind})
            m = M.Deck(dk, notebook)
            g = Gen(r, {"frags": 0.3, "vb": 0.1, "bg": 0.2}, ASSETS)
            ops, decos = [], []
            for _ in range(r.randint(3, 14)):
                x = r.random()
                again = False
                if x < 0.15 and kind != "cairo":
                    op = {"op": "pdf", "asset": r.choice(["r.pdf", "q.pdf"])}
                elif x < 0.2 and g.slides:
                    # more content on some slide, maybe one that was replaced
                    sl = r.choice(g.slides)
                    op = {"op": "rect", "p": sl["id"], "id": g.id("i"),
                          "kw": {"bg_color": g.color()}}
                else:
                    op = g.slide()
                    y = r.random()
                    if y < 0.12:
                        pass
                    elif y < 0.2:
                        op["name"] = r.choice([7, ["na"], 0, 1.5])
                    else:
                        op["name"] = r.choice(names)
                    if r.random() < 0.3:
                        op["how"] = "deco"
                        op["fname"] = r.choice(names[:2]) or "fn"
                        if r.random() < 0.5:
                            op["deco"] = g.id("D")
                            decos.append(op)
                        elif decos and r.random() < 0.8:
                            # the same decorator for another function
                            old = r.choice(decos)
                            op = dict(old, id=op["id"], fname=r.choice(names) or "fn")
                            op.pop("bad", None)
                            again = True
                    if not again and not op.get("deco") and r.random() < 0.12:
                        op["vbraw"] = r.choice([[0, 0, 10, 10], "abcd", 5, ["0", 0, 1, 1], []])
                        op.pop("vb", None)
                        op["bad"] = True
                if not op.get("bad"):
                    try:
                        m.apply(op)
                    except M.Unknown:
                        op["bad"] = True
                if op.get("bad") and op["op"] == "slide":
                    g.slides.pop()
                ops.append(op)
                if op["op"] == "slide" and not op.get("bad"):
                    # something that only this slide shows
                    mark = {"op": "rect", "p": op["id"], "id": g.id("i"),
                            "kw": {"bg_color": g.color()}}
                    m.apply(mark)
                    ops.append(mark)
            cut = 0
            while cut < len(ops):
                n = r.randint(1, 6)
                steps.append({"s": "ops", "sess": "S0", "deck": "d", "ops": ops[cut:cut + n]})
                cut += n
                if r.random() < 0.6 or cut >= len(ops):
                    steps.append({"s": "render", "sess": "S0", "deck": "d",
                                  "kw": {"return_units": True} if r.random() < 0.4
                                  and kind != "cairo" else {}})
            steps.append({"s": "end", "sess": "S0"})
        sc = scen.scenario(r, steps)
        sc["names"] = NAMES
        return sc

    def plan(self, r, sc, pl):
        return [[r.choice([pl.interrupt, pl.tool])(), pl.io(("cache", "out"))]]


PROP = C13()
