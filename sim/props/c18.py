"""C18: relative fragment selectors follow the slide's own history."""
from .. import model as M, scen
from ..prop import Prop
from .c12 import MODEL_FLAGS, W12

BAD_SHOW = ["abc", "", "2-1", "1+,2+", "1-", "-1", "next-0", "1+,next+", 1.5, [1], "next+ x", "7,8,"]


class W18(W12):
    def run_op(self, s, c, op, st):
        out = super().run_op(s, c, op, st)
        if s.dead or c.tainted or self.cfg.get("lazy_check"):
            return out
        self.check_current(s, c, op)
        return out

    def check_cairo(self, *a):
        pass  # shapes may lie outside of the page or be empty

    def check_current(self, s, c, op):
        m = self.model(c, c.log)
        for sid, slide in m.slides.items():
            if slide.opaque:
                continue

            def ask():
                refs = [r for r, x in m.h.items() if isinstance(x, M.Box) and x.slide is slide
                        and r in c.h]
                return ([c.h["S:" + sid].current_fragment()]
                        + [c.h[r].current_fragment() for r in refs[-3:]])
            r = self.attempt(s, ask)
            if r.kind != "ok":
                continue
            self.count("fragment queries")
            if set(r.value) != {slide.last}:
                self.problem("fragment", f"current fragment of {sid} after {op}: {r.value}, "
                             f"expected {slide.last}")
                c.tainted = True
                return


class C18(Prop):
    id = "C18"
    world = W18
    oracles = {"fragment", "content", "count", "order", "accept", "raise", "output"}

    def gen(self, r):
        flags = dict(MODEL_FLAGS, frags=0.9, image=2, ora=2, lists=3, rawpdf=0, latex=0.5,
                     line_box=1.5, inline_box=1.5)
        ops, g = scen.program(r, slides=(1, 3), size=(3, 9), flags=flags, raw=False)
        # most selectors are relative ones
        for op in ops:
            kw = op.get("kw")
            if isinstance(kw, dict) and "show" in kw and r.random() < 0.6:
                kw["show"] = r.choice(["next", "next+", "last", "last+", "last-9", "next-7",
                                       "1,next", "last, next+", "next, 5"])
                if op["op"] in ("list", "sub"):
                    kw["show"] = r.choice(["next+", "last+"])
        m = M.Deck()
        for op in ops:
            try:
                m.apply(op)
            except M.Opaque:
                pass
            except M.Unknown:  # the end of an interval lies before its start
                op["kw"]["show"] = "next+"
                m.apply(op)
        seen = []
        out = []
        for op in ops:
            if r.random() < 0.25 and seen:
                out.append(self.bad(r, g, seen))
            out.append(op)
            if op["op"] in ("slide", "box", "text", "list", "sub"):
                seen.append(op)
        for _ in range(r.randint(0, 2)):
            if seen:
                out.append(self.bad(r, g, seen))
        kind = "cairo" if r.random() < 0.1 else "inkscape"
        steps = [{"s": "open", "sess": "S0"},
                 {"s": "deck", "sess": "S0", "deck": "d", "backend": kind}]
        pos = 0
        while pos < len(out):
            n = r.randint(1, 7)
            steps.append({"s": "ops", "sess": "S0", "deck": "d", "ops": out[pos:pos + n]})
            pos += n
            ids = scen.slide_ids(out[:pos])
            if not ids:
                continue
            x = r.random()
            if x < 0.15 or pos >= len(out):
                steps.append({"s": "render", "sess": "S0", "deck": "d",
                              "kw": scen.render_kw(r, out[:pos], backend=kind, units=0.5)})
            elif x < 0.25:
                steps.append({"s": "show", "sess": "S0", "deck": "d", "slide": r.choice(ids),
                              "how": "repr"})
        steps.append({"s": "end", "sess": "S0"})
        return scen.scenario(r, steps)

    def bad(self, r, g, seen):
        """An addition that has to be rejected."""
        boxes = [o for o in seen if o["op"] in ("slide", "box")]
        texts = [o for o in seen if o["op"] == "text"]
        lists = [o for o in seen if o["op"] in ("list", "sub")]
        p = r.choice(boxes)["id"]
        k = r.choice([0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7, 8]) if lists else r.randrange(2, 9)
        i = g.id("x")
        if k == 0 and lists:
            kw = {"show": r.choice(["next+", "9+"])}
            if r.random() < 0.5:
                return {"op": "item", "l": r.choice(lists)["id"], "id": i, "bad": True,
                        "kw": dict(kw, label=5)}
            return {"op": "sub", "l": r.choice(lists)["id"], "id": i, "kind": "ol", "bad": True,
                    "kw": dict(kw, start=0)}
        if k == 1 and lists:
            return {"op": "item", "l": r.choice(lists)["id"], "id": i, "bad": True,
                    "kw": {"show": r.choice(BAD_SHOW)}}
        if k == 2 and texts:
            return {"op": "inline_box", "t": r.choice(texts)["id"], "id": i, "style": "nosuch",
                    "kw": {"show": "next+"}, "bad": True}
        if k == 3:
            return {"op": "text", "p": p, "id": i, "bad": True,
                    "text": r.choice(["~emph{" + g.tok(), "a ~nosuch{" + g.tok() + "}"])}
        if k == 4:
            # a box of some other parent, or the parent itself
            return {"op": "box", "p": p, "id": i, "bad": True,
                    "kw": {"show": r.choice(["next", "8-9", "next+"]),
                           r.choice(["above", "below"]): p}}
        if k == 5:
            return {"op": "box", "p": p, "id": i, "bad": True, "kw": dict(
                show=r.choice(["next", "8-9", "next+"]),
                **r.choice([{"width": "wide"}, {"x": "left"}, {"height": "fill("},
                            {"y": "[10]"}]))}
        if k == 6 and g.assets:
            return {"op": "image", "p": p, "id": i, "bad": True, "asset": "nosuch.svg",
                    "kw": {"show_begin": 7}, "how": "file"}
        kw = {"show": r.choice(BAD_SHOW)}
        op = {"op": "box", "p": p, "id": i, "bad": True, "kw": kw}
        x = r.random()
        if x < 0.3:
            op["how"] = r.choice(["overlay", "fbox", "sbox"])
        elif x < 0.45 and texts:
            return {"op": "line_box", "t": r.choice(texts)["id"], "id": i, "idx": 0, "kw": kw,
                    "bad": True}
        return op

    def plan(self, r, sc, pl):
        plans = []
        for _ in range(2):
            x = r.random()
            fs = [pl.tool(), pl.tool()] if x < 0.4 else [pl.interrupt(), pl.interrupt()] \
                if x < 0.7 else [pl.io(("asset", "tmp", "cache")), pl.tool()]
            plans.append(fs)
        return plans


PROP = C18()
