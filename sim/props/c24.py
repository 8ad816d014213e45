"""C24: a style change affects only its box and later descendants."""
from .. import deck as D, model as M, scen
from ..deck import Gen
from ..modelworld import ModelWorld
from ..prop import ASSETS, Prop
from .c12 import MODEL_FLAGS


# styles that Markdown defines for itself
MD_NAMES = ["md-paragraph", "md-bold", "md-italic", "md-link", "md-blockquote", "md-h1", "md-h2"]


class W24(ModelWorld):
    judge_opaque = True  # Markdown changes nothing for the texts around it

    def run_op(self, s, c, op, st):
        out = super().run_op(s, c, op, st)
        if s.dead:
            return out
        for name, (obj, attrs) in s.__dict__.get("style_objs", {}).items():
            if D.style_attrs(obj) != attrs:
                self.problem("style", f"the caller's style object {name} became "
                             f"{D.style_attrs(obj)} (was {attrs}) by {op}")
                attrs.clear()
                attrs.update(D.style_attrs(obj))
        if op["op"] == "hasstyle" and out is not None and out.kind == "ok" and not c.tainted:
            if self.model(c, c.log).values[op["id"]] != c.values[op["id"]]:
                self.problem("style", f"{op} returned {c.values[op['id']]}")
        if op["op"] == "getstyle" and out is not None and out.kind == "ok" and not op.get("bad") \
                and not c.tainted:
            self.count("styles read")
            want = self.model(c, c.log).values[op["id"]]
            have = c.values[op["id"]]
            if have != want:
                self.problem("style", f"{op} returned {have}, expected {want}")
        return out

    def check_page(self, c, st, slide, n, root, i):
        have = {}
        for f in M.facts(root, slide.debug):
            have.setdefault(f.key, []).append(f.el)
        want = {}
        for k, it in slide.page(n):
            if it.kind in ("text", "code", "label"):
                want.setdefault(k, []).append(it)
        for k, its in want.items():
            els = have.get(k, [])
            if len(els) != len(its):
                self.count("texts not on the page")  # the subject of C12
                continue
            for el, it in zip(els, its):
                self.count("texts judged")
                msg = self.differs(el, it)
                if msg:
                    self.bad("style", st, f"page {i + 1} (slide {slide.id}, fragment {n}), {k}: "
                             + msg)
                    return

    def differs(self, el, it):
        a, b = M.text_style(el), M.expected_style(it.style)
        if a != b:
            return f"style {a}, expected {b}"
        v = [e.get("font-variant-numeric") for e in el.iter() if isinstance(e.tag, str)
             and e.get("font-variant-numeric")]
        if (v or [None])[0] != it.style.get("variant_numeric"):
            return f"variant {v}, expected {it.style.get('variant_numeric')}"
        if it.source is not None:
            a, b = M.line_steps(el), M.expected_line_steps(it.style, it.source)
            if len(a) != len(b) or any(abs(x - y) > 1e-6 for x, y in zip(a, b)):
                return f"line steps {a}, expected {b}"
        if it.kind == "text":
            toks = M.token_styles(el)
            for t, names in it.inline.items():
                a, b = toks.get(t), M.expected_token_style(it.style, names)
                if a != b:
                    return f"{t} has {a}, expected {b}"
        return None


class C24(Prop):
    id = "C24"
    world = W24
    oracles = {"style", "accept", "raise", "output"}

    def gen(self, r):
        flags = dict(MODEL_FLAGS, styles=0, fit=0, nested=4, text=6, code=1, lists=1, shapes=0.4,
                     points=0, image=0.2, ora=0, bitmap=0, latex=0, line_box=0.7, inline_box=0.7,
                     rawpdf=0, frags=r.choice([0, 0.2]), lazy=0, vb=0, place=0.5, z=0.2)
        self.md = r.random() < 0.3
        decks = ["d"] if r.random() < 0.7 else ["d", "e"]
        gens = {d: DeckGen(r, flags, d) for d in decks}
        objs = [dict(self.attrs(r, gens["d"].g), obj=f"O{i}") for i in range(r.randint(0, 3))]
        steps = [{"s": "open", "sess": "S0"}]
        for d in decks:
            steps.append({"s": "deck", "sess": "S0", "deck": d})
        for d in decks:
            gens[d].n = r.randint(10, 45) // len(decks)
        while any(g.n > 0 for g in gens.values()):
            d = r.choice([d for d in decks if gens[d].n > 0])
            g = gens[d]
            k = r.randint(1, 12)
            ops = [self.one(r, g, objs) for _ in range(k)]
            g.n -= k
            steps.append({"s": "ops", "sess": "S0", "deck": d, "ops": [o for o in ops if o]})
            ids = list(g.m.slides)
            if ids and (g.n <= 0 or r.random() < 0.2):
                kw = {"return_units": True} if r.random() < 0.6 else {}
                steps.append({"s": "render", "sess": "S0", "deck": d, "kw": kw})
            elif ids and r.random() < 0.1:
                steps.append({"s": "show", "sess": "S0", "deck": d, "how": "repr",
                              "slide": r.choice(ids)})
        steps.append({"s": "end", "sess": "S0"})
        return scen.scenario(r, steps)

    def attrs(self, r, g):
        s = {}
        for k, p, vals in (
                ("size", 0.5, [10, 14, 20, 33, 48]), ("color", 0.6, [g.color()]),
                ("bold", 0.3, [True, True, False]), ("italic", 0.3, [True, True, False]),
                ("align", 0.3, ["left", "middle", "right"]),
                ("font", 0.3, ["serif", "monospace", "DejaVu"]),
                ("line_spacing", 0.3, [1.0, 1.5, 2]), ("opacity", 0.15, [0.5, 0.25, 1.0]),
                ("variant_numeric", 0.15, ["ordinal", "normal"])):
            if r.random() < p:
                s[k] = r.choice(vals)
        return s

    def one(self, r, dg, objs):
        op = self.choose(r, dg, objs)
        if not op.get("bad"):
            try:
                dg.m.apply(op)
            except M.Unknown:
                return None
            if op["op"] == "text" and r.random() < 0.2:
                dg.items.append(op["id"])
        return op

    def choose(self, r, dg, objs):
        g, m = dg.g, dg.m
        if not m.slides or r.random() < 0.06:
            op = g.slide()
            dg.refs.append(op["id"])
            return op
        spec = lambda: r.choice(objs) if objs and r.random() < 0.35 else self.attrs(r, g)
        where = r.choice(["deck"] + dg.refs[-4:] + [r.choice(dg.refs)]) \
            if r.random() < 0.95 else "deck"
        target = m if where == "deck" else m.h[where]
        names = sorted(n for n in target.styles if n != "code_lineno")
        x = r.random()
        if self.md and r.random() < 0.12:
            sl = r.choice(g.slides)
            op = g.g_md(sl)
            op["p"] = r.choice([op["p"], sl["id"]])
            return op
        if self.md and r.random() < 0.12:
            name = r.choice(MD_NAMES)
            if name not in names:
                if r.random() < 0.5:
                    return {"op": "hasstyle", "on": where, "id": g.id("v"), "name": name}
                if r.random() < 0.6:
                    return self.bad(r, g, where, names, name)
                return {"op": "style", "on": where, "name": name, "what": "set",
                        "style": spec()}
        if x < 0.06:
            # names that exist elsewhere only
            other = [n for n in dg.names() if n not in names] or ["nosuch"]
            return self.bad(r, g, where, names, r.choice(other))
        if x < 0.2:
            # re-using a name is what makes changes collide
            name = r.choice(["my1", "my2", "emph", "tt", "my3", "code", "default", g.id("my")])
            op = {"op": "style", "on": where, "name": name, "what": "set", "style": spec()}
            if name == "default":
                # a default style has to be complete
                if r.random() < 0.5:
                    op["style"] = dict(M.BASE_STYLES["default"], **M.plain(op["style"]))
                else:
                    op["what"] = "update"
            elif r.random() < 0.25:
                op["base"] = r.choice([n for n in names if n != "default"])
            if r.random() < 0.3:
                op["poke"] = True
            return op
        if x < 0.35:
            op = {"op": "style", "on": where, "name": r.choice(names + ["default"] * 2),
                  "what": "update", "style": spec()}
            if r.random() < 0.3:
                op["poke"] = True
            return op
        if x < 0.4:
            return {"op": "hasstyle", "on": where, "id": g.id("v"),
                    "name": r.choice(dg.names() + ["nosuch"])}
        if x < 0.48:
            op = {"op": "getstyle", "on": where, "id": g.id("v")}
            if r.random() < 0.85:
                op["name"] = r.choice(names)
            else:
                op["style"] = spec()
            if r.random() < 0.4:
                op["full"] = True
            if r.random() < 0.6:
                op["poke"] = True
            return op
        sl = r.choice(g.slides)
        op = g.content(sl)
        if op["op"] == "box":
            dg.refs.append(op["id"])
        elif op["op"] in ("line_box", "inline_box", "item"):
            dg.refs.append(op["id"])
        elif op["op"] in ("text", "code"):
            it = m.h.get(op["p"])
            if it is None:
                return op
            box = m.boxof(op["p"])
            mine = sorted(n for n in box.styles if not n.startswith("pygments-"))
            if op["op"] == "text":
                words = [g.tok() for _ in range(r.randint(1, 5))]
                out = []
                for w in words:
                    k = r.random()
                    st = r.choice([n for n in mine if n != "default"])
                    if k < 0.25:
                        out.append("~%s{%s}" % (st, w))
                    elif k < 0.35:
                        out.append("~%s{%s ~%s{%s} %s}" % (
                            st, w, r.choice(mine), g.tok(), g.tok()))
                    elif k < 0.45:
                        out.append("~%s{%s%s%s}" % (r.choice(["#d", st]), w, r.choice(
                            ["\n", " ", "\n\n"]), g.tok()))
                    else:
                        out.append(w)
                op["text"] = "".join(w + r.choice([" ", "\n", "\n\n", " "]) for w in out).strip()
                for s in dg.g.slides:
                    s["texts"] = [(t, op["text"].count("\n") + 1, ["emph"] if "~emph{" in
                                   op["text"] else []) if t == op["id"] else (t, n, i)
                                  for t, n, i in s["texts"]]
                op.pop("style", None)
                if dg.items and r.random() < 0.1:
                    it = r.choice(dg.items)
                    if m.h[it].box.slide is box.slide and m.h[it].box.styles is box.styles:
                        op["p"] = it
            else:
                op.pop("ln", None)
            if r.random() < 0.45:
                op["style"] = r.choice(mine if r.random() < 0.8 else sorted(
                    n for n in box.styles if n != "code_lineno")) \
                    if r.random() < 0.6 else spec()
        return op

    def bad(self, r, g, where, names, nosuch):
        k = r.randrange(5)
        i = g.id("x")
        if k == 0:
            return {"op": "style", "on": where, "name": nosuch, "what": "update",
                    "style": self.attrs(r, g), "bad": True}
        if k == 1:
            return {"op": "style", "on": where, "name": r.choice(names), "what": "set",
                    "base": nosuch, "style": self.attrs(r, g), "bad": True}
        if k == 2:
            return {"op": "style", "on": where, "name": r.choice(names), "bad": True,
                    "what": r.choice(["set", "update"]), "style": r.choice([None, 7, "emph"])}
        if k == 3 or where == "deck":
            return {"op": "getstyle", "on": where, "id": i, "name": nosuch, "bad": True}
        return {"op": "text", "p": where, "id": i, "text": g.tok(), "bad": True,
                "style": r.choice([nosuch, 5])}

    def plan(self, r, sc, pl):
        x = r.random()
        fs = [pl.tool()] if x < 0.4 else [pl.interrupt(), pl.tool()] if x < 0.8 else \
            [pl.io(("tmp", "cache"))]
        return [fs]


class DeckGen:
    """A generator of one deck, with the model running along."""

    def __init__(self, r, flags, name):
        self.g = Gen(r, flags, ASSETS)
        self.g.n = {"d": 0, "e": 5000}[name]
        self.m = M.Deck()
        self.refs = []
        self.items = []
        self.n = 0

    def names(self):
        """Style names that exist anywhere in the deck."""
        out = set(self.m.styles)
        for ref in self.refs:
            out |= set(self.m.h[ref].styles)
        out.discard("code_lineno")
        return sorted(out)


PROP = C24()
