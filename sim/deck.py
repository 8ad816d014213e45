"""Deck programs: building operations as data, their executor and their generator."""
import io
import os
import random

from . import tools


class BadHandle(Exception):
    """The operation refers to something that does not exist (any more): skipped."""


class DeckCtx:
    """One live deck of one simulated session."""

    def __init__(self, world, session, name, deck, backend, opts):
        self.world = world
        self.session = session
        self.name = name
        self.deck = deck
        self.backend = backend
        self.opts = opts
        self.h = {}  # handles
        self.log = []  # (op, {asset: version}) of the operations that succeeded
        self.tainted = False
        self.values = {}  # op id -> observed value
        self.shown = []
        self.retried = set()
        self.images = {}  # asset -> version the deck has read
        self.failed = []

    @property
    def ink_version(self):
        return tools.INK_OTHER if self.opts.get("ink") else self.session.ink_version

    def log_failed(self, op, out):
        self.failed.append((op, out))
        self.world.problem("raise", f"adding {op['op']} raised {out.exc}: {out.msg[:200]} although "
                           f"nothing failed during it: {op}")

    def get(self, ref):
        if ref not in self.h:
            raise BadHandle(ref)
        return self.h[ref]


JUNK = {"empty": b"", "text": b"see the other file\n", "zero": b"\0" * 300,
        "head": b"\x89PNG\r\n", "html": b"<html><body>404 not found</body></html>"}


class BrokenStream(io.RawIOBase):
    """A stream that fails, or ends before any picture can be recognised."""

    def __init__(self, ends):
        self.ends = ends

    def readable(self):
        return True

    def read(self, n=-1):
        if self.ends in JUNK:
            return JUNK[self.ends]
        raise {"io": OSError(5, "Input/output error"), "value": ValueError("closed stream"),
               "timeout": TimeoutError("timed out")}[self.ends]


COMPOSITE = {"item", "md", "todo", "list", "sub"}


def style_obj(ctx, spec):
    if spec is None or not isinstance(spec, dict):
        return spec
    shared = spec.get("obj")
    attrs = {k: v for k, v in spec.items() if k != "obj"}
    if shared is None:
        return ctx.session.mods["elsie"].TextStyle(**attrs)
    # one object that the caller passes several times
    objs = ctx.session.__dict__.setdefault("style_objs", {})
    if shared not in objs:
        objs[shared] = (ctx.session.mods["elsie"].TextStyle(**attrs), attrs)
    return objs[shared][0]


STYLE_ATTRS = ("font", "size", "align", "line_spacing", "color", "bold", "italic",
               "variant_numeric", "opacity")


def style_attrs(style):
    return {k: getattr(style, k) for k in STYLE_ATTRS if getattr(style, k) is not None}


def poke_style(style):
    """The caller changes a style object that it was given."""
    style.color = "#dead00"
    style.size = 99
    style.font = "poked"
    style.bold = not style.bold
    style.italic = not style.italic
    style.align = "right"
    style.line_spacing = 7
    style.priority = 50


def point(ctx, p):
    if isinstance(p, dict):
        if "pt" in p:  # a point that was taken before
            q = ctx.get(p["pt"])
            return q.add(*p["add"]) if p.get("add") else q
        box = ctx.get(p["of"])
        if p.get("mid"):
            q = box.mid_point()
        else:
            q = box.p(p["x"], p["y"])
        if p.get("add"):
            q = q.add(*p["add"])
        return q
    return tuple(p)


def label_fn(op):
    if op is None or not isinstance(op, dict):
        return op
    if op.get("fn") == "roman":
        return lambda box, level: box.text("R" + "/".join(str(v) for v in level))
    if op.get("fn") == "steps":
        # a label that has fragments of its own
        def fn(box, level):
            box.text("A" + "-".join(str(v) for v in level))
            box.box(show="next+").text("B%d" % len(level))
        return fn
    raise ValueError(op)


def arrow(ctx, spec):
    """An arrow head; one object may be passed several times."""
    if not isinstance(spec, dict):
        return ctx.session.mods["elsie"].Arrow(spec)
    attrs = {k: v for k, v in spec.items() if k != "obj"}
    make = lambda: ctx.session.mods["elsie"].Arrow(**attrs)
    if "obj" not in spec:
        return make()
    # one object for all decks of a session
    objs = ctx.session.__dict__.setdefault("arrow_objs", {})
    key = repr(sorted(spec.items()))
    if key not in objs:
        objs[key] = make()
    return objs[key]


def escaped(op):
    """The text of an operation, written with the escape characters that it asks for."""
    esc = op.get("esc") or op.get("kw", {}).get("escape_char")
    text = op["text"]
    if esc:
        esc = esc if len(esc) == 3 else esc + "{}"
        text = text.translate({ord(a): b for a, b in zip("~{}", esc)})
    return text


def box_kw(ctx, kw):
    kw = dict(kw or {})
    for rel in ("above", "below"):
        if kw.get(rel) is not None:
            kw[rel] = ctx.get(kw[rel])
    for c in ("x", "y"):
        v = kw.get(c)
        if isinstance(v, dict):
            kw[c] = coordinate(ctx, v)
    return kw


def coordinate(ctx, v):
    if "co" in v:  # one that was taken before
        q = ctx.get(v["co"])
    else:
        b = ctx.get(v["of"])
        q = (b.x if v["axis"] == "x" else b.y)(v["at"])
    return q.add(v["add"]) if v.get("add") else q


def apply_op(ctx, op):
    """Runs one building operation against the real elsie API. Returns the created object."""
    o = op["op"]
    m = ctx.session.mods
    d = ctx.deck
    res = None
    if o == "slide":
        kw = dict(bg_color=op.get("bg"), debug_boxes=op.get("dbg", False))
        if op.get("vb"):
            kw["view_box"] = tuple(op["vb"])
        if "vbraw" in op:
            kw["view_box"] = op["vbraw"]
        if op.get("how") == "deco":
            holder = []

            def fn(slide):
                holder.append(slide)

            fn.__name__ = op.get("fname") or "fn"
            # a decorator may be used for several functions
            deco = ctx.h.get("D:%s" % op.get("deco")) or d.slide(op.get("name"), **kw)
            if op.get("deco"):
                ctx.h["D:" + op["deco"]] = deco
            res_slide = deco(fn)
            box = holder[0]
            ctx.h["S:" + op["id"]] = res_slide
        else:
            box = d.new_slide(op.get("name"), **kw)
            ctx.h["S:" + op["id"]] = box.slide
        res = box
    elif o == "pdf":
        path = ctx.world.asset_path(op["asset"])
        if op.get("file"):  # a copy of it
            path = os.path.join(ctx.world.root, op["file"])
        res = d.add_pdf(ctx.world.given(path))
    elif o == "box":
        res = getattr(ctx.get(op["p"]), op.get("how", "box"))(**box_kw(ctx, op.get("kw")))
    elif o == "text":
        kw = {}
        if op.get("fit"):
            kw["scale_to_fit"] = True
        if op.get("rot"):
            kw["rotation"] = op["rot"]
        if op.get("esc"):
            kw["escape_char"] = op["esc"]
        res = ctx.get(op["p"]).text(escaped(op), style_obj(ctx, op.get("style", "default")), **kw)
    elif o == "code":
        res = ctx.get(op["p"]).code(
            op.get("lang", ""), escaped(op), line_numbers=op.get("ln", False),
            use_styles=op.get("us", False), scale_to_fit=op.get("fit", False),
            style=style_obj(ctx, op.get("style", "code")), **op.get("kw", {}),
        )
    elif o == "line_box":
        res = ctx.get(op["t"]).line_box(op["idx"], op.get("n", 1), **box_kw(ctx, op.get("kw")))
    elif o == "inline_box":
        res = ctx.get(op["t"]).inline_box(op["style"], op.get("nth", 1), **box_kw(ctx, op.get("kw")))
    elif o in ("rect", "ellipse"):
        res = getattr(ctx.get(op["p"]), o)(**op.get("kw", {}))
    elif o == "polygon":
        res = ctx.get(op["p"]).polygon([point(ctx, p) for p in op["points"]], **op.get("kw", {}))
    elif o == "line":
        kw = dict(op.get("kw", {}))
        for a in ("start_arrow", "end_arrow"):
            if kw.get(a):
                kw[a] = arrow(ctx, kw[a])
        res = ctx.get(op["p"]).line([point(ctx, p) for p in op["points"]], **kw)
    elif o == "path":
        cmds = [(c[0],) + tuple(point(ctx, p) for p in c[1:]) for c in op["cmds"]]
        kw = dict(op.get("kw", {}))
        if kw.get("end_arrow"):
            kw["end_arrow"] = arrow(ctx, kw["end_arrow"])
        res = ctx.get(op["p"]).path(cmds, **kw)
    elif o == "image":
        path = ctx.world.asset_path(op["asset"])
        kw = dict(op.get("kw", {}))
        how = op.get("how", "file")
        kind = op["asset"].rsplit(".", 1)[1]
        kind = {"jpg": "jpeg"}.get(kind, kind)
        if how == "file":
            res = ctx.get(op["p"]).image(path, **kw)
        elif how == "bytes":
            with open(path, "rb") as f:
                data = f.read()
            res = ctx.get(op["p"]).image(data, image_type=kind, **kw)
        elif how == "stream":
            with open(path, "rb") as f:
                res = ctx.get(op["p"]).image(f, image_type=kind, **kw)
        elif how == "memory":
            # a stream that stands somewhere in the middle; what it delivers is the picture
            with open(path, "rb") as f:
                data = f.read()
            f = io.BytesIO(b"z" * op.get("pre", 0) + data)
            f.seek(op.get("pre", 0))
            ctx.h["M:" + op["id"]] = f
            res = ctx.get(op["p"]).image(f, image_type=kind, **kw)
        elif how == "drained":
            res = ctx.get(op["p"]).image(ctx.get("M:" + op["of"]), image_type=kind, **kw)
        elif how == "broken":
            res = ctx.get(op["p"]).image(BrokenStream(op["ends"]), image_type=kind, **kw)
        elif how == "junk":
            res = ctx.get(op["p"]).image(JUNK[op["ends"]], image_type=kind, **kw)
        else:
            raise ValueError(how)
    elif o == "latex":
        res = m["elsie.ext.latex"].latex(ctx.get(op["p"]), op["text"], scale=op.get("scale", 1.0),
                                          **{k: op[k] for k in ("header", "tail") if k in op})
    elif o == "list":
        fn = getattr(m["elsie.ext"], {"ul": "unordered_list", "ol": "ordered_list"}[op["kind"]])
        kw = dict(op.get("kw", {}))
        if "label" in kw:
            kw["label"] = label_fn(kw["label"])
        res = fn(ctx.get(op["p"]), **kw)
    elif o == "sub":
        kw = dict(op.get("kw", {}))
        if "label" in kw:
            kw["label"] = label_fn(kw["label"])
        res = getattr(ctx.get(op["l"]), op["kind"])(**kw)
    elif o == "item":
        kw = dict(op.get("kw", {}))
        if "label" in kw:
            kw["label"] = label_fn(kw["label"])
        res = ctx.get(op["l"]).item(**kw)
        if op.get("text"):
            ctx.h[op["id"]] = res
            res.text(op["text"])
    elif o == "md":
        kw = {"escape_char": op["esc"]} if op.get("esc") else {}
        res = m["elsie.ext"].markdown(ctx.get(op["p"]), escaped(op), **kw)
    elif o == "todo":
        res = m["elsie.ext.todo"].todo_placeholder(ctx.get(op["p"]), op.get("name"))
    elif o == "style":
        target = d if op["on"] == "deck" else ctx.get(op["on"])
        s = style_obj(ctx, op["style"])
        if op["what"] == "set":
            kw = {"base": op["base"]} if op.get("base") else {}
            target.set_style(op["name"], s, **kw)
        else:
            target.update_style(op["name"], s)
        if op.get("poke"):
            # the caller reuses its style object afterwards; reading it back must be unaffected
            poke_style(target.get_style(op["name"]))
        res = None
    elif o == "getstyle":
        target = d if op["on"] == "deck" else ctx.get(op["on"])
        arg = op["name"] if "name" in op else style_obj(ctx, op["style"])
        got = target.get_style(arg, full_style=True) if op.get("full") else target.get_style(arg)
        ctx.values[op["id"]] = style_attrs(got)
        if op.get("poke"):
            poke_style(got)
    elif o == "hasstyle":
        target = d if op["on"] == "deck" else ctx.get(op["on"])
        ctx.values[op["id"]] = bool(target.has_style(op["name"]))
    elif o == "frag":
        ctx.values[op["id"]] = ctx.get(op["p"]).current_fragment()
    elif o == "point":
        res = point(ctx, op["at"])
    elif o == "coord":
        res = coordinate(ctx, op["at"])
    elif o == "lookup":
        s = d.get_slide_by_name(op["name"])
        ctx.values[op["id"]] = s
    else:
        raise ValueError(o)
    if op.get("id") and res is not None:
        ctx.h[op["id"]] = res
    return res


# ---------------------------------------------------------------------- generator
DEFAULT_FLAGS = dict(
    frags=0.5, text=4, fit=1, code=1, line_box=1, inline_box=1, shapes=2, points=1, image=1,
    ora=1, latex=1, lists=1, md=0.5, styles=1, place=1, z=1, todo=0.3, nested=3, rawpdf=0.5,
    overlay=0.7, debug_boxes=0.1, bg=0.3, vb=0.15, lazy=0.5, stream=0.3, bitmap=1, near=0.12, hl=0.15,
    rich=0.3, lfn=0.3, pri=0.3, deep=0.2, again=1,
)

SHARED_STYLES = [{"obj": "U0", "size": 21, "color": "#123456"}, {"obj": "U1", "bold": True},
                 {"obj": "U2", "italic": True, "align": "right", "font": "serif"}]
HIGHLIGHT = ["pygments-Token.Keyword", "pygments-Token.Name.Function",
             "pygments-Token.Literal.Number", "pygments-Token.Name"]

# texts that are easily taken for each other
NEAR = [
    ["note", "Note", "NOTE", "notes", "not", "note ", "note.", "n o t e"],
    ["a b", "a  b", "a\tb", "ab", "a\nb", "b a", "a\u00a0b", "a_b"],
    ["\u00e9t\u00e9", "e\u0301te\u0301", "ete", "\u00c9t\u00e9"],
    ["1.0", "1.00", "1", "10", "1,0", "-1.0"],
    ["<b>", "&lt;b&gt;", "b", "&amp;lt;b", "<B>"],
    ["x" * 40, "x" * 41, "x" * 39 + "y", "y" + "x" * 39],
    ["~emph{ab} c", "a~emph{b} c", "~tt{ab} c", "ab ~emph{c}", "~emph{a~tt{b}} c"],
    ["{}", "}{", "()", "[]", "{ }"],
    ["one\ntwo", "one\n\ntwo", "onetwo", "two\none", "one\ntwo\nthree"],
]


# the same formula in sources that are not the same
LATEX = ["$x_{%d}$"] * 8 + ["$x_{%d}$\n", " $x_{%d}$", "a\n$x_{%d}$", "a\n\n$x_{%d}$",
                            "a %% b\n$x_{%d}$", "a %% b $x_{%d}$", "A\n$x_{%d}$"]


def latex_frame(r):
    """Maybe another header or tail of a LaTeX source."""
    kw = {}
    if r.random() < 0.25:
        kw["header"] = "\\documentclass{article}%%HDR{%d}\n\\begin{document}" % r.randint(1, 2)
    if r.random() < 0.15:
        kw["tail"] = "%%TAIL{%d}\n\\end{document}" % r.randint(1, 2)
    return kw


class Gen:
    """Generates deck programs; every choice comes from one random stream."""

    def __init__(self, rng, flags=None, assets=()):
        self.r = rng
        self.f = dict(DEFAULT_FLAGS)
        if flags:
            self.f.update(flags)
        self.n = 0
        self.slides = []  # dicts: id, boxes, texts, lists, items
        self.assets = list(assets)
        self.deck_styles = []
        self.snippet = None
        self.sized = {}
        self.ncol = rng.randrange(5000)
        self.snippets = []

    def swarm(self):
        """Switches random features off for this scenario (swarm testing)."""
        for key in ("fit", "code", "line_box", "inline_box", "shapes", "points", "image", "ora",
                    "latex", "lists", "md", "styles", "place", "z", "todo", "rawpdf", "overlay",
                    "debug_boxes", "bg", "vb", "lazy", "stream", "bitmap"):
            if self.r.random() < 0.4:
                self.f[key] = 0
        self.f["frags"] = self.r.choice([0, 0.3, 0.6, 0.9])
        return self

    def id(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def tok(self):
        self.n += 1
        return f"tk{self.n}z"

    # -- values
    def selector(self):
        r = self.r
        if r.random() >= self.f["frags"]:
            return None
        if r.random() < 0.12:
            return r.choice(["2+,5", "1,9", "4-5,2", "next,5", "3,1", "last,6", "10", "12-13",
                             " 2 ", "1 , 3+", "last+,2", "2,2-3", "next+,1", "1-1", "4+,1-2",
                             "9,next"])
        k = r.randrange(10)
        a = r.randint(1, 4)
        if k == 0:
            return a
        if k == 1:
            return str(a)
        if k == 2:
            return f"{a}+"
        if k == 3:
            return f"{a}-{a + r.randint(0, 2)}"
        if k == 4:
            return f"{a},{a + 2}"
        if k == 5:
            return f"{a}, {a + 1}-{a + 2}, {a + 4}+"
        return r.choice(["next", "next+", "last", "last+", "next+", "last+"])

    def style(self):
        r = self.r
        if r.random() < 0.1:
            # an object of the user that several decks are given
            return dict(r.choice(SHARED_STYLES))
        s = {}
        if r.random() < 0.5:
            s["size"] = r.choice([10, 14, 20, 33, 48])
        if r.random() < 0.5:
            s["color"] = self.color()
        if r.random() < 0.3:
            s["bold"] = r.random() < 0.5
        if r.random() < 0.3:
            s["italic"] = r.random() < 0.5
        if r.random() < 0.3:
            s["align"] = r.choice(["left", "middle", "right"])
        if r.random() < 0.2:
            s["font"] = r.choice(["serif", "monospace", "DejaVu"])
        if r.random() < 0.2:
            s["line_spacing"] = r.choice([1.0, 1.5])
        if r.random() < 0.3 * self.f["rich"]:
            s["opacity"] = r.choice([0, 0.25, 1])
        if r.random() < 0.3 * self.f["pri"]:
            s["priority"] = r.choice([-1, 0, 3])
        if r.random() < 0.2 * self.f["rich"]:
            s["variant_numeric"] = r.choice(["normal", "tabular-nums"])
        return s

    def box_args(self, sl, managed=True):
        r = self.r
        kw = {}
        sel = self.selector()
        if sel is not None:
            kw["show"] = sel
        if r.random() < 0.25:
            kw["width"] = r.choice(["fill", "50%", 120, "fill(2)", "100%", 60, "90", 70.5])
        if r.random() < 0.25:
            kw["height"] = r.choice(["fill", "30%", 80, 40, "fill(2)"])
        if r.random() < 0.15:
            kw["x"] = r.choice([0, 20, "10%", "[0%]", "[50%]", "[100%]", "15", 2.5, -10])
        if r.random() < 0.15:
            kw["y"] = r.choice([0, 35, "20%", "[0%]", "[50%]", "[100%]", "40", 0.5, -5])
        if r.random() < 0.2:
            kw[r.choice(["padding", "p_left", "p_top", "p_x", "p_y", "p_right", "p_bottom"])] = \
                r.randint(1, 20)
        if r.random() < 0.2:
            kw["horizontal"] = True
        if self.f["z"] and r.random() < 0.12 * self.f["z"]:
            kw["z_level"] = r.choice([-2, -1, 0, 1, 2, 5, 0.5, 0.25, -0.5, 1.5, 10, 1000])
        if r.random() < 0.1:
            kw["name"] = self.id("n")
        return kw

    def lazy_refs(self, sl, p):
        """Boxes whose position is known when a new last child of `p` is laid out."""
        par = sl["parent"]
        anc, b = set(), p
        while b is not None:
            anc.add(b)
            b = par.get(b)
        out = []
        for x in sl["boxes"]:
            b = x
            while b is not None and b != p:
                b = par.get(b)
            if x in anc or b == p:
                out.append(x)
        return out

    def add_lazy(self, sl, p, kw):
        r = self.r
        if self.f["lazy"] and r.random() < 0.15 * self.f["lazy"]:
            refs = self.lazy_refs(sl, p)
            ax = r.choice("xy")
            kw[ax] = {"of": r.choice(refs), "axis": ax,
                      "at": r.choice([0, 10, "50%", "100%", "[50%]", "8"])}
            if r.random() < 0.4:
                kw[ax]["add"] = r.randint(-20, 20)

    # -- slides
    def slide(self, name=None, **extra):
        r = self.r
        sid = self.id("s")
        op = {"op": "slide", "id": sid}
        if name is not None:
            op["name"] = name
        if r.random() < self.f["bg"] * 0.5:
            op["bg"] = self.color()
        if r.random() < self.f["vb"] * 0.5:
            op["vb"] = [0, 0, r.choice([300, 640]), r.choice([200, 480])]
            if r.random() < self.f["rich"]:
                op["vb"][:2] = r.choice([-20, 30, 0.5]), r.choice([-10, 0, 40])
        if r.random() < self.f["debug_boxes"] * 0.5:
            op["dbg"] = True
        op.update(extra)
        self.slides.append(
            {"id": sid, "boxes": [sid], "texts": [], "lists": [], "kids": {sid: []},
             "parent": {sid: None}, "styles": ["default", "tt", "emph", "alert"] + self.deck_styles}
        )
        return op

    def content(self, sl=None):
        """One building operation on a slide."""
        r = self.r
        sl = sl or r.choice(self.slides)
        f = self.f
        kinds = [("box", f["nested"]), ("text", f["text"]), ("code", f["code"] * 0.6),
                 ("shape", f["shapes"]), ("points", f["points"]), ("styles", f["styles"]),
                 ("latex", f["latex"] * 0.7), ("list", f["lists"] * 0.6), ("md", f["md"] * 0.5),
                 ("todo", f["todo"] * 0.4)]
        if sl["texts"]:
            kinds += [("line_box", f["line_box"]), ("inline_box", f["inline_box"])]
        if sl["lists"]:
            kinds += [("item", f["lists"] * 2), ("sub", f["lists"] * 0.6)]
        if self.assets:
            kinds += [("image", (f["image"] + f["ora"] + f["bitmap"]) * 0.6)]
        kinds = [k for k in kinds if k[1] > 0]
        what = r.choices([k for k, _ in kinds], [w for _, w in kinds])[0]
        return getattr(self, "g_" + what)(sl)

    def parent(self, sl):
        b = sl["boxes"]
        if len(b) > 3 and self.r.random() < 0.6:
            return self.r.choice(b[-3:])
        return self.r.choice(b)

    def can_fit(self, sl, p):
        """Whether a text scaled to the box has to show ("fitsafe": not when the box may be flat)."""
        if not self.f.get("fitsafe") or p == sl["id"]:
            return True
        kw = self.sized.get(p)
        return kw is not None and all(
            kw.get(k) is None or (isinstance(kw[k], int) and kw[k] >= 60)
            for k in ("width", "height")) and not any(k.startswith("p") for k in kw)

    def g_box(self, sl):
        r = self.r
        p = self.parent(sl)
        bid = self.id("b")
        kw = self.box_args(sl)
        how = r.choices(["box", "sbox", "fbox", "overlay"],
                        [6, 1, 1, self.f["overlay"]])[0]
        if how != "box":
            for c in ("width", "height", "x", "y"):
                if r.random() < 0.7:
                    kw.pop(c, None)
        kids = sl["kids"].setdefault(p, [])
        if self.f["place"] and kids and r.random() < 0.25 * self.f["place"]:
            k = r.randrange(3)
            if k == 0:
                kw["prepend"] = True
            else:
                kw["above" if k == 1 else "below"] = r.choice(kids)
        if not any(k in kw for k in ("prepend", "above", "below")):
            self.add_lazy(sl, p, kw)
        elif self.f.get("fwd") and r.random() < self.f["fwd"]:
            # refers to a box that is laid out after it: no page can be made
            ax = r.choice("xy")
            kw[ax] = {"of": r.choice(sl["boxes"]), "axis": ax, "at": r.choice([0, "50%"])}
        kids.append(bid)
        sl["boxes"].append(bid)
        sl["parent"][bid] = p
        sl["kids"][bid] = []
        self.sized[bid] = kw if how == "box" else None
        op = {"op": "box", "p": p, "id": bid, "kw": kw}
        if how != "box":
            op["how"] = how
        return op

    def g_text(self, sl):
        r = self.r
        p = self.parent(sl)
        tid = self.id("t")
        words = [self.tok()]
        inl = []
        for _ in range(r.randint(0, 3)):
            k = r.random()
            w = self.tok()
            if k < 0.3:
                st = r.choice([s for s in sl["styles"] if s != "default"] + ["#x", "#y"])
                words.append("~%s{%s}" % (st, w))
                inl.append(st)
            else:
                words.append(w)
        text = "".join(w + r.choice([" ", " ", "\n", "\n\n"]) for w in words).rstrip()
        near = self.f["near"] and r.random() < self.f["near"]
        if near:
            # few families of texts and few styles, so that they meet
            self.family = getattr(self, "family", None) or r.choice(NEAR)
            text = r.choice(self.family if r.random() < 0.8 else r.choice(NEAR))
            inl = [x for x in ("emph", "tt") if text.count("~%s{" % x)]
        op = {"op": "text", "p": p, "id": tid, "text": text}
        if near:
            if r.random() < 0.25:
                op["style"] = {"size": r.choice([10, 10.5, 100, 28, 28.0])}
            elif r.random() < 0.35:
                op["style"] = r.choice([{"bold": True}, {"italic": True}, {"font": "monospace"},
                                        {"color": "red"}, {"line_spacing": 2.0}, {"bold": False}])
        elif r.random() < 0.3:
            op["style"] = r.choice(sl["styles"]) if r.random() < 0.6 else self.style()
        if self.f["fit"] and r.random() < 0.2 and self.can_fit(sl, p):
            op["fit"] = True
        if r.random() < 0.08:
            op["rot"] = r.choice([10, 45, 90])
        if not near and r.random() < 0.3 * self.f["rich"]:
            op["esc"] = r.choice(["!", "%", "$<>", "@[]", "~()"])
        sl["texts"].append((tid, text.count("\n") + 1, inl))
        sl["parent"][tid] = p
        sl["kids"].setdefault(p, []).append(tid)
        return op

    def g_code(self, sl):
        r = self.r
        p = self.parent(sl)
        tid = self.id("t")
        lang = r.choice(["python", "c", "", "rust"])
        us = r.random() < 0.4
        a, b, c = self.tok(), self.tok(), self.tok()
        text = {"python": f"def {a}(x):\n    {b} = 1\n\n    return {c}",
                "c": f"int {a}() {{\n  return {b} + {c};\n}}" if not us else f"int {a};\nint {b};\n{c}",
                "": f"{a}\n{b} {c}", "rust": f"fn {a}() \nlet {b} = {c};"}[lang]
        inl = []
        if us:
            text = text.replace(b, "~emph{" + b + "}")
            inl = ["emph"]
        if r.random() < 0.3 * self.f["again"]:
            # the same snippet as before
            old = [t for t in self.snippets if t[:2] == (lang, us)]
            if old:
                text, inl = r.choice(old)[2:]
        else:
            if us and r.random() < 0.4:
                text = r.choice(["\n", "\n\n"]) + text
            self.snippets.append((lang, us, text, inl))
        op = {"op": "code", "p": p, "id": tid, "lang": lang, "text": text, "us": us}
        if r.random() < 0.3:
            op["ln"] = True
        if r.random() < self.f["rich"]:
            kw = op["kw"] = {}
            if r.random() < 0.4:
                op["text"] = text = text.replace("\n", "\n\t", 1).replace("  ", "\t")
                if r.random() < 0.6:
                    kw["tabsize"] = r.choice([1, 2, 8])
            if us and lang in ("", "python") and r.random() < 0.4:
                kw["escape_char"] = r.choice(["!", "$<>", "@[]"])
            if r.random() < 0.2:
                kw["rotation"] = r.choice([10, 90])
            if r.random() < 0.2:
                op["style"] = r.choice(["tt", {"size": r.choice([9, 31])}])
        if self.f["fit"] and r.random() < 0.15 and self.can_fit(sl, p):
            op["fit"] = True
        sl["texts"].append((tid, text.count("\n") + 1, inl))
        sl["parent"][tid] = p
        sl["kids"].setdefault(p, []).append(tid)
        return op

    def g_line_box(self, sl):
        r = self.r
        t, lines, _ = r.choice(sl["texts"])
        bid = self.id("b")
        sel = self.selector()
        op = {"op": "line_box", "t": t, "id": bid, "idx": r.randrange(lines),
              "n": r.randint(1, 3) if r.random() < self.f["rich"] else 1,
              "kw": self.part_args({"show": sel} if sel is not None else {})}
        self.place_part(sl, t, op)
        sl["boxes"].append(bid)
        sl["parent"][bid] = sl["parent"][t]
        return op

    def g_inline_box(self, sl):
        r = self.r
        cands = [(t, s) for t, _, inl in sl["texts"] for s in inl]
        if not cands:
            return self.g_text(sl)
        t, s = r.choice(cands)
        bid = self.id("b")
        sel = self.selector()
        op = {"op": "inline_box", "t": t, "id": bid, "style": s,
              "kw": self.part_args({"show": sel} if sel is not None else {})}
        n = next(inl for x, _, inl in sl["texts"] if x == t).count(s)
        if n > 1 and r.random() < 0.7:
            op["nth"] = r.randint(1, n)
        self.place_part(sl, t, op)
        sl["boxes"].append(bid)
        sl["parent"][bid] = sl["parent"][t]
        return op

    def part_args(self, kw):
        """Arguments of a box around a part of a text."""
        r = self.r
        if r.random() < 0.4 * self.f["rich"]:
            kw.update(r.choice([{"padding": 2}, {"p_left": 5}, {"x": 3}, {"width": 40},
                                {"y": "10%"}, {"horizontal": True}, {"height": 12}]))
        if self.f["z"] and r.random() < 0.3 * self.f["z"]:
            kw["z_level"] = r.choice([-1, 0, 1, 2])
        return kw

    def place_part(self, sl, t, op):
        """It is a child of the box of the text, at any place among its children."""
        r = self.r
        p = sl["parent"][t]
        kids = sl["kids"].setdefault(p, [])
        if self.f["place"] and kids and r.random() < 0.4 * self.f["place"]:
            k = r.randrange(4)
            if k == 0:
                op["kw"]["prepend"] = True
            else:
                op["kw"]["above" if k == 1 else "below"] = t if t in kids else r.choice(kids)
        kids.append(op["id"])
        sl["kids"][op["id"]] = []

    def arrow(self):
        r = self.r
        if r.random() >= self.f["rich"]:
            return 10
        a = {"size": r.choice([5, 10, 12.5])}
        if r.random() < 0.4:
            a["angle"] = r.choice([20, 60])
        if r.random() < 0.3:
            a["stroke_width"] = r.choice([1, 3])
        if r.random() < 0.3:
            a["inner"] = r.choice([0.5, 1.0, 1.5])
        if r.random() < 0.5:
            # few objects, which are passed again and again
            self.arrows = getattr(self, "arrows", [])
            if self.arrows and r.random() < 0.7:
                return dict(r.choice(self.arrows))
            if r.random() < 0.5:
                # objects that other decks have, too
                i = r.randrange(2)
                a = dict([{"size": 10}, {"size": 12.5, "angle": 60, "inner": 0.5}][i], obj="A%d" % i)
            else:
                a["obj"] = self.id("a")
            self.arrows.append(a)
        return a

    def color(self):
        """A colour that nothing else of this program has."""
        self.ncol += 1
        return "#%06x" % (self.ncol * 0x9e377 % 0xffffff)

    def g_shape(self, sl):
        r = self.r
        p = self.parent(sl)
        iid = self.id("i")
        kw = {"color": self.color(), "bg_color": self.color()}
        if r.random() < 0.2:
            kw["rotation"] = r.choice([15, 30])
        sl["kids"].setdefault(p, []).append(iid)
        what = r.choice(["rect", "rect", "ellipse"])
        self.stroke(kw)
        if what == "rect" and r.random() < 0.4 * self.f["rich"]:
            kw[r.choice(["rx", "ry"])] = r.choice([0, 3, 20])
        return {"op": what, "p": p, "id": iid, "kw": kw}

    def stroke(self, kw):
        r = self.r
        if r.random() < 0.4 * self.f["rich"]:
            kw["stroke_width"] = r.choice([0, 0.5, 2, 10])
        if r.random() < 0.3 * self.f["rich"]:
            kw["stroke_dasharray"] = r.choice(["4", "5 2", "10 3 2"])

    def pt(self, sl):
        r = self.r
        if r.random() < 0.5 * bool(self.f["lazy"]):
            b = r.choice(sl["boxes"])
            if r.random() < 0.3:
                return {"of": b, "mid": True}
            d = {"of": b, "x": r.choice([0, 5, "50%", "100%"]), "y": r.choice([0, "50%", "100%"])}
            if r.random() < 0.3:
                d["add"] = [r.randint(-9, 9), r.randint(-9, 9)]
            return d
        return [r.choice([0, 10, 30, "25%", "100%"]), r.choice([0, 10, 30, "75%", "100%"])]

    def g_points(self, sl):
        r = self.r
        p = self.parent(sl)
        iid = self.id("i")
        k = r.randrange(3)
        sl["kids"].setdefault(p, []).append(iid)
        if k == 0:
            kw = {"color": self.color(), "bg_color": self.color()}
            self.stroke(kw)
            if r.random() < 0.4 * self.f["rich"]:
                kw["rotation"] = r.choice([15, 200])
            return {"op": "polygon", "p": p, "id": iid,
                    "points": [self.pt(sl) for _ in range(r.randint(3, 5))], "kw": kw}
        if k == 1:
            kw = {"color": self.color(), "stroke_width": r.randint(1, 4)}
            if r.random() < 0.4:
                for a in r.choice([["end_arrow"], ["start_arrow"], ["start_arrow", "end_arrow"]]):
                    kw[a] = self.arrow()
            # arrows need distinct end points
            pts = [[r.randint(0, 50), 0], [r.randint(60, 99), 33]] if len(kw) > 2 else [
                self.pt(sl) for _ in range(r.randint(2, 4))]
            return {"op": "line", "p": p, "id": iid, "points": pts, "kw": kw}
        kw = {"color": self.color()}
        if r.random() < 0.3:
            kw["stroke_width"] = r.randint(1, 4)
        if r.random() < 0.4:
            kw["end_arrow"] = self.arrow()
            f = r.choice([int, float])
            pts = [[f(r.randint(0, 30)), f(r.randint(0, 30))],
                   [f(r.randint(40, 60)), f(r.randint(0, 30))],
                   [f(r.randint(70, 90)), f(r.randint(40, 60))],
                   [f(r.randint(100, 120)), f(r.randint(0, 30))]]
        else:
            pts = [self.pt(sl) for _ in range(4)]
        cmds = [["M", pts[0]], ["L", pts[1]], ["Q", pts[2], pts[3]]]
        if r.random() < self.f["rich"]:
            a, b, c, d = pts
            cmds = r.choice([
                [["M", a], ["C", b, c, d]], [["M", a], ["Q", b, c], ["T", d]],
                [["M", a], ["C", a, b, c], ["S", b, d]], [["M", a], ["T", b, c, d]],
                [["M", a], ["L", b], ["M", c], ["S", a, d]], [["M", a], ["Q", b, c, a, d]],
                [["M", a], ["S", b, c, a, d]]])
            if "end_arrow" not in kw and r.random() < 0.4:
                cmds.append(["L", a])
            if r.random() < 0.4:
                kw["bg_color"] = self.color()
            if r.random() < 0.3:
                kw["stroke_dasharray"] = r.choice(["4", "5 2"])
        return {"op": "path", "p": p, "id": iid, "cmds": cmds, "kw": kw}

    def g_image(self, sl):
        r = self.r
        f = self.f
        w = {"svg": f["image"], "ora": f["ora"], "png": f["bitmap"], "jpg": f["bitmap"] * 0.5}
        cands = [(a, w.get(a.rsplit(".", 1)[1], 0)) for a in self.assets]
        cands = [(a, x) for a, x in cands if x > 0]
        if not cands:
            return self.g_box(sl)
        a = r.choices([c for c, _ in cands], [x for _, x in cands])[0]
        p = self.parent(sl)
        iid = self.id("i")
        kind = a.rsplit(".", 1)[1]
        kw = {}
        if r.random() < 0.5:
            kw["scale"] = r.choice([0.5, 1.0, 2.0])
        if r.random() < 0.4 * self.f["rich"]:
            kw["rotation"] = r.choice([15, 90])
        how = "file"
        if kind in ("svg", "ora"):
            if self.f["frags"] and r.random() < 0.4:
                k = r.randrange(3)
                if k == 0:
                    kw["show_begin"] = r.randint(1, 3)
                elif k == 1:
                    kw["select_fragments"] = [r.choice([1, 2, 3, None])
                                              for _ in range(r.randint(1, 3))]
                else:
                    kw["fragments"] = False
            if not self.f["frags"]:
                kw["fragments"] = False
        elif self.f["stream"] and r.random() < 0.4:
            how = r.choice(["bytes", "stream"])
        sl["kids"].setdefault(p, []).append(iid)
        return {"op": "image", "p": p, "id": iid, "asset": a, "kw": kw, "how": how}

    def g_latex(self, sl):
        r = self.r
        p = self.parent(sl)
        iid = self.id("i")
        sl["kids"].setdefault(p, []).append(iid)
        if self.snippet and r.random() < 0.3:  # the same once more, maybe in another size
            return dict(self.snippet, p=p, id=iid, scale=r.choice([1.0, 2.0, 0.5]))
        self.snippet = {"op": "latex", "p": p, "id": iid,
                        "text": r.choice(LATEX) % r.randrange(self.f.get("latex_pool", 6)),
                        "scale": r.choice([1.0, 2.0]), **latex_frame(r)}
        return self.snippet

    def list_args(self, kw, show, what):
        """Arguments of list rows: they hold for one item, or for a list and all that is in it."""
        r = self.r
        if self.f["frags"] and r.random() < show:
            kw["show"] = r.choice(["next+", "last+", "1+", "next+", "last", "2"])
        if r.random() < 0.15:
            kw[r.choice(["padding", "p_top", "p_bottom", "p_y", "p_right"])] = r.randint(1, 12)
            if "padding" in kw and what != "item":
                del kw["padding"]
        if self.f["z"] and r.random() < 0.12 * self.f["z"]:
            kw["z_level"] = r.choice([-1, 0, 1, 3, 0.5, -0.25])
        if r.random() < 0.1 and what != "sub":
            kw["label_padding"] = r.choice([0, 5, 60])
        if r.random() < 0.1 and what != "item":
            kw["indent"] = r.choice([0, 4, 30])

    def g_list(self, sl):
        r = self.r
        lid = self.id("l")
        kind = r.choice(["ul", "ol"])
        kw = {}
        if kind == "ol" and r.random() < 0.4:
            kw["start"] = r.randint(1, 9)
        if r.random() < 0.2:
            kw["label"] = {"fn": "steps" if r.random() < self.f["lfn"] else "roman"}
        self.list_args(kw, 0.3, "list")
        sl["lists"].append((lid, kind))
        p = self.parent(sl)
        sl["parent"][lid] = p
        return {"op": "list", "p": p, "id": lid, "kind": kind, "kw": kw}

    def some_list(self, sl):
        return sl["lists"][-1] if self.r.random() < self.f["deep"] else self.r.choice(sl["lists"])

    def g_item(self, sl):
        r = self.r
        lid, _ = self.some_list(sl)
        bid = self.id("b")
        kw = {}
        self.list_args(kw, 0.25, "item")
        op = {"op": "item", "l": lid, "id": bid, "kw": kw, "text": self.tok()}
        sl["boxes"].append(bid)
        sl["parent"][bid] = sl["parent"][lid]
        return op

    def g_sub(self, sl):
        r = self.r
        lid, _ = self.some_list(sl)
        nid = self.id("l")
        kind = r.choice(["ul", "ol"])
        kw = {}
        if kind == "ol":
            if r.random() < 0.4:
                kw["start"] = r.randint(1, 9)
            if r.random() < 0.2:
                kw["level"] = [r.randint(1, 9) for _ in range(r.randint(0, 2))]
        self.list_args(kw, 0.2, "sub")
        sl["lists"].append((nid, kind))
        sl["parent"][nid] = sl["parent"][lid]
        return {"op": "sub", "l": lid, "id": nid, "kind": kind, "kw": kw}

    def g_md(self, sl):
        r = self.r
        a, b, c = self.tok(), self.tok(), self.tok()
        text = r.choice([f"# {a}\n\n{b} *{c}*", f"- {a}\n- {b}\n  1. {c}", f"1. {a}\n2. {b}\n\n{c}",
                         f"> {a}\n\n**{b}** {c}",
                         f"## {a}\n\n```python\ndef {b}():\n    return {c}\n```",
                         f"1. {a}\n\n   {b}\n3. {c}\n   - {a}", f"* {a} [{b}](http://x) {c}",
                         f"  {a}\n  {b}\n\n  {c}", f"> - {a}\n> - ~tt{{{b}}}\n\n### {c}",
                         f"{a}  \n{b}\n{c}", f"5. {a}\n6. {b}\n\n1. {c}"])
        op = {"op": "md", "p": self.parent(sl), "text": text}
        if r.random() < 0.4:
            op["esc"] = r.choice(["!", "@", "%"])
        return op

    def g_todo(self, sl):
        return {"op": "todo", "p": self.parent(sl), "name": self.r.choice([None, self.tok()])}

    def g_styles(self, sl):
        r = self.r
        if r.random() < self.f["hl"]:
            return {"op": "style", "on": self.parent(sl), "name": r.choice(HIGHLIGHT),
                    "style": self.style(), "what": r.choice(["update", "update", "set"])}
        name = r.choice(sl["styles"] + ["my1", "my2"])
        op = {"op": "style", "on": self.parent(sl), "name": name, "style": self.style()}
        if name in sl["styles"] and r.random() < 0.6:
            op["what"] = "update"
        else:
            op["what"] = "set"
            if name == "default":
                op["what"] = "update"
        # the name is only surely defined on that box and later descendants of it
        return op

    def g_deck_style(self):
        r = self.r
        if r.random() < self.f["hl"]:
            return {"op": "style", "on": "deck", "name": r.choice(HIGHLIGHT),
                    "style": self.style(), "what": r.choice(["update", "update", "set"])}
        name = r.choice(["default", "emph", "tt", "dk1", "dk2"])
        what = "update" if name in ("default", "emph", "tt") else "set"
        if what == "set":
            self.deck_styles.append(name)
        return {"op": "style", "on": "deck", "name": name, "what": what, "style": self.style()}
