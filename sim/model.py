"""An independent model of decks: fragments, visibility, paint order, styles, list labels.

It is fed with the building operations of a deck program (the same plain data that drives the
real API) and shares no code with elsie.  Positions are not modelled.
"""
import hashlib
import re

from . import assets

TOKEN = re.compile(r"t[kq]\d+z")
IMG_TOKEN = re.compile(r"A[a-z0-9]+v\d+p\d+")
SEL = re.compile(r"^(\d+|next|last)(?:(\+)|-(\d+))?$")
SVGNS = "{http://www.w3.org/2000/svg}"
XLINK = "{http://www.w3.org/1999/xlink}"

BASE_STYLES = {
    "default": {"font": "sans-serif", "color": "black", "size": 28, "line_spacing": 1.2,
                "align": "middle", "variant_numeric": "lining-nums"},
    "tt": {"font": "monospace"},
    "emph": {"italic": True},
    "alert": {"bold": True, "color": "red"},
    "code": {"font": "monospace", "align": "left", "color": "#222", "line_spacing": 1.2,
             "size": 20},
    "code_lineno": {"color": "gray"},
}
OPAQUE = {"md", "todo"}


class Unknown(Exception):
    """The model does not know this (named style, handle, ...): the real API has to raise."""


class Opaque(Exception):
    """Outside of the model: nothing is claimed about this slide any more."""


class Sel:
    """A fragment selector: fixed fragments and an open end."""

    __slots__ = ("steps", "open")

    def __init__(self, steps=(), open_=None):
        self.steps = frozenset(steps)
        self.open = open_

    @classmethod
    def parse(cls, spec, last):
        if spec is None:
            return cls((), 1)
        if isinstance(spec, int):
            return cls((spec,))
        steps, open_ = set(), None
        for part in spec.split(","):
            m = SEL.match(part.strip())
            if m is None:
                raise Unknown("selector " + repr(spec))
            a = m.group(1)
            a = last if a == "last" else last + 1 if a == "next" else int(a)
            if m.group(2):
                if open_ is not None:
                    raise Unknown("selector " + repr(spec))
                open_ = a
            else:
                b = int(m.group(3)) if m.group(3) else a
                if b < a:
                    raise Unknown("selector " + repr(spec))
                steps.update(range(a, b + 1))
        return cls(steps, open_)

    @property
    def top(self):
        return max(list(self.steps) + [self.open or 1, 1])

    def shows(self, n):
        return n in self.steps or (self.open is not None and self.open <= n)


class Box:
    def __init__(self, slide, parent, sel, z, styles):
        self.slide = slide
        self.parent = parent
        self.sel = sel
        self.z = z
        self.styles = styles
        self.kids = []

    def box(self, kw=None, **over):
        kw = dict(kw or {}, **over)
        s = self.slide
        sel = Sel.parse(kw.get("show"), s.last)
        above, below = kw.get("above"), kw.get("below")
        if (above is not None and below is not None) or (
                (above is not None and above not in self.kids)
                or (below is not None and below not in self.kids)):
            raise Unknown("placement")
        s.last = max(s.last, sel.top)
        z = kw.get("z_level")
        b = Box(s, self, sel, self.z if z is None else z, self.styles)
        s.boxes.append(b)
        if below is not None:
            self.kids.insert(self.kids.index(below), b)
        elif above is not None:
            self.kids.insert(self.kids.index(above) + 1, b)
        elif kw.get("prepend"):
            self.kids.insert(0, b)
        else:
            self.kids.append(b)
        return b

    def item(self, **kw):
        it = Item(self, **kw)
        self.kids.append(it)
        return it

    def style(self, spec):
        """Full style of a name or of a style given directly."""
        if isinstance(spec, str):
            if spec not in self.styles:
                raise Unknown("style " + spec)
            spec = self.styles[spec]
        return overlay(self.styles["default"], plain(spec))

    def visible(self, n):
        b = self
        while b is not None:
            if not b.sel.shows(n):
                return False
            b = b.parent
        return True


class Item:
    def __init__(self, box, kind, key=None, style=None, inline=None, parts=None,
                 source=None):
        self.source = source  # the text as given
        self.box = box
        self.z = box.z
        self.kind = kind
        self.key = key
        self.style = style
        self.inline = inline or {}
        self.parts = parts

    def fact(self, n):
        """What this item shows in fragment n (None: nothing)."""
        if self.parts is not None:
            return self.parts(n)
        return self.key


def plain(spec):
    """The attributes that a style given as data sets."""
    return {k: v for k, v in (spec or {}).items() if v is not None and k != "obj"}


def overlay(base, top):
    out = dict(base)
    out.update({k: v for k, v in top.items() if v is not None})
    return out


class Builder:
    def __init__(self, parent, label, args, level=None, start=1, pad=25):
        self.parent = parent
        self.label = label
        self.args = dict(args)
        self.args.setdefault("show", "last+")
        self.level = list(level or []) + [start - 1]


def label_text(label, level):
    if label == "ol":
        return ".".join(str(v) for v in level) + "."
    if isinstance(label, dict):
        return "R" + "/".join(str(v) for v in level)
    return label


class Slide:
    def __init__(self, sid, deck, name):
        self.id = sid
        self.deck = deck
        self.name = name
        self.last = 1
        self.least = []  # minimal numbers of fragments that images demand
        self.boxes = []
        self.root = Box(self, None, Sel((), 1), 0, dict(deck.styles))
        self.boxes.append(self.root)
        self.opaque = False
        self.debug = False

    def steps(self):
        return max([b.sel.top for b in self.boxes] + self.least + [1])

    def page(self, n):
        """Items painted in fragment n, in order."""
        out = []

        def walk(b):
            if not b.sel.shows(n):
                return
            for kid in b.kids:
                if isinstance(kid, Box):
                    walk(kid)
                else:
                    key = kid.fact(n)
                    if key is not None:
                        out.append((kid.z, key, kid))

        walk(self.root)
        out.sort(key=lambda x: x[0])
        return [(key, it) for _, key, it in out]


THEME_NAMES = ["Token.Keyword", "Token.Name.Function", "Token.Literal.Number", "Token.Name"]
THEMES = {}


def theme_styles(theme):
    """What pygments says about some kinds of words of highlighted code."""
    if theme not in THEMES:
        from pygments.styles import get_style_by_name

        THEMES[theme] = out = {}
        for token, s in get_style_by_name(theme):
            if str(token) in THEME_NAMES:
                st = {"color": "#" + s["color"]} if s["color"] else {}
                out["pygments-" + str(token)] = dict(
                    st, **{k: True for k in ("bold", "italic") if s[k]})
    return {k: dict(v) for k, v in THEMES[theme].items()}


class Deck:
    def __init__(self, kw=None, notebook=False):
        kw = kw or {}
        self.styles = {k: dict(v) for k, v in BASE_STYLES.items()}
        self.styles.update(theme_styles(kw.get("pygments_theme", "default")))
        self.bg = kw.get("bg_color")
        policy = kw.get("name_policy", "auto")
        self.policy = ("replace" if notebook else "ignore") if policy == "auto" else policy
        self.h = {}
        self.slides = {}
        self.order = []  # Slide or ("pdf", asset)
        self.values = {}

    # -- names
    def admits(self, name):
        if self.policy == "ignore":
            return True
        if name is None:
            return self.policy == "unique"
        if not isinstance(name, str):
            return False
        if self.policy == "unique":
            return not any(isinstance(s, Slide) and s.name == name for s in self.order)
        return True

    def new_slide(self, op):
        name = op.get("name")
        if op.get("how") == "deco" and name is None:
            name = op.get("fname") or "fn"
        if not self.admits(name):
            raise Unknown("name")
        s = Slide(op["id"], self, name)
        if self.policy == "replace":
            self.order = [x for x in self.order if not (isinstance(x, Slide) and x.name == name)]
        self.order.append(s)
        self.slides[s.id] = s
        self.h[s.id] = s.root
        s.debug = bool(op.get("dbg"))
        bg = op.get("bg") or self.bg
        if bg:
            s.root.box(z_level=-1000000).item(kind="shape", key=("shape", bg))
        return s

    # -- operations
    def get(self, ref):
        if ref not in self.h:
            raise Unknown("handle " + str(ref))
        return self.h[ref]

    def boxof(self, ref):
        x = self.get(ref)
        return x.box if isinstance(x, Item) else x

    def kw(self, kw):
        kw = dict(kw or {})
        for rel in ("above", "below"):
            if kw.get(rel) is not None:
                kw[rel] = self.get(kw[rel])
        return kw

    def inline_styles(self, box, text):
        """{token: style names around it}; names that do not exist are an error."""
        out = {}
        stack = []
        pos = 0
        for m in re.finditer(r"~([\w#-]+)\{|\}|(t[kq]\d+z)", text):
            if m.group(1):
                name = m.group(1)
                if not name.startswith("#") and name not in box.styles:
                    raise Unknown("style " + name)
                stack.append(name)
            elif m.group(2):
                out[m.group(2)] = [box.styles.get(s) for s in stack]
            elif stack:
                stack.pop()
            pos = m.end()
        return out

    def apply(self, op, versions=None):
        o = op["op"]
        versions = versions or {}
        res = None
        if o == "slide":
            self.new_slide(op)
            return
        if o == "pdf":
            self.order.append(("pdf", op["asset"]))
            return
        if o == "lookup":
            found = [s for s in self.order if isinstance(s, Slide) and s.name == op["name"]]
            self.values[op.get("id")] = found
            return
        if o == "style":
            self.set_style(op)
            return
        if o == "frag":
            self.values[op["id"]] = self.boxof(op["p"]).slide.last
            return
        if o == "hasstyle":
            box = self if op["on"] == "deck" else self.boxof(op["on"])
            self.values[op["id"]] = op["name"] in box.styles
            return
        if o == "getstyle":
            box = self if op["on"] == "deck" else self.boxof(op["on"])
            if "name" not in op:
                st = plain(op["style"])
            elif op["name"] not in box.styles:
                raise Unknown("style")
            else:
                st = dict(box.styles[op["name"]])
            if op.get("full") and op.get("name") != "default":
                st = overlay(box.styles["default"], st)
            self.values[op["id"]] = st
            return
        if o in ("point", "coord"):
            return
        if o in ("line_box", "inline_box"):
            it = self.get(op["t"])
            res = it.box.box(self.kw(op.get("kw")))
        elif o in ("list", "sub", "item"):
            res = self.list_op(op)
        else:
            box = self.boxof(op["p"])
            if o in OPAQUE:
                box.slide.opaque = True
                return
            if o == "box":
                res = box.box(self.kw(op.get("kw")))
            elif o == "text":
                st = box.style(op.get("style", "default"))
                inl = self.inline_styles(box, op["text"])
                res = box.item(kind="text", key=("text",) + tuple(TOKEN.findall(op["text"])),
                               style=st, inline=inl, source=op["text"])
            elif o == "code":
                st = box.style(op.get("style", "code"))
                res = box.item(kind="code", key=("text",) + tuple(TOKEN.findall(op["text"])),
                               style=st)
            elif o in ("rect", "ellipse", "polygon", "line", "path"):
                kw = op.get("kw", {})
                c = kw.get("color") or kw.get("bg_color")
                if c is None and o in ("line", "path"):
                    c = "black"
                res = box.item(kind="shape", key=("shape", c))
            elif o == "latex":
                m = re.search(r"x_\{(\d+)\}", op["text"])
                key = m.group(1)
                for what, pat in (("header", r"HDR\{(\d)\}"), ("tail", r"TAIL\{(\d)\}")):
                    f = re.search(pat, op.get(what) or "")
                    key += what[0] + f.group(1) if f else ""
                res = box.item(kind="tex", key=("tex", key))
            elif o == "image":
                res = self.image(box, op, versions)
            else:
                raise Opaque(o)
        if op.get("id") and res is not None:
            self.h[op["id"]] = res

    def image(self, box, op, versions):
        a = op["asset"]
        v = versions.get(a, 1)
        if isinstance(v, list):
            v = v[0]
        kind = a.rsplit(".", 1)[1]
        kw = op.get("kw", {})
        if kind in ("png", "jpg", "jpeg"):
            sha = hashlib.sha1(assets.make(a, v)).hexdigest()[:12]
            return box.item(kind="bmp", key=("bmp", sha))
        layers = [Sel.parse(x, None) for x in assets.svg_layers(a)]
        begin = kw.get("show_begin", 1)
        chosen = kw.get("select_fragments")
        if chosen is not None:
            steps = len(chosen)
        elif kw.get("fragments", True):
            steps = max([x.top for x in layers] + [1])
        else:
            steps = 1
        s = box.slide
        s.last = max(s.last, begin - 1 + steps)
        s.least.append(begin - 1 + steps)
        tok = lambda i: assets.token(a, v, i)
        whole = steps == 1 and not chosen

        def parts(n):
            k = n - begin + 1
            if k < 1:
                return None
            if whole:
                return ("img",) + tuple(tok(i) for i in range(len(layers) + 1))
            if chosen is not None:
                if k > len(chosen) or chosen[k - 1] is None:
                    return None
                k = chosen[k - 1]
            return ("img", tok(0)) + tuple(
                tok(i + 1) for i, x in enumerate(layers) if x.shows(k))

        return box.item(kind="img", parts=parts)

    def list_op(self, op):
        o = op["op"]
        kw = dict(op.get("kw", {}))
        default = {"ol": "ol", "ul": "•"}.get(op.get("kind"))
        if o == "list":
            label = kw.pop("label", None) or default
            start = kw.pop("start", 1)
            box = self.boxof(op["p"]).box({})
            return Builder(box, label, kw, None, start)
        lst = self.get(op["l"])
        if not isinstance(lst, Builder):
            raise Unknown("list")
        if o == "sub":
            label = kw.pop("label", None) or default
            start = kw.pop("start", 1)
            level = kw.pop("level", None)
            box = lst.parent.box(dict(lst.args, **kw))
            return Builder(box, label, dict(lst.args, **kw),
                           lst.level if level is None else level, start)
        label = kw.pop("label", None)
        label = lst.label if label is None else label
        row = lst.parent.box(dict(lst.args, **kw))
        lst.level[-1] += 1
        row.styles = dict(row.styles, default=overlay(row.styles["default"], {"align": "left"}))
        if label is not None:
            lb = row.box({})
            text = label_text(label, lst.level)
            lb.item(kind="label", key=("label", text), style=lb.style("default"))
        content = row.box({})
        if op.get("text"):
            content.item(kind="text", key=("text",) + tuple(TOKEN.findall(op["text"])),
                         style=content.style("default"),
                         inline=self.inline_styles(content, op["text"]))
        return content

    def set_style(self, op):
        target = self if op["on"] == "deck" else self.boxof(op["on"])
        new = plain(op.get("style"))
        if op["what"] == "update":
            if op["name"] not in target.styles:
                raise Unknown("style")
            val = overlay(target.styles[op["name"]], new)
        elif op.get("base"):
            if op["base"] not in target.styles:
                raise Unknown("style")
            val = overlay(target.styles[op["base"]], new)
        else:
            val = new
        target.styles = dict(target.styles)
        target.styles[op["name"]] = val


def run(log, kw=None, notebook=False):
    """The model of a deck after a log of accepted operations [(op, versions)]."""
    d = Deck(kw, notebook)
    for op, v in log:
        try:
            d.apply(op, v)
        except Opaque:
            pass
    return d


# ---------------------------------------------------------------- reading pages
def css(style):
    out = {}
    for part in (style or "").split(";"):
        k, _, v = part.partition(":")
        if k.strip():
            out[k.strip()] = v.strip()
    return out


DEBUG_COLOR = "#ff00ff"


class Fact:
    """One painted element of a page."""

    __slots__ = ("key", "el")

    def __init__(self, key, el):
        self.key = key
        self.el = el


def shape_color(el):
    c = css(el.get("style"))
    s, f = c.get("stroke", "none"), c.get("fill", "none")
    return s if s != "none" else f


def facts(root, debug=False):
    """What a page shows, in the order of painting."""
    out = []
    for el in root:
        if not isinstance(el.tag, str):
            continue
        tag = el.tag.rsplit("}", 1)[-1]
        if tag == "text":
            text = "".join(el.itertext())
            if debug and css(el.get("style")).get("fill") == DEBUG_COLOR:
                continue
            toks = TOKEN.findall(text)
            out.append(Fact(("text",) + tuple(toks) if toks else ("label", text.strip()), el))
        elif tag in ("rect", "ellipse", "polygon", "polyline", "path", "line", "circle"):
            c = shape_color(el)
            if debug and c == DEBUG_COLOR:
                continue
            key = ("shape", c)
            if out and out[-1].key == key:
                continue  # an arrow head
            out.append(Fact(key, el))
        elif tag == "image":
            out.append(Fact(image_key(el), el))
        elif tag == "g":
            out.append(Fact(group_key(el), el))
        else:
            out.append(Fact(("?", tag), el))
    return out


def image_key(el):
    import base64

    href = el.get(XLINK + "href") or el.get("href") or ""
    data = href.partition("base64,")[2]
    try:
        raw = base64.b64decode(data)
    except ValueError:
        raw = data.encode()
    return ("bmp", hashlib.sha1(raw).hexdigest()[:12])


def group_key(el):
    toks = []
    tex = None
    for e in el.iter():
        if not isinstance(e.tag, str):
            continue
        for v in e.attrib.values():
            if len(v) < 200:
                toks += IMG_TOKEN.findall(v)
        if e.tag.endswith("}desc") and e.text and e.text.startswith("TEX:"):
            tex = e.text.split(":")[1].split("x")[-1] if "x" in e.text else e.text
    if tex is not None:
        return ("tex", tex)
    toks.sort(key=lambda t: int(t.rsplit("p", 1)[1]))
    return ("img",) + tuple(toks)


def grid_cells(root):
    """[(x, y, svg element)] of a page that is a grid of slides, or None."""
    cells = []
    for el in root:
        if not isinstance(el.tag, str) or not el.tag.endswith("}g"):
            return None
        kids = [c for c in el if isinstance(c.tag, str)]
        m = re.match(r"translate\(([-\d.]+),\s*([-\d.]+)\)", el.get("transform") or "")
        if len(kids) != 1 or not kids[0].tag.endswith("}svg") or not m:
            return None
        cells.append((float(m.group(1)), float(m.group(2)), kids[0]))
    return cells


def grid_problem(root, cells, grid):
    """Why the slides of a page do not form rows and columns inside of it, or None.

    Sorts the cells into the order in which they are read."""
    n, limit = len(cells), grid[0] * grid[1]
    cells.sort(key=lambda x: (x[1], x[0]))
    rows = {}
    for x, y, _ in cells:
        rows.setdefault(y, []).append(x)
    xs = [rows[y] for y in sorted(rows)]
    cols = len(xs[0])
    bad = any(r != xs[0][: len(r)] or len(set(r)) != len(r) for r in xs) \
        or any(len(r) != cols for r in xs[:-1]) \
        or (n == limit and cols not in grid) or cols > max(grid)
    w, h = float(cells[0][2].get("width")), float(cells[0][2].get("height"))
    for r in xs:
        bad = bad or any(b - a < w - 1e-6 for a, b in zip(r, r[1:]))
    ys = sorted(rows)
    bad = bad or any(b - a < h - 1e-6 for a, b in zip(ys, ys[1:]))
    bad = bad or any(x + w > float(root.get("width")) + 1e-6
                     or y + h > float(root.get("height")) + 1e-6 or x < 0 or y < 0
                     for x, y, _ in cells)
    return f"not filled row by row: {[c[:2] for c in cells]}" if bad else None


# ---------------------------------------------------------------- text styles of pages
def text_style(el):
    """Effective attributes of a <text> element."""
    c = css(el.get("style"))
    anchor = {"start": "left", "middle": "middle", "end": "right"}
    return {"font": el.get("font-family"), "size": num(el.get("font-size")),
            "align": anchor.get(el.get("text-anchor")), "color": c.get("fill"),
            "bold": "bold" in c.get("font-weight", ""),
            "italic": "italic" in c.get("font-style", ""),
            "opacity": num(c.get("fill-opacity"))}


def num(v):
    return None if v is None else float(v)


def expected_style(st):
    return {"font": st.get("font"), "size": num(st.get("size")), "align": st.get("align"),
            "color": st.get("color"), "bold": bool(st.get("bold")),
            "italic": bool(st.get("italic")), "opacity": num(st.get("opacity"))}


def token_styles(el):
    """{token: effective character attributes} of a <text> element."""
    out = {}

    def walk(e, st):
        c = css(e.get("style"))
        st = dict(st)
        if e.get("font-family"):
            st["font"] = e.get("font-family")
        if e.get("font-size"):
            st["size"] = num(e.get("font-size"))
        if "fill" in c:
            st["color"] = c["fill"]
        if "fill-opacity" in c:
            st["opacity"] = num(c["fill-opacity"])
        if "bold" in c.get("font-weight", ""):
            st["bold"] = True
        if "italic" in c.get("font-style", ""):
            st["italic"] = True
        for t in TOKEN.findall(e.text or ""):
            out[t] = st
        for k in e:
            walk(k, st)
            for t in TOKEN.findall(k.tail or ""):
                out[t] = st

    walk(el, {"font": None, "size": None, "color": None, "bold": False, "italic": False,
              "opacity": None})
    return out


def line_steps(el):
    """Distances of the later lines of a <text> element."""
    return [num(e.get("dy")) for e in el.iter() if isinstance(e.tag, str) and e.get("dy")]


def expected_line_steps(style, text):
    gaps = re.findall("\n+", text.strip("\n"))
    return [len(g) * style["size"] * style["line_spacing"] for g in gaps]


def expected_token_style(base, inline):
    st = expected_style(base)
    st.pop("align")
    for s in inline:
        if s is None:
            continue
        for k in ("font", "color"):
            if s.get(k) is not None:
                st[k] = s[k]
        for k in ("size", "opacity"):
            if s.get(k) is not None:
                st[k] = num(s[k])
        if s.get("bold"):
            st["bold"] = True
        if s.get("italic"):
            st["italic"] = True
    return st
