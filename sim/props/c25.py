"""C25: dynamic positions reflect the final layout."""
import copy
import re

from .. import model as M, scen, tools
from ..deck import Gen
from ..modelworld import ModelWorld
from ..prop import ASSETS, Prop
from .c12 import MODEL_FLAGS

NUM = re.compile(r"-?\d+(?:\.\d+)?(?:e-?\d+)?")


def at(spec, origin, size):
    """Where a position given as data is within an extent."""
    if isinstance(spec, (int, float)):
        return origin + spec
    m = re.match(r"^(\[?)(\d+)(%?)\]?$", spec)
    v = float(m.group(2))
    return origin + (size * v / 100 if m.group(3) else v)


class W25(ModelWorld):
    def judge_model(self, s, c, st, rec, m, exp, pages):
        self.seen = []
        super().judge_model(s, c, st, rec, m, exp, pages)
        if any(p.get("render") == st["i"] for p in self.problems):
            return
        by_slide = {}
        for slide, n, root in self.seen:
            by_slide.setdefault(slide.id, []).append((n, root))
        log = [op for op, _ in c.log[: rec["loglen"]]]
        for sid, roots in by_slide.items():
            msg = Positions(self, s, m, m.slides[sid], log).judge(roots)
            if msg:
                self.bad("position", st, f"slide {sid}: {msg}")
                return

    def check_page(self, c, st, slide, n, root, i):
        self.seen.append((slide, n, root))


class Positions:
    """Reads the places of the boxes of one slide off its pages and judges what refers to them."""

    def __init__(self, w, s, m, slide, log):
        self.w = w
        self.s = s
        self.m = m
        self.slide = slide
        self.boxes = {}  # handle -> creating operation
        self.items = {}  # colour -> operation
        self.texts = {}  # handle -> operation
        self.points = {}
        for op in log:
            if "id" not in op or (op["id"] not in m.h and op["op"] not in ("point", "coord")):
                continue
            if op["op"] in ("point", "coord"):
                self.points[op["id"]] = op["at"]
                continue
            x = m.h[op["id"]]
            if isinstance(x, M.Box) and x.slide is slide:
                self.boxes[op["id"]] = op
            elif isinstance(x, M.Item) and x.box.slide is slide:
                if op["op"] in ("text", "code"):
                    self.texts[op["id"]] = op
                elif x.kind == "shape":
                    self.items[x.key[1]] = op
        self.ref = {}  # model box -> some handle of it
        for h in self.boxes:
            self.ref[m.h[h]] = h
        self.where = {}  # handle -> (x, y, w, h)

    def handle(self, ref):
        x = self.m.h.get(ref)
        return self.ref.get(x.box if isinstance(x, M.Item) else x)

    def judge(self, roots):
        els = []
        for n, root in roots:
            els.append((n, M.facts(root, self.slide.debug)))
        for n, fs in els:
            for f in fs:
                op = self.items.get(f.key[1]) if f.key[0] == "shape" else None
                if op is None or op["op"] not in ("rect", "ellipse"):
                    continue
                h = self.handle(op["p"])
                if op["op"] == "rect":
                    r = tuple(float(f.el.get(k)) for k in ("x", "y", "width", "height"))
                else:
                    cx, cy, rx, ry = (float(f.el.get(k)) for k in ("cx", "cy", "rx", "ry"))
                    r = (cx - rx, cy - ry, 2 * rx, 2 * ry)
                old = self.where.setdefault(h, r)
                if not near(old, r):
                    return f"{h} is at {old} and at {r} (fragment {n})"
        for n, fs in els:
            for f in fs:
                msg = None
                if f.key[0] == "shape" and f.key[1] in self.items:
                    msg = self.shape(self.items[f.key[1]], f.el)
                if msg:
                    return f"fragment {n}: {msg}"
            msg = self.page_texts(fs)
            if msg:
                return f"fragment {n}: {msg}"
        return self.placed_boxes()

    def point(self, p, own):
        """Expected place of a point given as data; None: not known."""
        if isinstance(p, dict):
            if "pt" in p:
                q = self.point(self.points[p["pt"]], own)
            else:
                r = self.where.get(self.handle(p["of"]))
                if r is None:
                    return None
                q = (r[0] + r[2] / 2, r[1] + r[3] / 2) if p.get("mid") else \
                    (at(p["x"], r[0], r[2]), at(p["y"], r[1], r[3]))
            if q is not None and p.get("add"):
                q = (q[0] + p["add"][0], q[1] + p["add"][1])
            return q
        r = self.where.get(own)
        return None if r is None else (at(p[0], r[0], r[2]), at(p[1], r[1], r[3]))

    def coordinate(self, v):
        if "co" in v:
            q = self.coordinate(self.points[v["co"]])
        else:
            b = self.where.get(self.handle(v["of"]))
            k = "xy".index(v["axis"])
            q = None if b is None else at(v["at"], b[k], b[k + 2])
        return None if q is None else q + (v.get("add") or 0)

    def shape(self, op, el):
        if op["op"] in ("rect", "ellipse"):
            return None
        kw = op.get("kw", {})
        if kw.get("end_arrow") or kw.get("start_arrow"):
            return None
        if op["op"] == "path":
            pts = [p for c in op["cmds"] for p in c[1:]]
            nums = NUM.findall(el.get("d") or "")
        else:
            pts = op["points"]
            nums = NUM.findall(el.get("points") or "")
        nums = [float(x) for x in nums]
        if len(nums) != 2 * len(pts):
            return f"{op} is drawn with {len(nums) // 2} points"
        own = self.handle(op["p"])
        for i, p in enumerate(pts):
            q = self.point(p, own)
            if q is None:
                self.w.count("points of unseen boxes")
                continue
            self.w.count("points judged")
            if not near(q, nums[2 * i: 2 * i + 2]):
                return f"point {p} of {op['id']} is at {nums[2 * i: 2 * i + 2]}, its box says {q}"
        return None

    def page_texts(self, fs):
        """Texts against the boxes around them, and the boxes around parts of texts."""
        if not hasattr(self, "drawn"):
            self.drawn = {}
        for tid, op in self.texts.items():
            it = self.m.h[tid]
            els = [f.el for f in fs if f.key == it.key]
            if len(els) != 1:
                continue
            el = els[0]
            k = 1.0
            mt = re.search(r"scale\(([^)]*)\)", el.get("transform") or "")
            if mt:
                k = float(mt.group(1))
            g = {"el": el, "scale": k, "x": float(el.get("x")) * k, "y": float(el.get("y")) * k}
            st = it.style
            lh = st["size"] * st["line_spacing"]
            g["lh"] = lh * k
            g["lines"] = self.lines(el, lh)
            g["top"] = g["y"] - st["size"] * k
            self.drawn[tid] = g
            if op["op"] == "code":
                continue
            r = self.where.get(self.handle(op["p"]))
            if r is None:
                continue
            self.w.count("texts judged")
            ax = {"left": r[0], "middle": r[0] + r[2] / 2, "right": r[0] + r[2]}[st["align"]]
            ay = r[1] + (r[3] - g["lines"] * g["lh"]) / 2
            if not near((g["x"], g["top"]), (ax, ay)):
                return f"text {tid} is at {(g['x'], g['top'])}, its box at {r} says {(ax, ay)}"
        return None

    def lines(self, el, lh):
        return 1 + round(sum(M.line_steps(el)) / lh)

    def placed_boxes(self):
        """Boxes placed by positions of other boxes or of texts."""
        for h, op in self.boxes.items():
            r = self.where.get(h)
            if r is None:
                continue
            kw = op.get("kw", {})
            pad = kw.get("padding", 0)
            left, top = kw.get("p_left", kw.get("p_x", pad)), kw.get("p_top", kw.get("p_y", pad))
            right = kw.get("p_right", kw.get("p_x", pad))
            bottom = kw.get("p_bottom", kw.get("p_y", pad))
            # the box with its padding
            o = (r[0] - left, r[1] - top, r[2] + left + right, r[3] + top + bottom)
            for j, ax in ((0, "x"), (1, "y")):
                v = kw.get(ax)
                if not isinstance(v, dict):
                    continue
                want = self.coordinate(v)
                if want is None:
                    continue
                self.w.count("placed boxes judged")
                if not near((o[j],), (want,)):
                    return f"box {h} has {ax} {o[j]}, expected {want} ({v})"
            if op["op"] == "line_box":
                msg = self.line_box(h, op, o)
            elif op["op"] == "inline_box":
                msg = self.inline_box(h, op, o)
            else:
                msg = None
            if msg:
                return msg
        return None

    def line_box(self, h, op, o):
        g = self.drawn.get(op["t"])
        if g is None:
            return None
        kw = op.get("kw", {})
        n = op.get("n", 1)
        y, hh = g["top"] + op["idx"] * g["lh"], n * g["lh"] + 1
        self.w.count("line boxes judged")
        if "y" not in kw and not near((o[1],), (y,)) or "height" not in kw and \
                not near((o[3],), (hh,)):
            return f"the box of line {op['idx']} ({n} lines) of {op['t']} covers {o[1]}+{o[3]}, " \
                f"the text {y}+{hh}"
        p = self.where.get(self.handle(op["t"]))
        if p is not None and "x" not in kw and not near((o[0],), (p[0],)):
            return f"the line box {h} begins at {o[0]}, the box of the text at {p[0]}"
        return None

    def inline_box(self, h, op, o):
        g = self.drawn.get(op["t"])
        src = self.texts.get(op["t"])
        if g is None or src is None or src["op"] != "text":
            return None
        n = op.get("nth", 1)
        tok = None
        for mt in re.finditer(r"~([\w#-]+)\{|(\})", src["text"]):
            if mt.group(1) == op["style"]:
                n -= 1
                if n == 0:
                    tok = M.TOKEN.search(src["text"], mt.end()).group()
                    line = src["text"][: mt.start()].count("\n")
        if tok is None:
            return None
        el = copy.deepcopy(g["el"])
        for e in el.iter():
            if isinstance(e.tag, str) and e.tag.endswith("}tspan") and tok in (e.text or ""):
                e.set("id", "target")
        root = copy.deepcopy(g["el"].getroottree().getroot())
        for e in list(root):
            root.remove(e)
        root.append(el)
        got = tools.metrics(root, "target", tools.salt_of(self.s.ink_version))
        if got is None:
            return None
        k = g["scale"]
        x, w = g["x"] + got[0] * k, got[1] * k
        y, hh = g["top"] + line * g["lh"], g["lh"] + 1
        kw = op.get("kw", {})
        self.w.count("inline boxes judged")
        want = (x, y, w, hh)
        for j, name in enumerate(("x", "y", "width", "height")):
            if name not in kw and not near((o[j],), (want[j],), 0.05):
                return f"the inline box {h} around {tok} is {o}, the text is at {want}"
        return None


def near(a, b, eps=1e-4):
    return all(abs(x - y) <= eps + 1e-6 * abs(x) for x, y in zip(a, b))


class C25(Prop):
    id = "C25"
    world = W25
    oracles = {"position", "accept", "raise", "output"}

    def gen(self, r):
        flags = dict(MODEL_FLAGS, fitsafe=0, styles=0.5, fit=r.choice([0, 1, 4]), nested=5, text=4, code=0.6,
                     lists=0.3, shapes=2, points=4, image=0.5, ora=0, bitmap=0.5, latex=0.5,
                     line_box=3, inline_box=4, rawpdf=0, frags=r.choice([0, 0.3, 0.6]),
                     lazy=r.choice([1, 4]), place=0.5, z=0.3)
        g = Gen(r, flags, ASSETS)
        ops = []
        for _ in range(r.randint(1, 2)):
            ops.append(g.slide())
        pts = {}
        coords = {}
        for _ in range(r.randint(6, 26)):
            sl = r.choice(g.slides)
            x = r.random()
            mine = pts.setdefault(sl["id"], [])
            if x < 0.12:
                pid = g.id("q")
                mine.append(pid)
                p = g.pt(sl)
                while not isinstance(p, dict):
                    p = g.pt(sl)
                if len(mine) > 1 and r.random() < 0.3:
                    p = {"pt": mine[-2], "add": [r.randint(-9, 9), r.randint(-9, 9)]}
                ops.append({"op": "point", "id": pid, "at": p})
                continue
            kept = coords.setdefault(sl["id"], [])
            if x < 0.22:
                cid = g.id("k")
                ax = r.choice("xy")
                # the root box is placed before all others
                at_ = {"of": sl["id"], "axis": ax, "at": r.choice([0, 10, "50%", "100%"])}
                if kept and r.random() < 0.3:
                    ax = kept[-1][1]
                    at_ = {"co": kept[-1][0]}
                if r.random() < 0.3:
                    at_["add"] = r.randint(-20, 20)
                kept.append((cid, ax))
                ops.append({"op": "coord", "id": cid, "at": at_})
                continue
            op = g.content(sl)
            if kept and op["op"] == "box" and r.random() < 0.6:
                cid, ax = r.choice(kept)
                op["kw"][ax] = {"co": cid}
                if r.random() < 0.4:
                    op["kw"][ax]["add"] = r.randint(-20, 20)
            if mine and op["op"] in ("polygon", "line") and not (
                    op["kw"].get("end_arrow") or op["kw"].get("start_arrow")):
                for i in range(len(op["points"])):
                    if r.random() < 0.4:
                        op["points"][i] = {"pt": r.choice(mine)}
                        if r.random() < 0.4:
                            op["points"][i]["add"] = [r.randint(-9, 9), r.randint(-9, 9)]
            if op["op"] == "line_box" and r.random() < 0.4:
                op["n"] = r.randint(1, 3)
            if op["op"] in ("line_box", "inline_box") and r.random() < 0.3:
                op["kw"].update(r.choice([
                    {"padding": 2}, {"z_level": -1}, {"p_left": 5}, {"x": 3}, {"width": 40},
                    {"y": "10%"}]))
            if op["op"] == "inline_box":
                t = next(o for o in ops if o.get("id") == op["t"])
                n = len(re.findall("~" + re.escape(op["style"]) + r"\{", t["text"]))
                op["nth"] = r.randint(1, n)
            ops.append(op)
            if op["op"] in ("box", "line_box", "inline_box") and r.random() < 0.7:
                # what shows where the box is
                ops.append({"op": "rect", "p": op["id"], "id": g.id("i"),
                            "kw": {"color": g.color()}})
        for sl in g.slides:
            ops.append({"op": "rect", "p": sl["id"], "id": g.id("i"), "kw": {"color": g.color()}})
            for b in sl["boxes"]:
                if r.random() < 0.5:
                    ops.append({"op": "rect", "p": b, "id": g.id("i"), "kw": {"color": g.color()}})
        if r.random() < 0.2:
            ops += self.squeezed(r, g)
        steps = [{"s": "open", "sess": "S0"}, {"s": "deck", "sess": "S0", "deck": "d"}]
        pos = 0
        while pos < len(ops):
            n = r.randint(3, 20)
            steps.append({"s": "ops", "sess": "S0", "deck": "d", "ops": ops[pos:pos + n]})
            pos += n
            ids = scen.slide_ids(ops[:pos])
            if r.random() < 0.4 or pos >= len(ops):
                k = {"return_units": True} if r.random() < 0.6 else {}
                if r.random() < 0.1:
                    k["slides_per_page"] = [2, 2]
                steps.append({"s": "render", "sess": "S0", "deck": "d", "kw": k})
                if r.random() < 0.3:
                    steps.append(dict(steps[-1]))
            elif r.random() < 0.15 and ids:
                steps.append({"s": "show", "sess": "S0", "deck": "d", "how": "repr",
                              "slide": r.choice(ids)})
        steps.append({"s": "end", "sess": "S0"})
        return scen.scenario(r, steps)

    def squeezed(self, r, g):
        """A scaled text with boxes around its parts, and what later takes its place away."""
        sl = r.choice(g.slides)
        b, t = g.id("b"), g.id("t")
        toks = [g.tok() for _ in range(r.randint(1, 4))]
        text = r.choice([" ", "\n"]).join(
            "~emph{%s}" % w if i == len(toks) - 1 else w for i, w in enumerate(toks))
        out = [{"op": "box", "p": sl["id"], "id": b, "kw": r.choice(
                   [{"width": "fill", "height": "fill"}, {"width": "80%", "height": "fill"}])},
               {"op": r.choice(["text", "text", "code"]), "p": b, "id": t, "text": text,
                "fit": True}]
        if out[1]["op"] == "code":
            out[1].update(us=True, lang="")
        for _ in range(r.randint(1, 3)):
            k = g.id("b")
            if r.random() < 0.6:
                op = {"op": "line_box", "t": t, "id": k, "idx": r.randrange(text.count("\n") + 1),
                      "kw": {}}
            else:
                op = {"op": "inline_box", "t": t, "id": k, "style": "emph", "nth": 1, "kw": {}}
            out += [op, {"op": "rect", "p": k, "id": g.id("i"), "kw": {"color": g.color()}}]
        for _ in range(r.randint(1, 3)):
            k = g.id("b")
            out += [{"op": "box", "p": sl["id"], "id": k,
                     "kw": {"height": r.choice([100, 250, 400, "20%"]), "width": "fill"}},
                    {"op": "rect", "p": k, "id": g.id("i"), "kw": {"color": g.color()}}]
        return out

    def plan(self, r, sc, pl):
        x = r.random()
        fs = [pl.tool()] if x < 0.4 else [pl.interrupt(), pl.tool()] if x < 0.7 else \
            [pl.io(("tmp", "cache", "asset"))]
        return [fs]


PROP = C25()
