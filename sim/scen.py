"""Scenario building blocks shared by the properties."""
from .deck import Gen, latex_frame
from .prop import ASSETS, common_cfg, steps_list
from .world import INK, INK_OTHER

FORMATS = ["pdf", "pdf", "pdf", "png", "svg", "ps"]


def program(r, slides=(1, 3), size=(1, 8), flags=None, assets=ASSETS, raw=True, gen=None,
            swarm=True, deck_styles=True):
    """A deck program: a list of building operations."""
    g = gen or Gen(r, flags, assets)
    if swarm and gen is None:
        g.swarm()
        if flags:
            g.f.update(flags)
    ops = []
    for _ in range(r.randint(*slides)):
        if deck_styles and g.f["styles"] and r.random() < 0.25:
            ops.append(g.g_deck_style())
        if raw and g.f["rawpdf"] and r.random() < 0.15 * g.f["rawpdf"]:
            ops.append(raw_pdf(r, g))
        ops.append(g.slide())
        sl = g.slides[-1]
        for _ in range(r.randint(*size)):
            ops.append(g.content(sl if r.random() < 0.8 else None))
    if g.f["near"] and r.random() < 0.15:
        ops = twins(r, ops, g, r.randint(1, 2))
    return ops, g


def raw_pdf(r, g):
    return {"op": "pdf", "asset": r.choice([a for a in g.assets if a.endswith(".pdf")] or ["r.pdf"])}


def slide_ids(ops):
    return [o["id"] for o in ops if o["op"] == "slide"]


def renamed(x, names):
    if isinstance(x, dict):
        return {k: renamed(v, names) for k, v in x.items()}
    if isinstance(x, list):
        return [renamed(v, names) for v in x]
    return names.get(x, x) if isinstance(x, str) else x


def repeat_slides(r, ops, g, times=1):
    """Some slides once more, as equal slides."""
    from .world import owners
    own = owners([(o, {}) for o in ops])
    ids = [o["id"] for o in ops if o["op"] == "slide" and "name" not in o]
    out = list(ops)
    for _ in range(times):
        if not ids:
            break
        sid = r.choice(ids)
        mine = [o for o, w in zip(ops, own) if w == sid]
        names = {o["id"]: o["id"] + "r" + str(len(out)) for o in mine if o.get("id")}
        out += renamed(mine, names)
    return out


TWIN_STYLES = [{"bold": True}, {"italic": True}, {"line_spacing": 2.0}, {"font": "monospace"},
               {"size": 30}, {"align": "right"}, {"color": "#123456"}, {"variant_numeric": "normal"}]


def twins(r, ops, g, times=1):
    """Some texts and formulas once more, in a frame of their own, and nearly the same."""
    cands = [o for o in ops if o["op"] in ("text", "latex")]
    out = list(ops)
    sids = slide_ids(ops)
    for _ in range(times if cands else 0):
        op = r.choice(cands)
        p = r.choice([op["p"], op["p"], r.choice(sids)])
        if isinstance(op.get("style"), str) or "{" in op["text"]:
            p = op["p"]  # where its styles are known
        b = g.id("b")
        new = dict(op, p=b, id=g.id("t"))
        out.append({"op": "box", "p": p, "id": b, "kw": {}})
        if op["op"] == "latex":
            t = op["text"]
            new["text"] = r.choice([t + "\n", "\n" + t, t.replace(" ", "\n"), t.replace("\n", " "),
                                    t.replace("\n", "\n\n"), t + " ", "{" + t + "}"])
        elif r.random() < 0.7:
            s = op.get("style")
            if not isinstance(s, str):
                new["style"] = dict(s or {}, **r.choice(TWIN_STYLES))
        else:
            names = [n for n in ("emph", "tt", "alert") if "~%s{" % n in op["text"]] + ["default"]
            out.append({"op": "style", "on": b, "name": r.choice(names), "what": "update",
                        "style": r.choice(TWIN_STYLES)})
        out.append(new)
        out.append({"op": "rect", "p": b, "id": g.id("i"), "kw": {"color": g.color()}})
    return out


NUDGED = ("x", "y", "width", "height", "scale", "stroke_width", "rotation", "rx", "ry", "p_left",
          "padding", "label_padding", "indent")


def nudge(r, op):
    """The operation with one number changed by as little as an author changes it."""
    by = r.choice([0.04, 0.04, 0.4, 1])
    kw = op.get("kw", {})
    style = op.get("style")
    cands = [k for k in NUDGED if isinstance(kw.get(k), (int, float))]
    if isinstance(style, dict) and "size" in style:
        return dict(op, style=dict(style, size=style["size"] + by))
    if op["op"] == "box" and op.get("how", "box") == "box" and not cands:
        return dict(op, kw=dict(kw, p_left=kw.get("p_left", 0) + by)) if "padding" not in kw else op
    if not cands:
        return op
    k = r.choice(cands)
    return dict(op, kw=dict(kw, **{k: kw[k] + by}))


def mutate(r, ops, g):
    """The deck source after some editing: dropped, changed and added content."""
    out = []
    for op in ops:
        x = r.random()
        if x < 0.12 and op["op"] not in ("slide", "style"):
            continue
        if x < 0.2 and op["op"] == "text":
            op = dict(op, text=op["text"].replace("tk", "tq", 1))
        elif x < 0.35 and op["op"] == "latex":
            # the same snippet between another header and tail
            op = {k: v for k, v in op.items() if k not in ("header", "tail")}
            op.update(latex_frame(r))
        elif x < 0.35:
            op = nudge(r, op)
        out.append(op)
    for _ in range(r.randint(0, 3)):
        if g.slides:
            out.append(g.content())
    if r.random() < 0.2:
        out = twins(r, out, g)
    return out


def render_kw(r, ops, formats=True, select=0.25, grid=0.06, units=0.1, backend="inkscape",
              prune=0.5, merger=True):
    kw = {}
    kinds = ["pdf", "png"] if backend == "cairo" else FORMATS
    kind = r.choice(kinds) if formats else "pdf"
    if any(o["op"] == "pdf" for o in ops):
        kind = "pdf"
    if kind != "pdf":
        kw["export_type"] = kind
    elif merger:
        x = r.random()
        if x < 0.2:
            kw["pdf_merger"] = None
        elif x < 0.35 and backend != "cairo":
            kw["pdf_merger"] = "pdfunite"
    if r.random() >= prune:
        kw["prune_cache"] = False
    if r.random() < 0.1:
        kw["save_cache"] = False
    ids = slide_ids(ops)
    if ids and r.random() < select:
        sel = [x for x in ids if r.random() < 0.6] or [r.choice(ids)]
        r.shuffle(sel)
        kw["select"] = sel
    if backend != "cairo" and r.random() < units:
        kw["return_units"] = True
        kw.pop("export_type", None)
        kw.pop("pdf_merger", None)
    if backend != "cairo" and r.random() < grid:
        kw["slides_per_page"] = r.choice([[2, 1], [1, 2], [2, 2], [1, 1], [3, 2]])
    return kw


def used_assets(steps):
    out = []
    for st in steps:
        if st.get("asset") and st["asset"] not in out:
            out.append(st["asset"])
        for op in st.get("ops", ()):
            if isinstance(op, dict) and op.get("asset") and op["asset"] not in out \
                    and not op["asset"].startswith("nosuch"):
                out.append(op["asset"])
    return out


THEMES = ["monokai", "vim", "bw", "friendly"]


def dress(r, steps):
    """Some decks get other arguments than the usual ones."""
    out = []
    for st in steps:
        if st["s"] == "deck" and r.random() < 0.2:
            kw = {}
            if r.random() < 0.5:
                kw["pygments_theme"] = r.choice(THEMES)
            if r.random() < 0.4:
                kw["bg_color"] = r.choice(["#fdf6e3", "#0a0b0c", None])
            if r.random() < 0.4:
                w, h = (180, 140) if st.get("backend") == "cairo" else \
                    r.choice([(640, 480), (1280.5, 700), (300, 900)])
                kw["width"], kw["height"] = w, h
            st = dict(st, kw=dict(kw, **st.get("kw", {})))
        out.append(st)
    return out


def scenario(r, steps, cfg=None, dressed=True):
    steps = steps_list(dress(r, steps) if dressed else steps)
    cfg = dict(cfg or common_cfg(r))
    if r.random() < 0.25:
        cfg["dirs"] = True
    if r.random() < 0.15:
        cfg["rel"] = True
        out = []
        for st in steps:
            if out and r.random() < 0.4:
                out.append({"s": "chdir", "to": r.choice(["work", "deep", "deep/down"])})
            out.append(st)
        steps = steps_list(out)
    return {"assets": used_assets(steps), "cfg": cfg, "steps": steps}


def session_steps(name, ops, renders, deck="d", cache="cache", end=True, **kw):
    deck_kw = {k: kw.pop(k) for k in ("backend", "ttp", "kw") if k in kw}
    st = [dict({"s": "open", "sess": name}, **kw),
          dict({"s": "deck", "sess": name, "deck": deck, "cache": cache}, **deck_kw),
          {"s": "ops", "sess": name, "deck": deck, "ops": ops}]
    st += [dict({"s": "render", "sess": name, "deck": deck}, **x) for x in renders]
    if end:
        st.append({"s": "end", "sess": name})
    return st
