"""C14: a render reports success only when its output is complete."""
from .. import scen
from ..prop import Prop, READ_SITES, WRITE_SITES
from ..seams import ERRS
from ..world import World, render_kind

CONTENT = {"read", "open.r", "write", "open.w", "replace"}


def fatal(f):
    """Faults after which no render can have done everything it promised."""
    site, _, cls = f.site.partition(":")
    if f.kind in ERRS and site in CONTENT:
        return True
    if f.kind in ("toolerr", "silent") and (f.info == "export-do" or cls == "pdfunite"):
        return True
    if f.kind == "die" and (cls == "inkscape" or f.arg != 0) and f.info != "export-written":
        return True
    return False


def before_pages(f, kw):
    """Faults that happen while pages are still being made."""
    site, _, cls = f.site.partition(":")
    if cls in ("out", "pdfunite"):
        return False
    if kw.get("pdf_merger") == "pdfunite" and f.kind == "interrupt":
        return False
    if site in ("tool", "write", "open.w", "replace") or site.startswith("pipe"):
        return cls in ("cache", "queries", "tmp", "inkscape") or site.startswith("pipe")
    return False


class W14(World):
    def do_render(self, st):
        # every render writes to the same place, over what is there
        super().do_render(st)

    def missing_raw(self, c, st, rec):
        return [a for w, a in self.order_of_slides(c, st, rec["loglen"])
                if w == "pdf" and a in self.spoiled]

    def expected_error(self, c, st, rec):
        if self.missing_raw(c, st, rec):
            return ("error", "unreadable PDF")
        return super().expected_error(c, st, rec)

    def judge_render(self, s, c, st, rec, n):
        super().judge_render(s, c, st, rec, n)
        out = rec["out"]
        if st.get("self"):
            self.count("renders onto an added file")
            if not out.ok and not s.dead:
                self.do_copy(st["self"])  # an output file that failed is not a source any more
        kw = st.get("kw", {})
        if out.kind == "ok":
            hit = [f for f in out.fired if fatal(f)]
            if hit:
                f = hit[0]
                self.problem("success", f"{f.kind} at {f.site} ({f.info}) and the render "
                             "reported success")
            return
        if out.kind not in ("err", "intr") or rec["out_before"] is None:
            return
        same = rec["out_after"] == rec["out_before"]
        if not same and (out.fired and all(before_pages(f, kw) for f in out.fired)
                         or not out.fired and kw.get("pdf_merger") != "pdfunite"
                         and not self.k.disk_full):
            self.problem("untouched", "the render failed before its pages were available "
                         f"({out.brief()}; {[(f.kind, f.site) for f in out.fired]}) and changed "
                         "the existing output file")


class C14(Prop):
    id = "C14"
    world = W14
    oracles = {"pages", "output", "raise", "hang", "success", "untouched"}

    def gen(self, r):
        kind = "cairo" if r.random() < 0.15 else "inkscape"
        flags = {"rawpdf": r.choice([0, 3]) if kind != "cairo" else r.choice([0, 3]),
                 "latex": 0, "ora": 0}
        ops, g = scen.program(r, slides=(1, 3), size=(1, 4), flags=flags)
        raw = [o["asset"] for o in ops if o["op"] == "pdf"]
        steps = []
        if r.random() < 0.6:
            steps.append({"s": "foreign", "cache": ".", "name": "out-d.pdf", "data": "old output"})
        body = scen.session_steps("S0", ops, [], backend=kind, end=False,
                                  kw={"debug": True} if r.random() < 0.1 else {})
        for _ in range(r.randint(1, 3)):
            kw = scen.render_kw(r, ops, backend=kind, units=0.05, merger=False)
            x = r.random()
            if kw.get("export_type", "pdf") == "pdf" and not kw.get("return_units"):
                if x < 0.15:
                    kw["pdf_merger"] = None
                elif x < 0.4 and kind != "cairo":
                    kw["pdf_merger"] = "pdfunite"
            st = {"s": "render", "sess": "S0", "deck": "d", "kw": kw}
            if r.random() < 0.12 and not raw and not kw.get("return_units"):
                kw.pop("export_type", None)
                kw.pop("pdf_merger", None)
                st["pptx"] = True
            elif r.random() < 0.12 and kind == "inkscape":
                kw["slides_per_page"] = r.choice([[2, 2], [2, 1]])
            merged = render_kind(st) == "pdf" and kw.get("pdf_merger", 1) is not None \
                and not kw.get("return_units")
            if raw and merged and r.random() < 0.35:
                a = r.choice(raw)
                if "select" not in kw:
                    body.append({"s": "spoil", "asset": a,
                                 "how": r.choice(["remove", "remove", "empty", "garbage", "cut"])})
                    body.append(st)
                    body.append({"s": "restore", "asset": a})
                    body.append(dict(st))
                    continue
            body.append(st)
            if r.random() < 0.12:
                # no file can be made there
                body.append(dict(st, out=r.choice(["no/such/out.pdf", "tmp", "out-d.pdf/x.pdf"])))
        if r.random() < 0.15:
            # the file that the output replaces is one of the added ones
            cp = {"s": "copy", "asset": r.choice(["q.pdf", "q.pdf", "r.pdf"]), "to": "out-d.pdf"}
            ops2 = list(ops)
            ops2.insert(r.randint(0, len(ops)), {"op": "pdf", "asset": cp["asset"],
                                                 "file": "out-d.pdf"})
            st2 = scen.session_steps("S1", ops2, [], backend=kind, end=False)
            body += [{"s": "end", "sess": "S0"}] + st2 + [
                cp, {"s": "render", "sess": "S1", "deck": "d", "kw": {}, "self": cp},
                {"s": "end", "sess": "S1"}]
            return scen.scenario(r, steps + body)
        if kind == "inkscape" and r.random() < 0.3:
            body.append({"s": "ops", "sess": "S0", "deck": "d", "ops": [g.content()]})
            body.append({"s": "render", "sess": "S0", "deck": "d",
                         "kw": scen.render_kw(r, ops, units=0)})
        body.append({"s": "end", "sess": "S0"})
        return scen.scenario(r, steps + body)

    def plan(self, r, sc, pl):
        plans = []
        rs = {st["i"] for st in sc["steps"] if st["s"] == "render"}
        for _ in range(4):
            fs = []
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                if x < 0.3:
                    fs.append(pl.io(None, sites=CONTENT, steps=rs))
                elif x < 0.55:
                    fs.append(pl.io(("out", "cache"), sites=CONTENT, steps=rs))
                elif x < 0.85:
                    fs.append(pl.tool(kinds=("die", "toolerr", "silent"), steps=rs))
                else:
                    fs.append(pl.interrupt(steps=rs))
            plans.append(fs)
        return plans


PROP = C14()
