"""C21: an interrupt at any point leaves the session usable."""
from .. import scen
from ..kernel import Fault
from ..prop import Prop
from ..world import World


class W21(World):
    def attempt(self, session, fn):
        out = super().attempt(session, fn)
        if any(f.kind == "interrupt" for f in out.fired):
            self.count("operations interrupted")
            if out.kind != "intr" and out.kind not in ("crash", "hang", "skip") \
                    and all(f.kind == "interrupt" for f in out.fired):
                f = out.fired[0]
                self.problem("swallowed", f"Ctrl-C at {f.site} ({f.info}) did not reach the "
                             f"caller: {out.brief()}")
        return out


class C21(Prop):
    id = "C21"
    world = W21
    oracles = {"pages", "output", "raise", "hang", "swallowed", "show"}
    need_faults = True

    def gen(self, r):
        kind = "cairo" if r.random() < 0.12 else "inkscape"
        flags = {"lists": 0, "md": 0, "todo": 0, "latex": r.choice([0, 2]), "text": 4,
                 "ora": r.choice([0, 2]), "image": 2, "inline_box": 2}
        ops, g = scen.program(r, slides=(1, 2), size=(2, 7), flags=flags, raw=kind != "cairo")
        steps = []
        for i in range(r.randint(1, 2)):
            name = "S%d" % i
            mine = ops if r.random() < 0.6 else scen.mutate(r, ops, g)
            st = {"s": "deck", "sess": name, "deck": "d", "backend": kind}
            if kind == "inkscape" and r.random() < 0.1:
                st["ttp"] = True
            steps += [{"s": "open", "sess": name}, st]
            cut = r.randint(1, len(mine))
            for part in (mine[:cut], mine[cut:]):
                if part:
                    steps.append({"s": "ops", "sess": name, "deck": "d", "ops": part})
                have = mine[:cut] if part is mine[:cut] else mine
                if r.random() < 0.3:
                    ids = scen.slide_ids(have)
                    if ids:
                        steps.append({"s": "show", "sess": name, "deck": "d",
                                      "slide": r.choice(ids), "how": "repr"})
                k = scen.render_kw(r, have, backend=kind, units=0.1)
                rs = {"s": "render", "sess": name, "deck": "d", "kw": k}
                raw = any(o["op"] == "pdf" for o in have)
                if r.random() < 0.1 and not raw and not k.get("return_units"):
                    k.pop("export_type", None)
                    k.pop("pdf_merger", None)
                    rs["pptx"] = True
                if part is mine[cut:] or r.random() < 0.4:
                    steps.append(rs)
            steps.append({"s": "end", "sess": name})
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        plans = []
        kinds = [("ops", "deck"), ("render",), ("show",), ("ops",), None]
        for _ in range(6):
            fs = []
            n = r.choice([1, 1, 1, 2, 3])
            want = r.choice(kinds)
            steps = None if want is None else {st["i"] for st in sc["steps"] if st["s"] in want}
            f = pl.interrupt(steps=steps)
            fs.append(f)
            for _ in range(n - 1):
                if f is None:
                    break
                if r.random() < 0.6:
                    # soon after the first one, maybe while the operation is repeated
                    fs.append(Fault("interrupt", r.random() < 0.5, f.step,
                                    f.op + r.choice([1, 2, 3, 5, 9, 20, 50])))
                else:
                    fs.append(pl.interrupt())
            plans.append(fs)
        return plans


PROP = C21()
