"""C08: death or noise of an external tool gives a prompt error, never a hang."""
from .. import scen
from ..prop import Prop
from ..world import World


class W8(World):
    def attempt(self, session, fn):
        out = super().attempt(session, fn)
        died = [f for f in out.fired if f.kind == "die" and (
            f.site == "tool:inkscape" or f.arg != 0)]
        if died and out.kind == "ok":
            self.problem("error", f"{died[0].site} died ({died[0].info}) and the operation "
                         "reported success")
        if out.fired and all(f.kind == "noise" for f in out.fired) and out.kind in ("err", "intr"):
            self.problem("error", f"diagnostic output alone made the operation fail: {out.brief()}")
        return out


class C08(Prop):
    id = "C08"
    world = W8
    oracles = {"pages", "output", "raise", "hang", "error"}
    need_faults = True

    def gen(self, r):
        flags = {"latex": r.choice([0, 3]), "ora": r.choice([0, 1])}
        ops, g = scen.program(r, slides=(1, 2), size=(2, 6), flags=flags)
        renders = []
        for _ in range(r.randint(1, 3)):
            kw = scen.render_kw(r, ops, units=0.1)
            if kw.get("export_type", "pdf") == "pdf" and r.random() < 0.3 \
                    and not kw.get("return_units"):
                kw["pdf_merger"] = "pdfunite"
            renders.append({"kw": kw})
        steps = scen.session_steps("S0", ops, renders, end=False,
                                   **({"ttp": True} if r.random() < 0.25 else {}))
        if r.random() < 0.3:
            steps.append({"s": "show", "sess": "S0", "deck": "d",
                          "slide": r.choice(scen.slide_ids(ops)), "how": "repr"})
        steps.append({"s": "end", "sess": "S0"})
        if r.random() < 0.4:
            steps += scen.session_steps("S1", ops, [{"kw": scen.render_kw(r, ops)}])
        sc = scen.scenario(r, steps)
        s = sc["cfg"]["session"]
        if r.random() < 0.4:
            s["noise"] = r.choice([100, 20000, 70000, 200000])
        if r.random() < 0.4:
            s["latex_noise"] = r.choice([1000, 70000, 300000])
        return sc

    def plan(self, r, sc, pl):
        plans = []
        for _ in range(4):
            fs = []
            for _ in range(r.choice([1, 1, 1, 2])):
                x = r.random()
                if x < 0.65:
                    f = pl.tool(kinds=("die",))
                elif x < 0.8:
                    f = pl.tool(kinds=("noise",))
                elif x < 0.95:
                    f = pl.tool(kinds=("toolerr", "silent"))
                else:
                    f = pl.spawn()
                if f is not None:
                    cls = [e[3] for e in pl.events if e[0] == f.step and e[1] == f.op][0]
                    if f.kind == "die" and f.arg == 0 and cls == "pdfunite":
                        f.arg = 1
                fs.append(f)
            plans.append(fs)
        return plans


PROP = C08()
