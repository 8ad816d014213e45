"""C02: stored text measurements survive kills and write failures."""
from .. import scen
from ..prop import Prop, WRITE_SITES
from ..world import INK_OTHER

TEXTY = dict(text=6, fit=1, code=1, inline_box=1.5, line_box=0.5, image=0, ora=0, bitmap=0,
             latex=0, shapes=0.5, points=0.3, rawpdf=0, near=0.4)


class C02(Prop):
    id = "C02"
    oracles = {"pages", "output", "raise", "hang", "measure"}

    def gen(self, r):
        ops, g = scen.program(r, slides=(1, 2), size=(3, 8), flags=TEXTY, assets=())
        steps = []
        n = r.randint(2, 4)
        for i in range(n):
            if i and r.random() < 0.5:
                ops = scen.mutate(r, ops, g)
            renders = []
            for _ in range(r.randint(1, 2)):
                kw = scen.render_kw(r, ops, units=0.5)
                if r.random() < 0.15:
                    kw["save_cache"] = False
                renders.append({"kw": kw})
            extra = {}
            if i and r.random() < 0.25:
                extra["ver"] = r.choice(["2.0-sim", "2.1-sim"])
            if i and r.random() < 0.25:
                extra["ink"] = INK_OTHER
            if r.random() < 0.15:
                extra["ttp"] = True
            steps += scen.session_steps("S%d" % i, ops, renders, **extra)
            x = r.random()
            if x < 0.35:
                steps.append({"s": "damage", "how": r.choice(["empty", "cut", "cut", "remove"]),
                              "at": round(r.random(), 3)})
            elif x < 0.45:
                steps.append({"s": "rmcache", "p": 0.5})
        return scen.scenario(r, steps, dressed=False)

    def plan(self, r, sc, pl):
        plans = []
        for _ in range(4):
            fs = []
            if r.random() < 0.6:
                fs.append(pl.crash(lambda st, s, c: c == "queries"))
            else:
                fs.append(pl.io(("queries",)))
            if r.random() < 0.3:
                fs.append(pl.crash(lambda st, s, c: s == "tool" or c == "queries"))
            if r.random() < 0.2:
                fs.append(pl.io(("queries",), sites=WRITE_SITES | {"open.r", "read"}))
            plans.append(fs)
        return plans


PROP = C02()
