"""C01: a killed or failed session never poisons later renders over its cache."""
from ..prop import Prop
from .. import scen


class C01(Prop):
    id = "C01"
    oracles = {"pages", "output", "raise", "hang"}
    need_faults = True

    def gen(self, r):
        flags = {"latex": r.choice([0, 1, 3]), "ora": r.choice([0, 1, 3])}
        ops, g = scen.program(r, slides=(1, 2), size=(2, 7), flags=flags)
        backend = r.choice(["inkscape"] * 5 + ["cairo"])
        steps = []
        n = r.randint(2, 3)
        for i in range(n):
            if i and r.random() < 0.4:
                ops = scen.mutate(r, ops, g)
            renders = [{"kw": scen.render_kw(r, ops, backend=backend, units=0)}
                       for _ in range(r.randint(1, 2))]
            kind = backend if r.random() < 0.85 else r.choice(["inkscape", "cairo"])
            if kind != backend:
                renders = [{"kw": scen.render_kw(r, ops, backend=kind, units=0)}]
            steps += scen.session_steps("S%d" % i, ops, renders, backend=kind)
            if r.random() < 0.1:
                steps.append({"s": "rmcache", "p": 0.4})
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        last = max(st["i"] for st in sc["steps"] if st["s"] == "open")
        mine = lambda st: st < last
        plans = []
        for _ in range(4):
            x = r.random()
            fs = []
            if x < 0.7:
                y = r.random()
                if y < 0.2:
                    # a child process dies with the session while it writes
                    fs.append(pl.crash(lambda st, s, c: mine(st) and s == "tool"
                                       and (c != "inkscape" or y < 0.05)))
                elif y < 0.7:
                    fs.append(pl.crash(lambda st, s, c: mine(st) and (
                        c in ("cache", "queries") or s == "tool")))
                else:
                    fs.append(pl.crash(lambda st, s, c: mine(st)))
            else:
                fs.append(pl.io(("cache", "queries"), steps=set(range(last))))
                if r.random() < 0.4:
                    fs.append(pl.crash(lambda st, s, c: mine(st)))
            if r.random() < 0.2:
                fs.append(pl.crash(lambda st, s, c: mine(st)))
            plans.append(fs)
        return plans

    def relevant(self, p):
        # the failed session itself is the subject of other properties
        return super().relevant(p) and not p.get("faulted")


PROP = C01()
