"""C19: two sessions may share a cache directory at the same time."""
from .. import scen
from ..kernel import Fault
from ..prop import Prop
from ..world import World


def sched(r):
    x = r.random()
    if x < 0.3:
        return {"kind": "random"}
    if x < 0.7:
        return {"kind": "sticky", "p": r.choice([0.02, 0.1, 0.3])}
    return {"kind": "pct", "depth": r.randint(1, 5), "len": r.choice([300, 1500, 6000])}


class C19(Prop):
    id = "C19"
    oracles = {"pages", "output", "raise", "hang"}

    def gen(self, r):
        kind = "cairo" if r.random() < 0.12 else "inkscape"
        flags = {"text": 4, "latex": r.choice([0, 2]), "ora": r.choice([0, 2]), "rawpdf": 0,
                 "lists": 0.5, "md": 0}
        ops, g = scen.program(r, slides=(1, 2), size=(1, 5), flags=flags, raw=False)
        steps = []
        if r.random() < 0.35:
            # something is in the cache already
            first, _ = scen.program(r, slides=(1, 1), size=(1, 4), flags=flags, raw=False)
            steps += scen.session_steps(
                "S0", ops if r.random() < 0.5 else first,
                [{"kw": {"prune_cache": False}}], deck="d0", backend=kind)
        branches = []
        n = 2 if r.random() < 0.8 else 3
        for i in range(n):
            name = "P%d" % i
            steps.append(dict({"s": "open", "sess": name}, **(
                {"cfg": {"chatter": 0.2}} if r.random() < 0.1 else {})))
            x = r.random()
            mine = ops if x < 0.55 else scen.mutate(r, ops, g)
            k = "cairo" if (kind == "cairo") != (r.random() < 0.1) else "inkscape"
            deck = "e%d" % i
            b = [{"s": "deck", "sess": name, "deck": deck, "backend": k}]
            cut = r.randint(1, len(mine))
            for part in (mine[:cut], mine[cut:]):
                if part:
                    b.append({"s": "ops", "sess": name, "deck": deck, "ops": part})
            have = mine
            for _ in range(r.randint(1, 2)):
                kw = scen.render_kw(r, have, backend=k, prune=0)
                kw["prune_cache"] = False
                b.append({"s": "render", "sess": name, "deck": deck, "kw": kw})
            branches.append(b)
        steps.append({"s": "par", "branches": branches})
        for i in range(n):
            steps.append({"s": "end", "sess": "P%d" % i})
        last = r.choice(branches)
        steps += scen.session_steps(
            "L", [o for st in last if st["s"] == "ops" for o in st["ops"]],
            [{"kw": scen.render_kw(r, ops, formats=False, backend=last[0]["backend"], select=0)}],
            deck="dl", backend=last[0]["backend"])
        cfg = scen.common_cfg(r)
        cfg["sched"] = sched(r)
        sc = scen.scenario(r, steps, cfg)
        sc["assets"] = scen.used_assets([x for b in branches for x in b] + steps)
        return sc

    def plan(self, r, sc, pl):
        plans = []
        par = [st["i"] for st in sc["steps"] if st["s"] == "par"][0]
        here = lambda st, s, c: st == par
        for _ in range(4):
            x = r.random()
            fs = [pl.crash(lambda st, s, c: st == par and (c in ("cache", "queries", "tmp")
                                                          or s in ("tool", "mkdir", "replace")))
                  if x < 0.45 else pl.crash(here)]
            if x > 0.8:
                fs.append(pl.io(("cache", "queries"), steps={par}))
            elif x > 0.7:
                fs = [pl.tool(steps={par})]
            plans.append(fs)
        return plans


PROP = C19()
