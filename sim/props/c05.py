"""C05: caching is transparent over any history of sessions."""
from .. import scen
from ..prop import Prop
from ..world import INK_OTHER


def edited(r, used):
    st = {"s": "asset", "asset": r.choice(used)}
    if r.random() < 0.5:
        st["v"] = 1  # back to the first version
    return st


class C05(Prop):
    id = "C05"
    oracles = {"pages", "output", "raise", "hang"}

    def gen(self, r):
        flags = {"latex": r.choice([0, 2]), "ora": r.choice([0, 2])}
        progs = []
        for _ in range(r.randint(1, 2)):
            progs.append(scen.program(r, slides=(1, 2), size=(2, 6), flags=flags))
        steps = []
        for i in range(r.randint(2, 4)):
            name = "S%d" % i
            extra = {}
            if i and r.random() < 0.2:
                extra["ver"] = r.choice(["2.0-sim", "2.1-sim"])
            if i and r.random() < 0.25:
                extra["ink"] = r.choice([INK_OTHER, None])
            steps.append(dict({"s": "open", "sess": name}, **extra))
            live = []
            for j in range(r.randint(1, 2)):
                k = r.randrange(len(progs))
                ops, g = progs[k]
                if r.random() < 0.4:
                    ops = scen.mutate(r, ops, g)
                    progs[k] = (ops, g)
                if r.random() < 0.2:
                    ops = scen.twins(r, ops, g, r.randint(1, 2))
                if r.random() < 0.12:
                    # the same slide with some number a little changed
                    ops = scen.repeat_slides(r, ops, g)
                    ops = ops[:-6] + [scen.nudge(r, o) for o in ops[-6:]]
                d = "d%d" % j
                deck = {"s": "deck", "sess": name, "deck": d}
                if r.random() < 0.25:
                    deck["ttp"] = True
                elif r.random() < 0.1:
                    deck["backend"] = "cairo"
                if r.random() < 0.15 and "backend" not in deck:
                    deck["ink"] = True
                if r.random() < 0.06:
                    deck["kw"] = {"debug": True}
                steps.append(deck)
                cut = r.randint(0, len(ops))
                steps.append({"s": "ops", "sess": name, "deck": d, "ops": ops[:cut]})
                live.append((deck, ops, cut))
            for deck, ops, cut in live:
                kind = deck.get("backend", "inkscape")
                ids = set(scen.slide_ids(ops[:cut]))
                if ids and r.random() < 0.5:
                    steps.append({"s": "render", "sess": name, "deck": deck["deck"],
                                  "kw": scen.render_kw(r, ops[:cut], backend=kind)})
                steps.append({"s": "ops", "sess": name, "deck": deck["deck"], "ops": ops[cut:]})
                used = [o["asset"] for o in ops if o.get("asset")]
                if used and r.random() < 0.25:
                    steps.append(edited(r, used))
            for _ in range(r.randint(1, 3)):
                deck, ops, cut = r.choice(live)
                if r.random() < 0.2:
                    steps.append({"s": "rmcache", "p": r.choice([0.3, 1.0])})
                steps.append({"s": "render", "sess": name, "deck": deck["deck"],
                              "kw": scen.render_kw(r, ops, backend=deck.get("backend", "inkscape"))})
            steps.append({"s": "end", "sess": name})
            used = [o["asset"] for _, ops, _ in live for o in ops if o.get("asset")]
            if used and r.random() < 0.4:
                steps.append(edited(r, used))
            if r.random() < 0.25:
                steps.append({"s": "rmcache", "p": r.choice([0.2, 0.6])})
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        plans = []
        assets = sc["assets"]
        if assets:
            for _ in range(2 if any(a.endswith(".ora") for a in assets) else 1):
                plans.append([pl.edit(assets)])
        plans.append([pl.short(), pl.short()])
        return plans


PROP = C05()
