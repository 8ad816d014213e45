"""C11: slides and decks built in interleaved order do not affect each other."""
from .. import scen
from ..deck import Gen
from ..prop import ASSETS, Prop
from ..world import World, clean_pages
from .. import world as W


class W11(World):
    def expected_pages(self, c, st, rec, log=None):
        log = c.log[: rec["loglen"]] if log is None else log
        real = W.clean_pages

        def alone(world, c, log, **kw):
            out = {}
            for op, _ in log:
                if op["op"] == "slide":
                    out[op["id"]] = real(world, c, log, alone=op["id"])[op["id"]]
            return out

        W.clean_pages = alone
        try:
            return super().expected_pages(c, st, rec, log)
        finally:
            W.clean_pages = real


class C11(Prop):
    id = "C11"
    world = W11
    oracles = {"pages", "output", "raise", "hang"}

    def gen(self, r):
        steps = [{"s": "open", "sess": "S0"}]
        streams = []
        decks = r.randint(1, 2)
        flags = {"lists": 2, "styles": 2, "latex": r.choice([0, 1]), "frags": r.choice([0.3, 0.8]),
                 "hl": r.choice([0.1, 0.6]), "code": r.choice([0, 1, 3]),
                 "md": r.choice([0, 0.5, 2]), "points": r.choice([0.5, 1, 6]), "rich": r.choice([0.1, 0.3, 0.8])}
        for j in range(decks):
            both = bool(j and steps[1].get("backend"))
            kind = "cairo" if r.random() < (0.7 if both else 0.15) else "inkscape"
            d = {"s": "deck", "sess": "S0", "deck": "d%d" % j}
            if kind == "cairo":
                d["backend"] = "cairo"
            elif r.random() < 0.15:
                d["ttp"] = True
            if j and r.random() < 0.5 and not (steps[1].get("ttp") or d.get("ttp")) \
                    and steps[1].get("backend") == d.get("backend"):
                d["share"] = "d0"
            if r.random() < 0.3:
                d["cache"] = "cache2" if j else "cache"
            if r.random() < 0.3:
                d["kw"] = {"width": 200, "height": 150} if kind == "cairo" else {
                    "width": 800, "height": 600}
            if r.random() < 0.2:
                d.setdefault("kw", {})["bg_color"] = "#eeffee"
            g = Gen(r, None, ASSETS)
            g.swarm()
            g.f.update(flags)
            g.n = j * 1000
            ops = []
            for _ in range(r.randint(2, 3)):
                if r.random() < 0.4:
                    ops.append(g.g_deck_style())
                ops.append(g.slide())
                # content goes to any slide that exists already
                for _ in range(r.randint(2, 6)):
                    ops.append(g.content())
            for _ in range(r.randint(0, 4)):
                ops.append(g.content())
            steps.append(d)
            streams.append((d, ops, kind))
        pos = [0] * decks
        while any(p < len(s[1]) for p, s in zip(pos, streams)):
            j = r.choice([j for j in range(decks) if pos[j] < len(streams[j][1])])
            n = r.randint(1, 6)
            d, ops, kind = streams[j]
            steps.append({"s": "ops", "sess": "S0", "deck": d["deck"], "ops": ops[pos[j]:pos[j] + n]})
            pos[j] += n
            if r.random() < 0.12:
                used = sorted({o["asset"] for _, oo, _ in streams for o in oo
                               if o["op"] == "image"})
                if used:
                    steps.append({"s": "asset", "asset": r.choice(used)})
            if scen.slide_ids(ops[:pos[j]]) and r.random() < 0.15:
                steps.append({"s": "render", "sess": "S0", "deck": d["deck"],
                              "kw": scen.render_kw(r, ops[:pos[j]], backend=kind, prune=0.2)})
        for d, ops, kind in streams:
            kw = scen.render_kw(r, ops, backend=kind, units=0.5, prune=0.3)
            steps.append({"s": "render", "sess": "S0", "deck": d["deck"], "kw": kw})
        steps.append({"s": "end", "sess": "S0"})
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        return [[pl.io(("cache", "tmp", "asset"), sites={"write", "read", "open.w", "open.r"})],
                [pl.tool()]]


PROP = C11()
