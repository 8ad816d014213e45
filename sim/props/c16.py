"""C16: a notebook display shows all fragments and disturbs nothing."""
from .. import scen
from ..prop import Prop, READ_SITES, WRITE_SITES
from .c06 import W6


class W16(W6):
    """What is stored after renders between displays is judged, too."""

    def used(self, c, upto_failed):
        self.count("stores judged after displays")
        return super().used(c, upto_failed)

    def judges_store(self, c):
        return any(st["s"] == "show" for _, st, _ in c.acts)


class C16(Prop):
    id = "C16"
    world = W16
    oracles = {"pages", "output", "raise", "hang", "show", "prune"}

    def gen(self, r):
        kind = "cairo" if r.random() < 0.2 else "inkscape"
        flags = {"latex": r.choice([0, 1]), "ora": r.choice([0, 1]), "frags": r.choice([0.3, 0.8])}
        steps = []
        for i in range(r.randint(1, 2)):
            ops, g = scen.program(r, slides=(1, 3), size=(2, 7), flags=flags,
                                  raw=r.random() < 0.3)
            name = "S%d" % i
            nb = r.random() < 0.7
            dk = {"name_policy": "ignore"} if nb else {}
            steps.append({"s": "open", "sess": name, "notebook": nb})
            decks = []
            for j in range(r.randint(1, 2)):
                d = "d%d" % j
                st = {"s": "deck", "sess": name, "deck": d, "kw": dk, "backend": kind}
                if kind == "inkscape" and r.random() < 0.15:
                    st["ttp"] = True
                steps.append(st)
                decks.append(d)
            for d in decks:
                pos = 0
                while pos < len(ops):
                    n = r.randint(1, 5)
                    steps.append({"s": "ops", "sess": name, "deck": d, "ops": ops[pos:pos + n]})
                    pos += n
                    ids = scen.slide_ids(ops[:pos])
                    if not ids:
                        continue
                    x = r.random()
                    if x < 0.6:
                        how = ["repr", "box", "png"] + (["svg", "svg"] if kind != "cairo" else [])
                        for _ in range(r.randint(1, 2)):
                            steps.append({"s": "show", "sess": name, "deck": d,
                                          "slide": r.choice(ids), "how": r.choice(how)})
                    elif x < 0.75:
                        steps.append({"s": "render", "sess": name, "deck": d,
                                      "kw": scen.render_kw(r, ops[:pos], backend=kind)})
                steps.append({"s": "render", "sess": name, "deck": d,
                              "kw": scen.render_kw(r, ops, backend=kind)})
            steps.append({"s": "end", "sess": name})
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        shows = {st["i"] for st in sc["steps"] if st["s"] == "show"}
        plans = []
        for _ in range(3):
            x = r.random()
            if x < 0.4:
                f = pl.io(None, sites=WRITE_SITES | READ_SITES, steps=shows)
            elif x < 0.7:
                f = pl.tool(steps=shows)
            else:
                f = pl.interrupt(steps=shows)
            plans.append([f])
        return plans


PROP = C16()
