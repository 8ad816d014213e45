"""C07: unchanged content is neither measured nor converted again."""
from .. import scen
from ..prop import Prop
from ..world import World


class W7(World):
    def after(self, s, st, out):
        """Within one session nothing is measured, exported or converted twice."""
        k = self.info.setdefault("dup", {}).setdefault(s.name, [0, 0, 0])
        for n, (what, items) in enumerate((("measurement", s.queries), ("export", s.exports),
                                           ("LaTeX run", s.latex_runs))):
            seen = set(items[: k[n]])
            for x in items[k[n]:]:
                if x in seen and x[0] != "pdfunite" and x[1] is not None:
                    self.problem("work", f"the same {what} was made again: {x}")
                seen.add(x)
            k[n] = len(items)
        c = s.decks.get(st.get("deck"))
        if c is not None:
            # however elsie hands a snippet to LaTeX, that happens once per snippet
            used = {(o["text"], o.get("header"), o.get("tail"))
                    for d in s.decks.values() for o, _ in d.log if o["op"] == "latex"}
            runs = sum(1 for x in s.latex_runs if x[0] == "pdflatex")
            if runs > len(used) and not self.k.fired and not c.tainted:
                self.problem("work", f"LaTeX ran {runs} times for {len(used)} snippets")
        if st.get("warm") and st["s"] == "render" and out.kind == "ok":
            w = s.work()
            pdfunite = sum(1 for x in s.latex_runs if x[0] == "pdfunite")
            w = (w[0], w[1], w[2] - pdfunite)
            if w != (0, 0, 0) and not self.k.fired:
                self.problem("work", f"the same deck again took {w[0]} measurements, {w[1]} exports "
                             f"and {w[2]} LaTeX tool runs")
            self.count("warm renders")


class C07(Prop):
    id = "C07"
    world = W7
    oracles = {"work"}

    def gen(self, r):
        flags = {"latex": r.choice([0, 2]), "ora": r.choice([0, 2]), "latex_pool": 3}
        ops, g = scen.program(r, slides=(1, 3), size=(2, 7), flags=flags)
        steps = []
        for i in range(r.randint(1, 2)):
            if i:
                ops = scen.mutate(r, ops, g)
            name = "A%d" % i
            st = scen.session_steps(name, ops, [], end=False, ttp=r.random() < 0.2)
            cut = r.randint(1, len(ops))
            if r.random() < 0.5 and scen.slide_ids(ops[:cut]):
                # renders in between
                st[2]["ops"] = ops[:cut]
                for _ in range(r.randint(1, 2)):
                    st.append({"s": "render", "sess": name, "deck": "d",
                               "kw": scen.render_kw(r, ops[:cut], units=0.2)})
                st.append({"s": "ops", "sess": name, "deck": "d", "ops": ops[cut:]})
            for _ in range(r.randint(0, 3)):
                kw = scen.render_kw(r, ops, units=0.2)
                st.append({"s": "render", "sess": name, "deck": "d", "kw": kw})
                if r.random() < 0.2:
                    st.append({"s": "show", "sess": name, "deck": "d",
                               "slide": r.choice(scen.slide_ids(ops)),
                               "how": r.choice(["repr", "svg"])})
            kw = scen.render_kw(r, ops, units=0.1)
            kw.pop("save_cache", None)
            st.append({"s": "render", "sess": name, "deck": "d", "kw": kw})
            st.append({"s": "end", "sess": name})
            steps += st
            warm = scen.session_steps("B%d" % i, ops, [{"kw": kw, "warm": True}],
                                      ttp=bool(st[1].get("ttp")))
            steps += warm
        return scen.scenario(r, steps, dressed=False)

    def plan(self, r, sc, pl):
        return [[pl.short(), pl.short()]]

    def judge(self, w):
        pass


PROP = C07()
