"""C03: a failed conversion is reported, not recorded, and can be retried."""
from .. import scen
from ..prop import Prop, READ_SITES, WRITE_SITES
from ..world import World


class W3(World):
    def run_op(self, s, c, op, st):
        before = len(s.latex_runs)
        out = super().run_op(s, c, op, st)
        if op.get("bad") and op["op"] == "latex" and out is not None and out.kind == "err" \
                and not out.fired and len(s.latex_runs) == before:
            self.problem("record", "a snippet that failed before was not tried again")
        if out is not None and out.kind == "ok" and any(
                f.kind in ("toolerr", "silent") and f.info == "export-do" for f in out.fired):
            self.problem("record", "a failed conversion was not reported")
        return out


class C03(Prop):
    id = "C03"
    world = W3
    oracles = {"pages", "output", "raise", "hang", "accept", "record"}
    need_faults = True

    def gen(self, r):
        flags = {"latex": r.choice([1, 4]), "ora": r.choice([1, 4]), "image": 1, "text": 2,
                 "latex_pool": 4}
        ops, g = scen.program(r, slides=(1, 2), size=(3, 8), flags=flags)
        # snippets that can never be converted, tried more than once
        for _ in range(r.randint(0, 3)):
            bad = {"op": "latex", "p": r.choice(scen.slide_ids(ops)), "bad": True,
                   "text": "$\\fail_{%d}$" % r.randrange(2)}
            ops.insert(r.randint(0, len(ops)), bad)
        order = [o["id"] for o in ops if o["op"] == "slide"]
        seen = set()
        fixed = []
        for o in ops:  # only after their slide exists
            if o["op"] == "slide":
                seen.add(o["id"])
            if o.get("bad") and o["p"] not in seen:
                continue
            fixed.append(o)
        ops = fixed
        steps = []
        for i in range(r.randint(1, 2)):
            renders = [{"kw": scen.render_kw(r, ops, units=0)} for _ in range(r.randint(1, 3))]
            st = scen.session_steps("S%d" % i, ops, renders)
            used = [o["asset"] for o in ops if o["op"] == "image" and o["asset"].endswith(".ora")]
            if used and r.random() < 0.5:
                a = r.choice(used)
                st.insert(2, {"s": "spoil", "asset": a, "how": r.choice(["garbage", "cut", "empty"])})
                st.insert(4, {"s": "restore", "asset": a})
                st.insert(5, {"s": "ops", "sess": "S%d" % i, "deck": "d", "ops": [
                    dict(o, id=o["id"] + "x") for o in ops if o.get("asset") == a]})
            steps += st
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        plans = []
        for _ in range(4):
            fs = []
            for _ in range(r.choice([1, 1, 2, 3])):
                x = r.random()
                if x < 0.5:
                    fs.append(pl.tool(kinds=("die", "toolerr", "toolerr", "silent")))
                elif x < 0.6:
                    fs.append(pl.spawn())
                elif x < 0.9:
                    fs.append(pl.io(("cache", "tmp"), sites=WRITE_SITES | READ_SITES))
                else:
                    fs.append(pl.interrupt())
            plans.append(fs)
        return plans


PROP = C03()
