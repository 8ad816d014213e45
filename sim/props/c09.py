"""C09: every measurement uses the reply to its own question."""
from .. import scen
from ..prop import Prop
from ..world import World
from .c02 import TEXTY


class W9(World):
    def attempt(self, session, fn):
        out = super().attempt(session, fn)
        bad = [f for f in out.fired if f.kind in ("garbage", "silent", "toolerr", "nan")
               and f.info.startswith("query-")]
        if bad and out.kind == "ok":
            self.problem("reply", f"the reply to {bad[0].info} was not a number ({bad[0].kind}) and "
                         "the operation went on")
        return out


def framed(r, ops, g):
    """Draws frames that show how large texts are taken to be."""
    out = []
    near = {op["kw"].get(k) for op in ops for k in ("above", "below") if op.get("kw")}
    for op in ops:
        if op["op"] in ("text", "code") and op["id"] not in near and r.random() < 0.6:
            b = g.id("b")
            out.append({"op": "box", "p": op["p"], "id": b, "kw": {}})
            out.append(dict(op, p=b))
            for sl in g.slides:
                if op["id"] in sl["kids"].get(op["p"], ()):
                    sl["kids"][op["p"]].remove(op["id"])
                    sl["kids"][b] = [op["id"]]
                    sl["parent"][op["id"]], sl["parent"][b] = b, op["p"]
            out.append({"op": "rect", "p": b, "id": g.id("i"), "kw": {"color": g.color()}})
        else:
            out.append(op)
    return out


class C09(Prop):
    id = "C09"
    world = W9
    oracles = {"pages", "output", "raise", "hang", "reply"}
    need_faults = True

    def gen(self, r):
        ops, g = scen.program(r, slides=(1, 2), size=(3, 8), flags=TEXTY, assets=())
        ops = framed(r, ops, g)
        renders = [{"kw": scen.render_kw(r, ops, units=0.6)} for _ in range(r.randint(1, 2))]
        steps = scen.session_steps("S0", ops, renders)
        ops2 = scen.mutate(r, ops, g)
        steps += scen.session_steps("S1", ops2, [{"kw": scen.render_kw(r, ops2, units=0.6)}])
        sc = scen.scenario(r, steps)
        sc["cfg"]["chunk"] = r.choice(["rand", "one", "all"])
        sc["cfg"]["session"]["chatter"] = r.choice([0, 0.3, 0.9])
        return sc

    def plan(self, r, sc, pl):
        plans = []
        for _ in range(4):
            fs = []
            for _ in range(r.choice([1, 1, 2, 3])):
                x = r.random()
                if x < 0.6:
                    fs.append(pl.tool(("inkscape",), kinds=(
                        "garbage", "silent", "toolerr", "nan", "die")))
                elif x < 0.9:
                    fs.append(pl.interrupt())
                else:
                    fs.append(pl.io(("tmp",), sites={"write", "open.w"}))
            plans.append(fs)
        return plans


PROP = C09()
