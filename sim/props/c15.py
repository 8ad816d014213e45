"""C15: no operation leaves temporary files or open documents behind."""
import os
import re

from .. import scen, seams
from ..prop import Prop, READ_SITES, WRITE_SITES
from ..world import World, clean_pages, complete_file, real_read


def snapshot(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), root) + "/"] = None
        for n in files:
            p = os.path.join(base, n)
            st = seams.real["stat"](p)
            out[os.path.relpath(p, root)] = (st.st_ino, st.st_size, st.st_mtime_ns)
    return out


def s_debug(session):
    return any((c.opts.get("kw") or {}).get("debug") for c in session.decks.values())


class W15(World):
    def attempt(self, session, fn):
        if session.dead:
            return super().attempt(session, fn)
        before = snapshot(self.root)
        out = super().attempt(session, fn)
        if out.kind in ("crash", "hang", "skip") or session.dead:
            return out
        excused = any(f.site.startswith("unlink") for f in out.fired)
        after = snapshot(self.root)
        self.count("states compared")
        caches = {c.get("cache", "cache") for c in self.sc["steps"] if c["s"] == "deck"}
        for n in sorted(after):
            if after[n] == before.get(n, 0) or excused:
                continue
            top = n.rstrip("/").split("/")[0]
            if top in caches:
                if n.endswith("/"):
                    if n.count("/") > 1:
                        self.problem("left", f"directory {n} was left in the cache directory "
                                     f"({out.brief()})")
                    continue
                name = n.split("/", 1)[1]
                ok = name.startswith(("cache.", "queries"))
                if s_debug(session) and re.fullmatch(r"\d+-\d+\.svg", name):
                    continue  # the deck was asked to keep its pages there
                if not ok or not complete_file(name, real_read(os.path.join(self.root, n))):
                    self.problem("left", f"{n} was left in the cache directory ({out.brief()})")
                    return out
            elif not n.startswith("out-") or n.endswith("/"):
                self.problem("left", f"{n} was left behind ({out.brief()})")
                return out
        self.fresh = [n for n in after if n not in before
                      and n.split("/")[-1].startswith("cache.")]
        docs = session.open_docs()
        if docs:
            self.problem("left", f"documents stay open in Inkscape: {docs[:2]} ({out.brief()})")
        return out


    def judge_render(self, s, c, st, rec, n):
        super().judge_render(s, c, st, rec, n)
        out = rec["out"]
        if c.backend != "cairo" or out.kind != "err" or out.fired or c.tainted:
            return
        # a page that cannot be drawn leaves nothing; those that were drawn before it may stay
        may = 0
        for what, sid in self.order_of_slides(c, st, rec["loglen"]) or ():
            if what == "pdf":
                continue
            p = clean_pages(self, c, c.log[: rec["loglen"]])[sid]
            if p[0] == "error":
                may += c.h["S:" + sid].current_fragment() - 1
                break
            may += len(p[1]["pdf"])
        else:
            return
        self.count("undrawable pages")
        if len(self.fresh) > may:
            self.problem("left", f"{len(self.fresh)} pages were left in the cache directory, at "
                         f"most {may} could be drawn ({out.brief()})")


class C15(Prop):
    id = "C15"
    world = W15
    oracles = {"left"}

    def gen(self, r):
        kind = "cairo" if r.random() < 0.15 else "inkscape"
        flags = {"latex": r.choice([1, 3]), "ora": r.choice([1, 3]), "text": 3}
        steps = []
        for i in range(r.randint(1, 2)):
            ops, g = scen.program(r, slides=(1, 2), size=(2, 7), flags=flags)
            for _ in range(r.randint(0, 2)):
                ops.append({"op": "latex", "p": r.choice(scen.slide_ids(ops)), "bad": True,
                            "text": "$\\fail_{%d}$" % r.randrange(2)})
            if r.random() < (0.4 if kind == "cairo" else 0.05):
                # the direction of the arrow cannot be told: no page can be drawn
                ops.append({"op": "line", "p": r.choice(scen.slide_ids(ops)), "id": g.id("i"),
                            "points": [[5, 5], [5, 5]],
                            "kw": {"color": g.color(), "end_arrow": 10}})
            renders = []
            for _ in range(r.randint(1, 3)):
                k = scen.render_kw(r, ops, backend=kind, units=0.1)
                st = {"kw": k}
                raw = any(o["op"] == "pdf" for o in ops)
                if r.random() < 0.15 and not raw and not k.get("return_units"):
                    k.pop("export_type", None)
                    k.pop("pdf_merger", None)
                    st["pptx"] = True
                elif r.random() < 0.15 and kind == "inkscape":
                    k["slides_per_page"] = [2, 1]
                renders.append(st)
            st = scen.session_steps("S%d" % i, ops, renders, backend=kind, end=False)
            if r.random() < 0.2:
                st[1].setdefault("kw", {})["debug"] = True
            if r.random() < 0.3:
                st.insert(r.randint(3, len(st)), {
                    "s": "show", "sess": "S%d" % i, "deck": "d",
                    "slide": r.choice(scen.slide_ids(ops)), "how": "repr"})
            st.append({"s": "end", "sess": "S%d" % i})
            used = [o["asset"] for o in ops if o["op"] == "image"
                    and o["asset"].endswith((".ora", ".svg"))]
            if used and r.random() < 0.4:
                a = r.choice(used)
                st.insert(2, {"s": "spoil", "asset": a, "how": r.choice(
                    ["garbage", "cut", "empty"] + ["nosize"] * a.endswith(".svg"))})
                st.insert(4, {"s": "restore", "asset": a})
            steps += st
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        plans = []
        for _ in range(4):
            fs = []
            for _ in range(r.choice([1, 1, 2])):
                x = r.random()
                if x < 0.35:
                    fs.append(pl.io(None, sites={"write", "open.w", "replace", "read", "open.r",
                                                 "mkdir"}))
                elif x < 0.65:
                    fs.append(pl.tool())
                elif x < 0.75:
                    fs.append(pl.spawn())
                else:
                    fs.append(pl.interrupt())
            plans.append(fs)
        return plans


PROP = C15()
