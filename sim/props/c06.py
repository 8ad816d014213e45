"""C06: pruning removes exactly the unused artefacts."""
import json
import os

from .. import scen
from ..prop import Prop, READ_SITES, WRITE_SITES
from ..world import World, in_clean_room, listing, real_read

FOREIGN = ["notes.txt", "cached.pdf", "mycache.pdf", "1-1.svg", "queries.bak", "old.cache",
           "xcache.0.pdf", "Cache.1.svg"]


def entries(path):
    """Stored measurements as a set, or None when the file cannot be read as JSON."""
    try:
        data = json.loads(real_read(path))
        out = set()
        for v in data.values():
            if isinstance(v, list):
                out.update(json.dumps(x) for x in v)
        return out
    except (ValueError, OSError, AttributeError):
        return None


def queries_file(path):
    if os.path.isdir(path):
        for n in sorted(os.listdir(path)):
            if n.startswith("queries") and n.endswith(".cache"):
                return os.path.join(path, n)
    return None


class W6(World):
    def used(self, c, upto_failed):
        """What this deck uses, from a replay of its history over an empty cache."""
        acts = [a for a in c.acts if upto_failed or a[2]]
        dk = {"kw": c.opts.get("kw", {}), "backend": c.backend, "ttp": bool(c.opts.get("ttp"))}

        def body(cw, ctx, add):
            cache = os.path.join(cw.root, "cache")
            done = 0
            for loglen, st, _ in acts:
                while done < loglen:
                    add(*c.log[done])
                    done += 1
                kw = self.render_kw(ctx, st)
                kw.update(prune_cache=False)
                if st["s"] == "show":
                    sl = ctx.get("S:" + st["slide"])
                    ctx.session.mods["elsie.render.jupyter"].render_slide_html(
                        sl, "svg" if st.get("how") == "svg" else "png")
                else:
                    out = os.path.join(cw.root, "out.pdf")
                    if st.get("pptx"):
                        kw.update(export_type="png")
                    ctx.deck.render(out, **kw)
            q = queries_file(cache)
            return {n for n in listing(cache) if n.startswith("cache.")}, q and entries(q)

        return in_clean_room(self, c, dk, body, forget=False)

    def judges_store(self, c):
        return True

    def after(self, s, st, out):
        if st["s"] == "deck":
            if out.ok:
                c = s.decks[st["deck"]]
                c.created = listing(c.cache)
                c.acts = []
            return
        for name, data in self.info.get("foreign", {}).items():
            p = os.path.join(self.root, name)
            if not os.path.isfile(p) or real_read(p) != data:
                self.problem("prune", f"{name}, which is no cache entry, was removed or changed")
                self.info["foreign"].pop(name)
                break
        if st["s"] not in ("render", "show") or out.kind in ("crash", "skip", "hang"):
            return
        c = s.decks[st["deck"]]
        rec = self.renders[-1] if st["s"] == "render" else None
        c.acts.append((len(c.log), st, out.ok))
        if rec is None:
            return
        kw = st.get("kw", {})
        before, after = rec["before"], rec["after"]
        lost = sorted(n for n in before if n.startswith("cache.") and after.get(n) != before[n])
        exports = not kw.get("return_units")
        if not out.ok:
            if any(f.site and f.site.startswith("unlink") for f in out.fired):
                return
            if lost:
                self.problem("prune", f"a failed render removed or changed {lost[:3]}")
            return
        if kw.get("prune_cache", True) is False:
            if lost:
                self.problem("prune", f"a render without pruning removed or changed {lost[:3]}")
            return
        if not exports or c.tainted or not self.judges_store(c):
            return
        self.count("pruned renders")
        low, q = self.used(c, False)
        clean = s.name not in self.faulted
        high = low if clean else self.used(c, True)[0]
        for n in sorted(after):
            if n.startswith("cache.") and n in c.created and n not in high:
                self.problem("prune", f"{n} was there when the deck was created, is unused and "
                             "was not removed")
                return
        for n in lost:
            if n in low or n not in c.created:
                self.problem("prune", f"{n} was removed although "
                             + ("it is used" if n in low else "it was made later"))
                return
        self.count("files pruned", len(lost))
        if kw.get("save_cache", True) and c.backend != "cairo" and q is not None:
            f = queries_file(c.cache)
            have = f and entries(f)
            if have is None:
                return
            if q - have:
                self.problem("prune", f"{len(q - have)} measurements in use are not stored: "
                             + sorted(q - have)[0][:300])
            elif clean and have - q:
                self.problem("prune", f"{len(have - q)} unused measurements stay stored: "
                             + sorted(have - q)[0][:300])

    def do_foreign(self, st):
        super().do_foreign(st)
        rel = os.path.join(st.get("cache", "cache"), st["name"])
        self.info.setdefault("foreign", {})[rel] = real_read(os.path.join(self.root, rel))


class C06(Prop):
    id = "C06"
    world = W6
    oracles = {"prune"}

    def gen(self, r):
        flags = {"latex": r.choice([0, 2]), "ora": r.choice([0, 2]), "latex_pool": 3}
        ops, g = scen.program(r, slides=(1, 3), size=(2, 6), flags=flags)
        steps = []
        for n in r.sample(FOREIGN, r.randint(0, 2)):
            steps.append({"s": "foreign", "name": n, "data": n})
        for i in range(r.randint(1, 3)):
            if i:
                ops = scen.mutate(r, ops, g)
            name = "S%d" % i
            kind = "cairo" if r.random() < 0.12 else "inkscape"
            extra = {"ver": "2.1-sim"} if i and r.random() < 0.1 else {}
            st = scen.session_steps(name, ops, [], end=False, backend=kind, **extra)
            if kind == "inkscape" and r.random() < 0.15:
                st[1]["ttp"] = True
            cut = r.randint(1, len(ops))
            if r.random() < 0.5 and scen.slide_ids(ops[:cut]):
                st[2]["ops"] = ops[:cut]
                for _ in range(r.randint(1, 2)):
                    st.append({"s": "render", "sess": name, "deck": "d",
                               "kw": scen.render_kw(r, ops[:cut], backend=kind, units=0.15,
                                                    prune=0.6)})
                st.append({"s": "ops", "sess": name, "deck": "d", "ops": ops[cut:]})
            for _ in range(r.randint(1, 3)):
                st.append({"s": "render", "sess": name, "deck": "d",
                           "kw": scen.render_kw(r, ops, backend=kind, units=0.15, prune=0.7)})
                if kind == "inkscape" and r.random() < 0.25:
                    st.append({"s": "show", "sess": name, "deck": "d",
                               "slide": r.choice(scen.slide_ids(ops)),
                               "how": r.choice(["repr", "svg"])})
            if r.random() < 0.3:
                st.insert(r.randint(3, len(st)), {"s": "foreign", "name": r.choice(FOREIGN)})
            st.append({"s": "end", "sess": name})
            steps += st
            if r.random() < 0.15:
                steps.append({"s": "rmcache", "p": 0.3})
        return scen.scenario(r, steps)

    def plan(self, r, sc, pl):
        plans = []
        for _ in range(3):
            x = r.random()
            if x < 0.15:
                fs = [pl.io(("out",), sites=WRITE_SITES)]
            elif x < 0.4:
                fs = [pl.io(("cache", "out", "tmp"), sites=WRITE_SITES | READ_SITES)]
            elif x < 0.7:
                fs = [pl.tool()]
            elif x < 0.85:
                fs = [pl.interrupt()]
            else:
                fs = [pl.crash()]
            plans.append(fs)
        return plans


PROP = C06()
