"""Judging rendered pages against the independent model of the deck."""
import lxml.etree as et

from . import assets, model as M, tools
from .world import SVG_BY_ID, World, log_variants, render_kind


class ModelWorld(World):
    """Every successful render is compared with the model, page by page."""

    def model(self, c, log):
        return M.run(log, c.opts.get("kw"), c.session.notebook)

    judge_opaque = False  # whether pages with contents that the model does not know are judged, too

    def model_pages(self, c, st, log, m):
        """Expected pages: ("raw", asset, page) or ("page", slide, fragment)."""
        sel = st.get("kw", {}).get("select")
        order = [m.slides[x] for x in sel] if sel else m.order
        out = []
        for x in order:
            if isinstance(x, tuple):
                n = len(tools.pdf_markers_raw(assets.make(x[1], 1)))
                out += [("raw", x[1], i) for i in range(n)]
            else:
                if x.opaque and not self.judge_opaque:
                    return None
                out += [("page", x, n) for n in range(1, x.steps() + 1)]
        return out

    def expected_pages(self, c, st, rec, log=None):
        return None  # the model replaces the comparison with a clean build

    def judge_render(self, s, c, st, rec, n):
        super().judge_render(s, c, st, rec, n)
        if rec["out"].kind != "ok" or c.tainted or rec.get("pages") is None:
            if rec["out"].kind == "ok" and not c.tainted and not (
                    c.backend == "cairo" and st.get("kw", {}).get("return_units")):
                self.problem("output", "the output is not complete")
            return
        n0 = len(self.problems)
        for log in log_variants(c.log[: rec["loglen"]]):
            del self.problems[n0:]
            m = self.model(c, log)
            exp = self.model_pages(c, st, log, m)
            if exp is None:
                return
            self.judge_model(s, c, st, rec, m, exp, rec["pages"])
            if len(self.problems) == n0:
                break

    # -- one render
    def judge_model(self, s, c, st, rec, m, exp, pages):
        got = []  # ("raw", asset, i) or ("page", root element) or ("cairo", marker)
        grid = st.get("kw", {}).get("slides_per_page")
        if grid and grid[0] * grid[1] > 1:
            exp = self.judge_grid(pages, exp, grid, got)
            if exp is None:
                return
        else:
            for p in pages:
                got.append(self.open_page(p))
        if len(got) != len(exp):
            self.problem("count", f"{len(got)} pages, expected {len(exp)}: "
                         + str([(e[1] if e[0] == "raw" else e[1].id, e[2]) for e in exp][:12]))
            return
        for i, (g, e) in enumerate(zip(got, exp)):
            if e[0] == "raw":
                if g != e:
                    self.problem("order", f"page {i + 1} is {str(g)[:80]}, expected {e}")
                    return
            elif g[0] == "raw":
                self.problem("order", f"page {i + 1} is {g}, expected slide {e[1].id}")
                return
            elif g[0] == "page":
                self.check_page(c, st, e[1], e[2], g[1], i)
            else:
                self.check_cairo(c, st, e[1], e[2], g[1], i)
            if self.problems and self.problems[-1].get("render") == rec["i"]:
                return

    def open_page(self, p):
        if p[0] == "raw":
            return ("raw", p[1], p[3])
        if p[0] == "cairo":
            return p
        return ("page", et.fromstring(SVG_BY_ID[p[1]].encode()))

    def judge_grid(self, pages, exp, grid, got):
        """Splits grid pages into their cells; returns the expected cells in order."""
        limit = grid[0] * grid[1]
        want = []
        for e in exp:
            if e[0] == "raw":
                want.append(None)
            elif want and want[-1] is not None and want[-1] < limit:
                want[-1] += 1
            else:
                want.append(1)
        if len(want) != len(pages):
            self.problem("count", f"{len(pages)} grid pages, expected {len(want)}")
            return None
        for i, (p, n) in enumerate(zip(pages, want)):
            o = self.open_page(p)
            if (n is None) != (o[0] == "raw"):
                self.problem("order", f"grid page {i + 1} is {o[:2]}, expected {n} cells")
                return None
            if n is None:
                got.append(o)
                continue
            cells = M.grid_cells(o[1])
            if cells is None or len(cells) != n:
                self.problem("count", f"grid page {i + 1} has "
                             f"{None if cells is None else len(cells)} slides, expected {n}")
                return None
            bad = M.grid_problem(o[1], cells, grid)
            if bad:
                self.problem("order", f"grid page {i + 1} is {bad}")
                return None
            got += [("page", c[2]) for c in cells]
        return exp

    def check_page(self, c, st, slide, n, root, i):
        pass

    def check_cairo(self, c, st, slide, n, marker, i):
        pass

    def bad(self, oracle, st, msg, **kw):
        self.problem(oracle, msg, render=st["i"], **kw)


def model_pairs(world, c, st, rec):
    """[(model slide, fragment, page)] of a successful render, as far as the model reaches."""
    if rec["out"].kind != "ok" or c.tainted or not rec.get("pages"):
        return []
    if st.get("kw", {}).get("slides_per_page"):
        return []
    log = c.log[: rec["loglen"]]
    if any(isinstance(x, list) for _, v in log for x in v.values()):
        return []
    m = M.run(log, c.opts.get("kw"), c.session.notebook)
    sel = st.get("kw", {}).get("select")
    exp = []
    for x in [m.slides[i] for i in sel] if sel else m.order:
        if isinstance(x, tuple):
            exp += [None] * len(tools.pdf_markers_raw(assets.make(x[1], 1)))
        elif x.opaque:
            return []
        else:
            exp += [(x, n) for n in range(1, x.steps() + 1)]
    if len(exp) != len(rec["pages"]):
        return []  # the subject of C12
    return [(e[0], e[1], p) for e, p in zip(exp, rec["pages"]) if e is not None]


def judge_same(world, pairs):
    """Fragments of a slide that show the same things are the same page."""
    seen = {}
    for slide, n, page in pairs:
        if slide.debug:
            continue  # draws boxes without content, too
        key = (slide.id, tuple((k, id(it)) for k, it in slide.page(n)))
        m, first = seen.setdefault(key, (n, page))
        if m != n:
            world.count("equal fragments compared")
            if first != page:
                world.problem("pages", f"fragments {m} and {n} of slide {slide.id} show the same "
                              f"content, but their pages are {first} and {page}")
                return
