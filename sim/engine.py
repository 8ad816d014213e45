"""Runs scenarios, plans faults, minimises failures; lives in the worker processes."""
import gc
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback

from . import kernel as K
from . import loader, prop as P, seams, world as W
from .kernel import Fault, SimError, SimHang

SCRATCH = None
CPU_LIMIT = 60


def prepare():
    global SCRATCH
    seams.install()
    loader.install()
    gc.disable()
    base = "/dev/shm" if os.path.isdir("/dev/shm") else "/tmp"
    SCRATCH = os.path.join(base, "vsim-%d" % os.getpid())
    # warm up lazily imported libraries outside of any simulation
    import PyPDF2, cairocffi, pangocairocffi, cairosvg, cssselect2, marko, pygments.lexers  # noqa
    from pygments.lexers import get_lexer_by_name
    for n in ("python", "c", "rust"):
        get_lexer_by_name(n)
    from PIL import Image
    Image.init()
    import base64, uuid, zipfile, asyncio, logging  # noqa
    loader.load(W.VER)
    loader.clear()


def load_prop(pid):
    return importlib.import_module("sim.props." + pid.lower()).PROP


def _alarm(signum, frame):
    k = K.CURRENT
    if k is not None:
        k.hang = k.hang or "no progress (endless computation)"
    raise SimHang("no progress (endless computation)")


def faults_from(data):
    return [Fault(d["kind"], d.get("arg"), d["step"], d["op"]) for d in data]


def faults_to(faults):
    return [{"kind": f.kind, "arg": f.arg, "step": f.step, "op": f.op,
             "site": f.site, "fired": f.fired} for f in faults]


def run(prop, sc, faults=(), profile=False, trace=False):
    """One simulated run from fresh state. Returns the world after judgement."""
    root = SCRATCH
    for d in (root, root + "-clean"):
        if os.path.isdir(d):
            W.real_rmtree(d)
    K.CURRENT = None
    w = prop.world(sc, root, faults, profile=profile, trace=trace)
    w.prop = prop
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        try:
            w.run()
        except W.CleanFailed as e:
            w.problem("pages", "accepted content cannot be built again from an empty cache: "
                      + str(e)[-1200:])
        except SimHang as e:
            w.problem("hang", str(e))
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        prop.judge(w)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        K.CURRENT = None
    w.found = [p for p in w.problems if prop.relevant(p)]
    w.sessions_count = len(w.sessions)
    return w


def scenario(prop, seed):
    r = random.Random("%s/%s" % (prop.id, seed))
    sc = prop.gen(r)
    sc["seed"] = seed
    sc["prop"] = prop.id
    return sc


class Stats:
    def __init__(self):
        self.runs = self.seeds = self.events = 0
        self.sim_time = 0.0
        self.faults = {}
        self.sites = {}
        self.digests = set()
        self.scheds = set()
        self.nontrivial = set()
        self.counts = {}
        self.samples = []
        self.fault_runs = 0
        self.max_tasks = 0
        self.clean = 0

    def add(self, prop, sc, faults, w):
        self.runs += 1
        self.events += w.k.total_events
        self.sim_time += w.k.sim_time
        d = w.k.digest()
        self.digests.add(d)
        if w.k.switches:
            self.scheds.add(w.k.sched_hash.hexdigest())
        for f in w.k.fired:
            key = f.kind + "@" + (f.site or "?")
            self.faults[key] = self.faults.get(key, 0) + 1
        if faults:
            self.fault_runs += 1
        for s in w.k.sites:
            self.sites[s] = self.sites.get(s, 0) + w.k.sites[s]
        for c, n in w.counts.items():
            self.counts[c] = self.counts.get(c, 0) + n
        if prop.nontrivial(w, faults):
            self.nontrivial.add(d)
        if len(self.samples) < 2 and (w.k.fired or not prop.need_faults):
            self.samples.append({
                "seed": sc["seed"], "steps": [
                    {k: (len(v) if k == "ops" else v) for k, v in st.items()}
                    for st in sc["steps"]][:14],
                "faults": faults_to(faults), "events": w.k.total_events, "digest": d[:16],
                "outcomes": [f"step {i} {what}: {o.brief()}" for i, what, o in w.history][:20]})

    def to_json(self):
        d = dict(self.__dict__)
        for k in ("digests", "scheds", "nontrivial"):
            d[k] = sorted(x[:16] for x in d[k])
        return d


def explore_seed(prop, seed, stats):
    """All runs of one seed. Returns a violation record or None."""
    sc = scenario(prop, seed)
    w = run(prop, sc, (), profile=True)
    stats.seeds += 1
    stats.add(prop, sc, (), w)
    if w.found:
        return record(prop, sc, (), w)
    pl = P.Planner(random.Random("%s/%s/plan" % (prop.id, seed)), w.k.profile)
    for faults in prop.plan(pl.r, sc, pl):
        faults = [f for f in faults if f is not None]
        if not faults:
            continue
        w = run(prop, sc, faults)
        stats.add(prop, sc, faults, w)
        if w.found:
            return record(prop, sc, faults, w)
    return None


def record(prop, sc, faults, w):
    return {"property": prop.id, "seed": sc["seed"], "scenario": sc,
            "faults": faults_to(faults), "problem": strip(w.found[0]),
            "hashseed": int(os.environ.get("PYTHONHASHSEED", 0)),
            "all": [strip(p) for p in w.found[:6]], "digest": w.k.digest()}


def strip(p):
    return {k: v for k, v in p.items() if v is not None}


# ---------------------------------------------------------------- minimiser
class Minimiser:
    def __init__(self, prop, rec, budget):
        self.prop = prop
        self.rec = rec
        self.want = rec["problem"]["oracle"]
        self.end = time.process_time() + budget
        self.tries = 0

    def test(self, sc, faults):
        """A record when this smaller case still fails in the same way."""
        if time.process_time() > self.end:
            return None
        self.tries += 1
        try:
            fs = faults_from(faults)
            w = run(self.prop, sc, fs)
        except Exception:
            return None
        hit = [p for p in w.found if p["oracle"] == self.want]
        if not hit:
            return None
        r = record(self.prop, sc, fs, w)
        r["problem"] = strip(hit[0])
        return r

    def relocate(self, sc, faults):
        """Finds new ordinals for faults after the scenario changed: same site, same step."""
        if not faults:
            return [[]]
        try:
            w = run(self.prop, sc, (), profile=True)
        except Exception:
            return []
        opts = []
        for f in faults:
            site = f.get("site")
            c = [n for (st, n, s, cl) in w.k.profile
                 if st == f["step"] and (site is None or s + ":" + cl == site)]
            if not c:
                return []
            c.sort(key=lambda n: abs(n - f["op"]))
            opts.append(c[:6] + c[-2:])
        out = []
        for j in range(max(len(o) for o in opts)):
            out.append([dict(f, op=o[min(j, len(o) - 1)]) for f, o in zip(faults, opts)])
        return out

    def candidates(self, sc):
        """Smaller scenarios, biggest cuts first."""
        steps = sc["steps"]
        for n in range(len(steps) - 1, -1, -1):
            if steps[n]["s"] in ("open",):
                if any(st.get("sess") == steps[n].get("sess") for st in steps[n + 1:]):
                    continue
            yield dict(sc, steps=steps[:n] + steps[n + 1:])
        for n, st in enumerate(steps):
            if st["s"] in ("ops", "threads") and len(st.get("ops", ())) > 1:
                ops = st["ops"]
                size = len(ops) // 2
                while size >= 1:
                    for a in range(len(ops) - size, -1, -size):
                        yield dict(sc, steps=steps[:n] + [
                            dict(st, ops=ops[:a] + ops[a + size:])] + steps[n + 1:])
                    size //= 2
        for n, st in enumerate(steps):
            for j, op in enumerate(st.get("ops", ())):
                if isinstance(op, list):
                    for a in range(len(op)):
                        yield dict(sc, steps=steps[:n] + [
                            dict(st, ops=st["ops"][:j] + [op[:a] + op[a + 1:]]
                                 + st["ops"][j + 1:])] + steps[n + 1:])
                    continue
                for key in ("kw", "style"):
                    if isinstance(op.get(key), dict):
                        for kk in list(op[key]):
                            v = {a: b for a, b in op[key].items() if a != kk}
                            nop = dict(op)
                            nop[key] = v
                            yield dict(sc, steps=steps[:n] + [
                                dict(st, ops=st["ops"][:j] + [nop] + st["ops"][j + 1:])]
                                + steps[n + 1:])
        if sc.get("cfg", {}).get("session"):
            yield dict(sc, cfg=dict(sc["cfg"], session={}))
        for key in ("chunk", "bufsize"):
            if key in sc.get("cfg", {}):
                yield dict(sc, cfg={a: b for a, b in sc["cfg"].items() if a != key})

    def go(self):
        best = self.rec
        # fewer faults first
        fs = best["faults"]
        for f in list(fs):
            if len(fs) > 1:
                r = self.test(best["scenario"], [g for g in fs if g is not f])
                if r:
                    best = r
                    fs = [g for g in fs if g is not f]
        fs = [f for f in best["faults"] if f.get("fired", True)] if best["faults"] else []
        if len(fs) < len(best["faults"]):
            r = self.test(best["scenario"], fs)
            if r:
                best = r
        changed = self.prop.minimisable(best["scenario"])
        while changed and time.process_time() < self.end:
            changed = False
            for cand in self.candidates(best["scenario"]):
                if time.process_time() > self.end:
                    break
                live = {st["i"] for st in cand["steps"]}
                if any(f["step"] not in live for f in best["faults"]):
                    continue
                r = self.test(cand, best["faults"])
                if r is None and best["faults"]:
                    for alt in self.relocate(cand, best["faults"]):
                        r = self.test(cand, alt)
                        if r is not None:
                            break
                if r is not None:
                    best = r
                    changed = True
                    break
        return best


# ---------------------------------------------------------------- worker entry points
def emit(**kw):
    sys.__stdout__.write(json.dumps(kw, default=str) + "\n")
    sys.__stdout__.flush()


def cleanup():
    for d in (SCRATCH, SCRATCH + "-clean"):
        if os.path.isdir(d):
            W.real_rmtree(d)


def work(pid, base, start, stride, count, seconds):
    prop = load_prop(pid)
    stats = Stats()
    t0 = time.monotonic()
    n = start
    errors = 0
    while True:
        if count is not None and n >= count:
            break
        if seconds is not None and time.monotonic() - t0 > seconds:
            break
        seed = base * 1_000_000 + n
        try:
            rec = explore_seed(prop, seed, stats)
        except Exception:
            errors += 1
            emit(kind="error", seed=seed, trace=traceback.format_exc()[-3000:])
            rec = None
            if errors > 20:
                break
        if rec is not None:
            emit(kind="violation", rec=rec)
        n += stride
        if stats.runs % 20 == 0:
            gc.collect()
    emit(kind="stats", stats=stats.to_json(), errors=errors)
    cleanup()


def main(argv):
    mode = argv[0]
    # the clock used here is the real one: no simulation is active outside of run()
    prepare()
    if mode == "work":
        pid, base, start, stride, count, seconds = argv[1:7]
        work(pid, int(base), int(start), int(stride), int(count) if count != "-" else None,
             float(seconds) if seconds != "-" else None)
    elif mode == "minimise":
        rec = json.load(open(argv[1]))
        prop = load_prop(rec["property"])
        m = Minimiser(prop, rec, float(argv[2]))
        best = m.go()
        best["minimised_by"] = m.tries
        best["original"] = {"seed": rec["seed"], "faults": rec["faults"],
                            "steps": len(rec["scenario"]["steps"])}
        emit(kind="minimised", rec=best)
        cleanup()
    elif mode == "replay":
        rec = json.load(open(argv[1]))
        prop = load_prop(rec["property"])
        fs = faults_from(rec["faults"])
        w = run(prop, rec["scenario"], fs, trace="-v" in argv)
        emit(kind="replay", found=[strip(p) for p in w.found], digest=w.k.digest(),
             same=w.k.digest() == rec.get("digest"),
             outcomes=[f"step {i} {what}: {o.brief()}" for i, what, o in w.history],
             fired=faults_to(w.k.fired))
        if "-v" in argv:
            for line in w.k.trace:
                sys.__stdout__.write(line + "\n")
        cleanup()
    elif mode == "digests":
        pid, base, count = argv[1:4]
        prop = load_prop(pid)
        order = list(range(int(count)))
        if "-r" in argv:
            order.reverse()
        out = {}
        for n in order:
            seed = int(base) * 1_000_000 + n
            sc = scenario(prop, seed)
            w = run(prop, sc, (), profile=True)
            ds = [w.k.digest() + w.k.sched_hash.hexdigest()]
            pl = P.Planner(random.Random("%s/%s/plan" % (prop.id, seed)), w.k.profile)
            for faults in prop.plan(pl.r, sc, pl):
                faults = [f for f in faults if f is not None]
                if faults:
                    w = run(prop, sc, faults)
                    ds.append(w.k.digest() + w.k.sched_hash.hexdigest())
            out[seed] = ds
        emit(kind="digests", digests=out)
        cleanup()
