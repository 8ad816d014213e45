#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Runs the simulation of one property over /repo's current working tree.
Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import argparse
import json
import os
import selectors
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def env(hashseed=0):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("ELSIE", "PYTHON"))}
    e.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8",
             PYTHONPATH=HERE, TZ="UTC")
    return e


def hashseed_of(path):
    """The order of sets is part of an execution."""
    with open(path) as f:
        return json.load(f).get("hashseed", 0)


def spawn(*args):
    # every worker has another order of sets; a replay file tells which one it needs
    seed = args[3] % 8 if args[0] == "work" else hashseed_of(args[1])
    return subprocess.Popen([PY, "-m", "sim"] + [str(a) for a in args], cwd=HERE, env=env(seed),
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def call(*args, timeout=600):
    p = spawn(*args)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    for line in reversed(out.decode("utf8", "replace").splitlines()):
        try:
            return json.loads(line)
        except ValueError:
            continue
    sys.stderr.write(err.decode("utf8", "replace")[-3000:])
    return None


def known():
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def match_known(rec, entries):
    import re

    for e in entries:
        if e.get("property") == rec["property"] and e.get("status") == "known":
            if e["oracle"] == rec["problem"]["oracle"] and re.search(e["match"], rec["problem"]["msg"]):
                return e
    return None


def merge(total, s):
    for k, v in s.items():
        if isinstance(v, (int, float)):
            total[k] = max(total.get(k, 0), v) if k == "max_tasks" else total.get(k, 0) + v
        elif isinstance(v, dict):
            d = total.setdefault(k, {})
            for a, b in v.items():
                d[a] = d.get(a, 0) + b
        elif k == "samples":
            total.setdefault(k, []).extend(v)
        else:
            total.setdefault(k, set()).update(v)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--count", type=int)
    ap.add_argument("--no-minimise", action="store_true")
    a = ap.parse_args()
    pid = a.property
    sys.path.insert(0, HERE)
    if a.replay:
        r = subprocess.run([PY, "-m", "sim", "replay", a.replay] + (["-v"] if a.v else []),
                           cwd=HERE, env=env(hashseed_of(a.replay)), stdout=subprocess.PIPE)
        out = r.stdout.decode()
        print(out)
        d = json.loads(out.splitlines()[0])
        if d["found"]:
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        return 0
    t0 = time.monotonic()
    from sim.meta import META

    meta = META[pid]
    count = a.count or meta["quick"]
    seconds = "-"
    cap = 600
    if a.tier == "thorough":
        count, seconds = "-", meta["thorough_s"]
        cap = float(seconds) + 240
    procs = [spawn("work", pid, a.seed, w, WORKERS, count, seconds) for w in range(WORKERS)]
    sel = selectors.DefaultSelector()
    bufs = {}
    errbufs = {}
    for p in procs:
        for pipe, store in ((p.stdout, bufs), (p.stderr, errbufs)):
            os.set_blocking(pipe.fileno(), False)
            sel.register(pipe, selectors.EVENT_READ, (p, store))
            store[p] = b""
    total, recs, errors, done = {}, [], [], set()
    known_hits = {}
    entries = known()
    open_pipes = 2 * len(procs)
    timed_out = False
    while open_pipes:
        left = cap - (time.monotonic() - t0)
        if left <= 0:
            timed_out = True
            break
        for key, _ in sel.select(timeout=min(left, 5)):
            p, store = key.data
            data = key.fileobj.read()
            if data:
                store[p] += data
            elif data == b"":
                sel.unregister(key.fileobj)
                open_pipes -= 1
            if store is bufs:
                while b"\n" in bufs[p]:
                    line, bufs[p] = bufs[p].split(b"\n", 1)
                    try:
                        d = json.loads(line)
                    except ValueError:
                        continue
                    if d["kind"] == "stats":
                        merge(total, d["stats"])
                        done.add(p)
                    elif d["kind"] == "violation":
                        e = match_known(d["rec"], entries)
                        if e:
                            known_hits[e["id"]] = e
                        else:
                            recs.append(d["rec"])
                    elif d["kind"] == "error":
                        errors.append(d)
        if recs:
            break
    for p in procs:
        if p.poll() is None and (recs or timed_out):
            p.kill()
    for p in procs:
        p.wait()
        for pipe in (p.stdout, p.stderr):
            pipe.close()
        for suffix in ("", "-clean"):
            scratch = "/dev/shm/vsim-%d%s" % (p.pid, suffix)
            if os.path.isdir(scratch):
                import shutil
                shutil.rmtree(scratch, ignore_errors=True)
    missing = [p for p in procs if p not in done]
    rc = 0
    for e in known_hits.values():
        print(f"KNOWN-FINDING: property={pid} {e['what']}")
    if recs:
        rc = 1
        rec = recs[0]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{pid}-{rec['seed']}.json")
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        if not a.no_minimise:
            budget = 25 if a.tier == "quick" else 120
            m = call("minimise", path, budget, timeout=budget * 4 + 60)
            if m and m.get("kind") == "minimised":
                rec = m["rec"]
                with open(path, "w") as f:
                    json.dump(rec, f, indent=1)
            r = call("replay", path)
            if not r or not r.get("found") or not r.get("same"):
                print("warning: the replay in a fresh process differs", file=sys.stderr)
        print("problem:", json.dumps(rec["problem"])[:1500])
        print("faults:", json.dumps(rec["faults"])[:800])
        for st in rec["scenario"]["steps"]:
            print("  step", json.dumps(st)[:600])
        print(f"VIOLATION property={pid} replay={path}")
    elif errors or missing or timed_out:
        rc = 2
        for d in errors[:3]:
            print("harness error:", d.get("seed"), d.get("trace"), file=sys.stderr)
        for p in missing[:2]:
            print("worker ended early:", errbufs[p].decode("utf8", "replace")[-2000:], file=sys.stderr)
        if timed_out:
            print("timed out", file=sys.stderr)
    wall = time.monotonic() - t0
    evidence(pid, a, meta, total, rc, wall, len(recs), known_hits, errors)
    n = total.get("runs", 0)
    print(f"{pid} {a.tier}: {n} runs of {total.get('seeds', 0)} scenarios, "
          f"{total.get('events', 0)} events, {sum(total.get('faults', {}).values())} faults fired, "
          f"{len(total.get('digests', ()))} distinct histories, {wall:.1f}s, exit {rc}")
    return rc


def evidence(pid, a, meta, total, rc, wall, nviol, known_hits, errors):
    runs = total.get("runs", 0)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(total.get("nontrivial", ())),
        "rule": meta["rule"],
        "samples": total.get("samples", [])[:3] or ["run ended at the first violation"],
        "scenarios": total.get("seeds", 0),
        "runs_with_faults": total.get("fault_runs", 0),
        "runs_per_hour": int(runs / wall * 3600) if wall else 0,
        "seeds_per_hour": int(total.get("seeds", 0) / wall * 3600) if wall else 0,
        "simulated_seconds": round(total.get("sim_time", 0.0), 1),
        "seam_events": total.get("events", 0),
        "faults_fired": dict(sorted(total.get("faults", {}).items())),
        "seam_sites_reached": dict(sorted(total.get("sites", {}).items())),
        "distinct_histories": len(total.get("digests", ())),
        "distinct_schedules": len(total.get("scheds", ())),
        "probes": dict(sorted(total.get("counts", {}).items())),
        "real_components": meta["real"],
        "stub_components": meta["stubs"],
        "known_findings_seen": sorted(known_hits),
        "harness_errors": len(errors),
        "exhaustive": False,
    }
    d = {"property": pid, "tier": a.tier, "seed": a.seed, "level": "exploration",
         "coverage": cov, "assumptions": list(meta["assumptions"]), "wall_s": round(wall, 2),
         "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(d, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    sys.exit(main())
