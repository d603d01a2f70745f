"""Drives one property: explores all cells symbolically (in parallel), replays counterexamples and path
witnesses against the real code, prints the verdict and writes the evidence file."""
import asyncio
import gc
import importlib
import json
import os
import random
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_LIB = os.environ.get("SYMX_REPO_LIB", "/repo/sdk/python/lib")
REAL_PY = "/opt/venv/bin/python"
SITE = "/opt/venv/lib/python3.12/site-packages"

_mod = None
_LINES = set()


def setup_symbolic():
    """Install the instrumenting importer and the protobuf models, then import the SDK."""
    sys.dont_write_bytecode = True
    warnings.simplefilter("ignore")
    if SITE not in sys.path:
        sys.path.append(SITE)
    from . import instrument, pbmodel

    models = pbmodel.build(REPO_LIB)
    from collections import abc

    abc.MutableMapping.register(pbmodel.Struct)
    abc.MutableSequence.register(pbmodel.ListValue)
    sys.meta_path.insert(0, instrument.Finder(REPO_LIB, models))
    for name, m in models.items():
        pass
    import pulumi
    import pulumi.runtime  # noqa
    from . import common

    common.install_stable_hashes()
    return pulumi


def start_coverage():
    """Record the source lines of the SDK executed symbolically (cheap, via sys.monitoring)."""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, "symx")
    except ValueError:
        return

    lib = REPO_LIB

    def on_line(code, line):
        fn = code.co_filename
        if lib and fn.startswith(lib):
            _LINES.add((fn, line))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.LINE, on_line)
    mon.set_events(tool, mon.events.LINE)


def origin(e):
    for fr in reversed(traceback.extract_tb(e.__traceback__)):
        if fr.filename.startswith(REPO_LIB):
            return "sdk"
        if "/harness/" in fr.filename:
            return "harness"
    return "other"


def new_stats():
    from .engine import STATS_KEYS

    return {k: 0 for k in STATS_KEYS}


def run_path(cell, prefix, stats, limits):
    from . import engine as E
    from . import common

    p = E.Path(prefix, stats, limits)
    p.stuck = False
    E.CUR = p
    exc = None
    try:
        common.reset(p)
        with common.watchdog(p, spent=lambda: p.smt_time):
            cell.fn(p, **cell.params)
    except E.PathAbort:
        pass
    except common.Stuck:
        pass
    except common.Skip as e:
        p.notes.add("skip:" + str(e))
        p.aborted = p.aborted or "skip"
    except E.EngineLimit as e:
        p.notes.add("engine-limit:" + str(e))
    except RecursionError:
        p.notes.add("engine:RecursionError")
    except Exception as e:  # noqa
        if p.aborted is None:
            o = origin(e)
            exc = (type(e).__name__, str(e)[:300], o, "".join(traceback.format_exception(e))[-3500:])
            p.notes.add("exception:%s:%s" % (o, type(e).__name__))
            vals = p.values()
            if vals is not None:
                p.cex.append(("unexpected-exception", vals, exc[3]))
    finally:
        if p.stuck:
            try:
                p.cex = [("never-ends", p.values(), "still running after 20 s")]
            except Exception:  # noqa
                p.cex = []
            p.notes.add("stuck")
        common.cleanup(p)
        E.CUR = None
    return p, exc


def work(args):
    """Explore from some prefixes for a time slice.  Runs in a pool worker."""
    ci, prefixes, slice_s, limits, seed = args
    cell = _mod.CELLS[ci]
    stats = new_stats()
    out = {"ci": ci, "paths": 0, "aborted": 0, "cex": [], "notes": {}, "labels": {}, "witness": {}, "samples": [],
           "smt_time": 0.0, "rest": [], "lines": None, "entered": None, "maxdec": 0}
    t0 = began = time.time()
    stack = list(prefixes)
    rnd = random.Random(seed)
    gc.disable()
    from . import instrument

    n = 0
    while stack:
        if time.time() - t0 > slice_s:
            break
        pre = stack.pop()
        p, exc = run_path(cell, pre, stats, limits)
        n += 1
        stack.extend(p.siblings)
        if p.stuck:
            out["stuck"] = True
            t0 = 0.0  # end this slice
        out["smt_time"] += p.smt_time
        out["maxdec"] = max(out["maxdec"], len(p.trail))
        if p.aborted:
            out["aborted"] += 1
            for x in p.notes:
                out["notes"][x] = out["notes"].get(x, 0) + 1
            if p.aborted in ("assume",):
                out["cex"].extend(p.cex[:3])
                continue
        out["paths"] += 1
        for x in p.notes:
            out["notes"][x] = out["notes"].get(x, 0) + 1
        vals = None
        for l in set(p.labels):
            out["labels"][l] = out["labels"].get(l, 0) + 1
            if l not in out["witness"]:
                vals = vals or p.values()
                out["witness"][l] = vals
        k = out["paths"]
        if len(out["samples"]) < 12:
            out["samples"].append(vals or p.values())
        elif rnd.random() < 12.0 / k:
            out["samples"][rnd.randrange(12)] = vals or p.values()
        if p.cex:
            have = {}
            for c in out["cex"]:
                have[c[0]] = have.get(c[0], 0) + 1
            for c in p.cex:
                if have.get(c[0], 0) < 6:
                    out["cex"].append(c)
                    have[c[0]] = have.get(c[0], 0) + 1
        if n % 200 == 0:
            gc.collect()
    gc.collect()
    out["rest"] = stack
    out["stats"] = stats
    out["lines"] = list(_LINES)
    out["entered"] = list(instrument.ENTERED)
    out["time"] = time.time() - began
    return out


def replay(modname, jobs, timeout=300):
    """Run assignments concretely on the real code.  Returns list of results or None."""
    if not jobs:
        return []
    d = tempfile.mkdtemp(prefix="symx_replay_")
    try:
        jp, op = os.path.join(d, "jobs.json"), os.path.join(d, "out.json")
        with open(jp, "w") as f:
            json.dump(jobs, f)
        env = {k: v for k, v in os.environ.items() if not k.startswith("PULUMI_") and k not in (
            "PYTHONPATH", "PYTHONHOME", "VIRTUAL_ENV")}
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONHASHSEED"] = "0"
        env["SYMX_REPO_LIB"] = REPO_LIB
        try:
            r = subprocess.run([REAL_PY, os.path.join(VERIF, "symx", "replay.py"), modname, jp, op], env=env,
                               cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None
        if not os.path.exists(op):
            sys.stderr.write(r.stdout.decode(errors="replace")[-2000:])
            return None
        with open(op) as f:
            return json.load(f)
    finally:
        import shutil

        shutil.rmtree(d, ignore_errors=True)


def replay_parallel(modname, jobs, n=8):
    if len(jobs) <= 40:
        r = replay(modname, jobs)
        return r if r is not None else [None] * len(jobs)
    from concurrent.futures import ThreadPoolExecutor

    chunks = [jobs[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda c: replay(modname, c), chunks))
    out = [None] * len(jobs)
    for i, c in enumerate(chunks):
        if rs[i] is None:
            continue
        for j, r in enumerate(rs[i]):
            out[i + j * n] = r
    return out


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                # known: property=ID label=<label> cell=<cell> where=<json of var values> what=<text>
                out.append(parse_known(rest))
    return out


def parse_known(s):
    d = {}
    head, _, what = s.partition(" what=")
    d["what"] = what
    for tok in head.split(" "):
        k, _, v = tok.partition("=")
        d[k] = v
    return d


def matches_known(known, cellname, label, res):
    """A finding is identified by cell, label and the specific input description the harness observed."""
    for k in known:
        if k.get("label") == label and k.get("cell", cellname) == cellname:
            want = k.get("input")
            obs = {tuple(o)[1] for o in res.get("obs", []) if o[0] == "input"}
            if want is None or repr(want) in obs or want in obs:
                return k
    return None


def main(argv):
    t0 = time.time()
    try:
        return _main(argv)
    except Exception as e:  # noqa
        a = [x for x in argv if not x.startswith("-")]
        return fallback(a[0] if a else "P00", "", os.environ.get("VERIF_TIER") or "quick",
                        int(os.environ.get("VERIF_SEED") or 1), t0, e)


def _main(argv):
    global _mod
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--cell", default=None)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay", default=None)
    ap.add_argument("--cov", action="store_true")
    a = ap.parse_args(argv)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    modname = a.prop.lower()
    if a.replay:
        with open(a.replay) as f:
            rec = json.load(f)
        print(json.dumps(replay(rec["module"], [{"cell": rec["cell"], "values": rec["values"]}]), indent=1))
        return 0
    t0 = time.time()
    sys.path.insert(0, VERIF)
    notes = []
    try:
        setup_symbolic()
        start_coverage()
        _mod = importlib.import_module("harness." + modname)
    except BaseException as e:  # noqa
        return fallback(a.prop, modname, tier, seed, t0, e)
    cells = _mod.CELLS
    idx = [i for i, c in enumerate(cells) if tier in c.tiers and (a.cell is None or a.cell in c.name)]
    budget = a.budget or getattr(_mod, "BUDGET", {"quick": 300, "thorough": 780}).get(tier, 300)
    limits = {"query_ms": 10000 if tier == "quick" else 60000, "max_decisions": 500}
    agg = {i: {"paths": 0, "aborted": 0, "cex": [], "notes": {}, "labels": {}, "witness": {}, "samples": [],
               "smt_time": 0.0, "left": 0, "time": 0.0, "stats": new_stats(), "maxdec": 0} for i in idx}
    lines, entered = set(), set()
    gc.collect()
    gc.freeze()
    from .pool import Lost, Pool

    pool = Pool(work, a.jobs)
    inflight = []
    queue = [(i, [()]) for i in idx]
    # heavier cells first
    queue.sort(key=lambda q: -cells[q[0]].weight)
    deadline = t0 + budget
    slice0 = 1.0

    def feed():
        while queue and len(inflight) < a.jobs * 2:
            # if there is little queued, split batches
            i, pres = queue.pop(0)
            if len(pres) > 1 and len(queue) < a.jobs * 2:
                h = len(pres) // 2
                queue.append((i, pres[:h]))
                pres = pres[h:]
            task = (i, pres)
            pool.submit(task, (i, pres, slice0 if len(inflight) < a.jobs else 3.0, limits, seed))
            inflight.append(task)

    timed_out = False
    lost = 0
    stuck = set()
    while queue or inflight:
        if time.time() > deadline:
            timed_out = True
            break
        feed()
        for x, o in pool.poll():
            inflight[:] = [y for y in inflight if y is not x]
            if isinstance(o, Lost):
                lost += 1
                agg[x[0]]["left"] += len(x[1])
                notes.append("worker failure: %s" % (o,))
                print("  worker failure: %s" % (o,))
                continue
            g = agg[o["ci"]]
            g["paths"] += o["paths"]
            g["aborted"] += o["aborted"]
            g["smt_time"] += o["smt_time"]
            g["time"] += o["time"]
            g["maxdec"] = max(g["maxdec"], o["maxdec"])
            for k, v in o["stats"].items():
                g["stats"][k] += v
            for k, v in o["notes"].items():
                g["notes"][k] = g["notes"].get(k, 0) + v
            for k, v in o["labels"].items():
                g["labels"][k] = g["labels"].get(k, 0) + v
            for k, v in o["witness"].items():
                g["witness"].setdefault(k, v)
            if len(g["samples"]) < 60:
                g["samples"].extend(o["samples"])
            g["cex"].extend(o["cex"])
            lines.update(map(tuple, o["lines"]))
            entered.update(o["entered"])
            rest = o["rest"]
            if o.get("stuck"):
                # one path of a cell that never ends is enough; where several cells have them, all of the rest waits
                stuck.add(o["ci"])
                for q in [q for q in queue if q[0] in stuck]:
                    queue.remove(q)
                    agg[q[0]]["left"] += len(q[1])
                if len(stuck) > 1:
                    deadline = 0
            if o["ci"] in stuck:
                g["left"] += len(rest)
            elif rest and g["paths"] < cells[o["ci"]].max_paths:
                k = max(1, min(a.jobs, len(rest)))
                for j in range(k):
                    part = rest[j::k]
                    if part:
                        queue.append((o["ci"], part))
            elif rest:
                g["left"] += len(rest)
        # early exit once a label has plenty of counterexamples everywhere is not needed: budgets are short
    for i, pres in [(q[0], q[1]) for q in queue] + [(x[0], x[1]) for x in inflight]:
        agg[i]["left"] += len(pres)
    pool.close()
    if os.environ.get("SYMX_DUMP_LINES"):
        with open(os.environ["SYMX_DUMP_LINES"], "w") as f:
            json.dump(sorted(lines), f)
    t_explore = time.time() - t0

    # ---- replay: counterexamples first, then witnesses and path samples (encoding validation) ----
    jobs, meta = [], []
    for i in idx:
        per = {}
        for label, vals, info in agg[i]["cex"]:
            if vals is None or per.get(label, 0) >= 8:
                continue
            per[label] = per.get(label, 0) + 1
            jobs.append({"cell": cells[i].name, "values": vals})
            meta.append(("cex", i, label, info))
    nsamp = 6 if tier == "quick" else 25
    for i in idx:
        seen = set()
        ws = list(agg[i]["witness"].values())
        rnd = random.Random(seed)
        smp = agg[i]["samples"]
        rnd.shuffle(smp)
        for v in ws + smp[:nsamp]:
            if v is None:
                continue
            key = json.dumps(v, sort_keys=True)
            if key in seen:
                continue
            seen.add(key)
            jobs.append({"cell": cells[i].name, "values": v})
            meta.append(("witness", i, None, None))
    results = replay_parallel(modname, jobs)
    known = load_known(a.prop)
    violations, known_hits, unconfirmed, validated, mismatched, skipped = [], {}, [], 0, 0, set()
    reached_concrete = set()
    seen_v = set()
    for (kind, i, label, info), job, r in zip(meta, jobs, results):
        cname = cells[i].name
        if r is None:
            unconfirmed.append((cname, label, "replay did not finish"))
            continue
        if r["exc"] and r["exc"][0] == "skip":
            skipped.add(r["exc"][1])
        bad = [(l, s) for l, s in r["failed"]]
        if r["exc"] and (r["exc"][2] == "sdk" or (r["exc"][2] == "harness" and (
                r["exc"][0] in ("IndexError", "KeyError") or r["exc"][0] in ("AttributeError", "TypeError")
                and "'NoneType' object" in r["exc"][1].strip().split("\n")[-1]))):
            # (the latter: something the harness must be able to pick up, e.g. a request or a result, is not there)
            bad.append(("unexpected-exception", r["exc"][1]))
        reached_concrete.update(r["labels"])
        if kind == "cex" and not bad:
            unconfirmed.append((cname, label, info))
            if os.environ.get("SYMX_DEBUG"):
                print("UNCONFIRMED", cname, label, info, job["values"], r)
        if kind == "witness":
            if not bad:
                if r["aborted"] or (r["exc"] and r["exc"][0] != "skip"):
                    mismatched += 1
                    if os.environ.get("SYMX_DEBUG"):
                        print("MISMATCH", cname, job["values"], r)
                else:
                    validated += 1
        for l, s in bad:
            kf = matches_known(known, cname, l, r)
            if kf:
                known_hits[kf["what"]] = kf
                continue
            if (cname, l) in seen_v:
                continue
            seen_v.add((cname, l))
            violations.append({"cell": cname, "label": l, "info": s, "values": job["values"], "found_by": kind})
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    vout = []
    for n, v in enumerate(violations[:10]):
        path = os.path.join(ev_dir, "replay_%s_%d.json" % (a.prop, n))
        with open(path, "w") as f:
            json.dump(dict(v, module=modname, property=a.prop,
                           how="python3-vt /verif/check.py %s --replay %s" % (a.prop, path)), f, indent=1)
        vout.append((v, path))
    tot = lambda k: sum(agg[i]["stats"][k] for i in idx)
    paths = sum(agg[i]["paths"] for i in idx)
    all_notes = {}
    for i in idx:
        for k, v in agg[i]["notes"].items():
            all_notes[k] = all_notes.get(k, 0) + v
    complete = [i for i in idx if agg[i]["left"] == 0 and agg[i]["paths"] > 0]
    vacuous = [cells[i].name for i in idx if agg[i]["paths"] == 0 or not agg[i]["labels"]]
    smt = sum(agg[i]["smt_time"] for i in idx)
    per_cell = {}
    for i in idx:
        g = agg[i]
        per_cell[cells[i].name] = {
            "paths": g["paths"], "infeasible_or_cut": g["aborted"], "exhausted": g["left"] == 0,
            "frontier_left": g["left"], "labels": g["labels"], "notes": g["notes"], "max_decisions": g["maxdec"],
            "solver_s": round(g["smt_time"], 2), "cpu_s": round(g["time"], 2)}
    anchors = getattr(_mod, "ANCHORS", ())
    fn_entered = sorted(e for e in entered if not anchors or any(e.startswith(x) for x in anchors))
    samples = []
    for i in idx:
        for v in agg[i]["samples"][:1]:
            samples.append({"cell": cells[i].name, "assignment": v})
    cov = {
        "states": paths,
        "transitions": tot("branches"),
        "traces_validated_against_impl": validated,
        "rule": "state = final symbolic state of one feasible path of the real code through a harness cell (distinct "
                "decision sequences); on each path z3 decides the negated property for every value of the remaining "
                "symbolic variables; transition = branch decision with a symbolic condition; trace validated = solver "
                "model replayed on the unmodified code and real protobuf library with the same outcome",
        "samples": samples[:12] or [{"none": True}],
        "engine": "symx (symbolic execution of the instrumented /repo sources in CPython, z3 %s)" % z3v(),
        "cells": per_cell,
        "cells_exhausted": len(complete),
        "cells_total": len(idx),
        "exhaustive_within_bounds": len(complete) == len(idx) and not timed_out and not any(
            k.startswith(("concretised", "engine", "divergence", "decision", "solver", "assert-unknown"))
            for k in all_notes),
        "queries": tot("queries"), "query_cache_hits": tot("cache_hits"), "queries_sat": tot("sat"), "queries_unsat": tot("unsat"),
        "queries_unknown": tot("unknown"),
        "assertions_symbolic": tot("assertions_smt"), "assertions_path_constant": tot("assertions_const"),
        "solver_s": round(smt, 2),
        "concretisations": tot("concretised"),
        "functions_encoded": fn_entered[:400],
        "functions_encoded_count": len(fn_entered),
        "sdk_lines_executed_symbolically": len(lines),
        "bounds": getattr(_mod, "BOUNDS", ""),
        "outside_the_bounds": getattr(_mod, "OUTSIDE", ""),
        "reachability_witnesses": {l: True for i in idx for l in agg[i]["labels"]},
        "vacuous_cells": vacuous,
        "replays_on_real_code": len(jobs), "replays_disagreeing": mismatched,
        "counterexamples_not_reproduced": [list(u) for u in unconfirmed[:20]],
        "notes": all_notes,
        "timed_out": timed_out,
        "worker_notes": notes,
    }
    ev = {
        "property": a.prop, "tier": tier, "seed": seed, "level": getattr(_mod, "LEVEL", "model_checking"),
        "coverage": cov, "wall_s": round(time.time() - t0, 2),
        "assumptions": list(getattr(_mod, "ASSUMPTIONS", [])) + BASE_ASSUMPTIONS,
        "violations": len(vout),
    }
    cov["violation_details"] = [{"cell": v["cell"], "label": v["label"], "replay": p} for v, p in vout]
    write_evidence(a.prop, ev)
    if a.v or a.cell:
        for i in idx:
            g = agg[i]
            print("  cell %-40s paths=%-6d cut=%-5d left=%-5d smt=%.1fs cpu=%.1fs q=%d maxdec=%d notes=%s" % (
                cells[i].name, g["paths"], g["aborted"], g["left"], g["smt_time"], g["time"], g["stats"]["queries"],
                g["maxdec"], g["notes"]))
    if a.cov:
        show_cov(lines, anchors)
    print("%s tier=%s cells=%d exhausted=%d paths=%d queries=%d solver=%.1fs replays=%d agree=%d disagree=%d "
          "unconfirmed=%d explore=%.1fs wall=%.1fs%s" % (
              a.prop, tier, len(idx), len(complete), paths, tot("queries"), smt, len(jobs), validated, mismatched,
              len(unconfirmed), t_explore, time.time() - t0, " TIMED-OUT" if timed_out else ""))
    for k in sorted(all_notes):
        if not a.v and k.startswith("concretised"):
            continue
        print("  note: %s x%d" % (k, all_notes[k]))
    if vacuous:
        print("  INCONCLUSIVE cells (nothing asserted): %s" % vacuous)
    for u in unconfirmed[:5]:
        print("  INCONCLUSIVE: candidate not reproduced on the real code: %s / %s" % (u[0], u[1]))
    for s in sorted(skipped):
        print("  INCONCLUSIVE: %s" % s)
    for w in known_hits:
        print("KNOWN-FINDING: property=%s %s" % (a.prop, w))
    for v, p in vout:
        print("  %s: %s: %s" % (v["cell"], v["label"], v["info"][:500]))
        print("VIOLATION property=%s replay=%s" % (a.prop, p))
    return 1 if vout else 0


def z3v():
    import z3

    return z3.get_version_string()


def write_evidence(prop, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, ".%s.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(d, "%s.json" % prop))


BASE_ASSUMPTIONS = [
    "CPython, the standard library's asyncio and z3 behave as documented",
    "protobuf messages are modelled by symx/pbmodel.py in the symbolic run (validated by replaying path witnesses on "
    "the real protobuf library)",
    "executor threads are modelled as operations that complete atomically at a nondeterministically chosen moment",
    "numbers are integer valued unless a harness lists specific floats",
]


def fallback(prop, modname, tier, seed, t0, e):
    """The code could not even be loaded symbolically: inconclusive."""
    tb = "".join(traceback.format_exception(e))
    print("INCONCLUSIVE: cannot run the code under test symbolically:\n" + tb[-3500:])
    write_evidence(prop, {
        "property": prop, "tier": tier, "seed": seed, "level": "other",
        "coverage": {"explanation": "inconclusive: could not load: " + tb[-3500:]},
        "wall_s": round(time.time() - t0, 2), "assumptions": [], "violations": 0})
    return 0


def show_cov(lines, anchors):
    import ast as _ast

    by = {}
    for f, l in lines:
        by.setdefault(f, set()).add(l)
    for f in sorted(by):
        modn = f[len(REPO_LIB) + 1:-3].replace("/", ".")
        src = open(f).read()
        tree = _ast.parse(src)

        def walk(node, pre):
            for ch in _ast.iter_child_nodes(node):
                if isinstance(ch, (_ast.FunctionDef, _ast.AsyncFunctionDef, _ast.ClassDef)):
                    nm = pre + "." + ch.name
                    if not isinstance(ch, _ast.ClassDef) and (not anchors or any(nm.startswith(x) for x in anchors)):
                        st = set()
                        for n in _ast.walk(ch):
                            if isinstance(n, _ast.stmt) and n is not ch and not isinstance(
                                    n, (_ast.FunctionDef, _ast.AsyncFunctionDef)):
                                st.add(n.lineno)
                        miss = sorted(x for x in st if x not in by[f])
                        if len(miss) < len(st) or anchors:
                            print("   %-70s %d/%d missed %s" % (nm, len(st) - len(miss), len(st), miss[:30]))
                    walk(ch, nm)

        walk(tree, modn)
