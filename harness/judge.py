"""From histories to a verdict: record, validate with TLC, attribute, report."""
import json
import multiprocessing
import os
import time
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, "build")


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def decide(pid, tier, seed, make_one):
    import jobs
    import tlc
    t0 = time.time()
    P = jobs.PROPS[pid]
    specs = jobs.build(pid, seed, tier)
    tours = [j["drv"] for j in P["jobs"] if hasattr(j["drv"], "graph")]
    graphs = []
    for t in tours:                            # small systems, explored completely by TLC
        g = t.graph()
        if g not in graphs:
            graphs.append(g)
    with multiprocessing.Pool(8) as pool:
        made = pool.map(make_one, specs, chunksize=2)
    # a walk over a small system is several histories
    both = [(s, k, y) for s, (k, x) in zip(specs, made) for y in (x if isinstance(x, list) else [x])]
    specs, made = [s for s, _, _ in both], [(k, y) for _, k, y in both]
    crashes = [x for k, x in made if k == "crash"]
    good = [(s, x) for s, (k, x) in zip(specs, made) if k == "ok"]
    if P["gen"]:
        good += P["gen"](seed, tier)
    traces = [x for _, x in good]
    by = {x["id"]: (s, x) for s, x in good}
    ops = Counter(e["op"] + "/" + e["out"] for t in traces for e in t["ev"])
    t1 = time.time()
    v = tlc.check_all(traces, timeout=780 if tier == "quick" else 6000)
    fails = []
    for tid, step, op, out, cl, ex in v.fails:
        ev = by[tid][1]["ev"]
        fails.append(jobs.Fail(tid, step, op, out, cl, ex, ev[step - 1], ev[:step - 1]))
    extra = []
    if pid in jobs.EXTRA:
        extra = jobs.EXTRA[pid](by, fails, tlc)
    mine = [f for f in fails if P["mine"](f)] + extra
    report, kf = [], {}
    for f in mine:
        k = [x for x in known() if x["property"] == pid and jobs.matches(x, f)]
        if k:
            kf[k[0]["id"]] = k[0]
        else:
            report.append((f.text(), by[f.tid], f.step))
    for tid, msg in v.evalerr.items():
        report.append(("history %s: a recorded state or result is not comparable with the specification: %s" % (tid, msg),
                       by[tid], 0))
    for s, tb in crashes:
        report.append(("driving the library failed outside an operation: " + tb[-400:], (s, None), 0))
    other = len(fails) - (len(mine) - len(extra))
    for x in kf.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, x["what"]))
    os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
    for n, (text, (s, t), step) in enumerate(report[:10]):
        path = os.path.join(BUILD, "replay", "%s-%d.json" % (pid, n))
        with open(path, "w") as f:
            json.dump(dict(property=pid, what=text, make=s, step=step, trace=t), f)
        print("  " + text)
        print("VIOLATION property=%s replay=%s" % (pid, path))
    evidence(pid, tier, seed, traces, v, ops, report, kf, other, graphs, time.time() - t0)
    if not report:
        print("property %s held: %d histories, %d steps checked by TLC (%.0f s)" % (
            pid, len(traces), sum(len(t["ev"]) for t in traces), time.time() - t0))
    if other:
        print("note: %d disagreements belong to other properties" % other)
    return 1 if report else 0


def evidence(pid, tier, seed, traces, v, ops, report, kf, other, graphs, wall):
    import jobs
    steps = sum(len(t["ev"]) for t in traces)
    sample = []
    for t in traces[:2]:
        sample.append([dict(op=e["op"], a=e["a"], out=e["out"], res=e["res"]) for e in t["ev"][:6]])
    distinct = len({json.dumps([[e["op"], e["a"], e["out"], e["res"]] for e in t["ev"]], sort_keys=True) for t in traces
                    if any(e["op"] in jobs.RELEVANT.get(pid, jobs.STRUCT) for e in t["ev"])})
    cov = dict(evaluations=steps, distinct_nontrivial=distinct,
               rule="one evaluation is one recorded call of the real library, judged by TLC against ReiTrace; a history "
                    "counts as distinct and non-trivial when its sequence of calls, outcomes and results differs from all "
                    "others and contains a call the property is about",
               traces_validated_against_impl=len(traces), trace_states=v.states,
               operations=dict(sorted(ops.items())), other_disagreements=other, samples=sample,
               known_findings=sorted(kf))
    if graphs:
        cov["states"] = sum(g.n for g in graphs)
        cov["transitions"] = sum(g.transitions for g in graphs)
        cov["small_systems"] = [dict(system=g.conf, elements=g.nels, relations=g.nrel, states=g.n, transitions=g.transitions)
                                for g in graphs]
        walks = Counter()
        for t in traces:
            x = t.get("tour")
            if x:
                walks[x["conf"] + "/parts"] += 1
                walks[x["conf"] + "/outcomes outside the explored graph"] += x["offgraph"]
                walks[x["conf"] + "/not reached"] += x["notreached"]
        cov["walks"] = dict(walks)
        cov["exhaustive"] = False
    else:
        cov["states"], cov["transitions"] = v.states, max(0, v.generated - len(traces))
    cov.update(jobs.COVER.get(pid, {}))
    d = dict(property=pid, tier=tier, seed=seed, level=jobs.level(pid), coverage=cov,
             assumptions=jobs.ASSUME, wall_s=round(wall, 2), violations=len(report))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        s = json.dumps(d, indent=1)
        if len(s) > 900000:
            cov["samples"] = cov["samples"][:1]
            s = json.dumps(d, indent=1)[:900000]
        f.write(s)
