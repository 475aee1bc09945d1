"""Run the same script on every build of a variant and judge the recorded executions with TLC."""
import json, os, re
from core import CONFIGS, GEN, SIZES, CheckError, cname, short


def variants(drivers):
    """{(size, gen): [cfg, ...]}"""
    v = {}
    for (c, s) in drivers:
        v.setdefault((s, GEN[c[0]]), []).append(c)
    return v


def judge_runs(chk, runs, module, consts0=None, heap="3g", timeout=600, workers=7, explain=None, usable=None):
    """runs: [(label, command or binary, script)]. Record each, judge equal recordings once with `module`.
    A run may carry constants for the module as a fourth element."""
    outs = chk.pmap(lambda r: chk.drive(r[1], r[2], timeout=timeout), runs)
    if usable:                                             # recordings that say nothing about the code
        runs, outs = zip(*[x for x in zip(runs, outs) if usable(*x)] or [((), ())])
    groups = {}
    for r, o in zip(runs, outs):
        groups.setdefault((o, str(r[3]) if len(r) > 3 else ""), []).append(r)
    chk.log("%d executions recorded, %d distinct" % (len(runs), len(groups)))

    def one(x):
        if len(chk.violations) >= 8: return 0          # the verdict is clear
        (out, _), rs = x
        consts = rs[0][3] if len(rs[0]) > 3 else consts0
        f = chk.path("traces", re.sub(r"\W+", "_", rs[0][0])[:80] + ".ndjson")
        open(f, "wb").write(out)
        ok, at, n = chk.validate(f, module, consts, heap=heap)
        if not ok:
            ok2, at2, _ = chk.validate(f, module, consts, heap=heap)
            if ok2 or at2 != at:
                raise CheckError("TLC did not repeat its verdict on %s" % f)
            sf = f.replace(".ndjson", ".script")
            open(sf, "wb").write(rs[0][2].encode() if isinstance(rs[0][2], str) else rs[0][2])
            chk.violation("%s: recorded step %d of %d is not allowed by %s: %s"
                          % (", ".join(r[0] for r in rs)[:300], at, n, module, short(out.split(b"\n")[at])) + (explain(chk, rs[0][1], rs[0][2], out, at) if explain and len(chk.violations) < 2 else ""), [f, sf])
        os.unlink(f)
        return n

    ns = chk.pmap(one, sorted(groups.items(), key=lambda x: -len(x[0][0])), workers=workers)
    for k, x in (("executions_recorded", len(runs)), ("distinct_executions_judged", len(groups)), ("trace_events_judged", sum(ns))):
        chk.cov[k] = chk.cov.get(k, 0) + x
    if len(chk.cov["samples"]) < 6 and groups:
        (o, _), rs = next(iter(groups.items()))
        chk.cov["samples"].append({"runs": [r[0] for r in rs][:6], "events": [short(l, 60) for l in o.split(b"\n")[:3]]})
    return sum(ns)


def judge_scripts(chk, drivers, scripts, judge, module="FrodoTrace", skip=None, timeout=600, heap="3g"):
    """scripts: {name: {(size, gen): text}}. Every build runs it; equal recordings are judged once."""
    jobs = []
    for name, per in scripts.items():
        for v, text in per.items():
            for c in variants(drivers)[v]:
                if skip and skip(name, v, c):
                    continue
                jobs.append((name, v, c, text))
    # slow builds first
    order = sorted(jobs, key=lambda j: (j[2][1] != "FALSE" or j[2][2] == "FAST", j[2][2] != "REFERENCE", -j[1][0]))
    res = dict(zip([(j[0], j[1], j[2]) for j in order],
                   chk.pmap(lambda j: chk.drive(drivers[(j[2], j[1][0])], j[3], timeout=timeout), order)))
    groups = {}
    for (name, v, c), out in res.items():
        groups.setdefault((name, v), {}).setdefault(out, []).append(c)
    work = [(name, v, out, cs) for (name, v), d in groups.items() for out, cs in d.items()]
    work.sort(key=lambda w: -len(w[2]))
    chk.log("%d executions recorded, %d distinct" % (len(res), len(work)))
    calls = 0

    def one(w):
        name, v, out, cs = w
        f = chk.path("traces", "%s_%s_%s_%s.ndjson" % (name, v[0], v[1], cname(cs[0])))
        open(f, "wb").write(out)
        j = judge(name) if callable(judge) else judge
        consts = {"Size": str(v[0]), "Gen": '"%s"' % v[1], "Judge": '"%s"' % j}
        ok, at, n = chk.validate(f, module, consts, heap=heap)
        if not ok:
            ok2, at2, _ = chk.validate(f, module, consts, heap=heap)
            again = chk.drive(drivers[(cs[0], v[0])], scripts[name][v], timeout=timeout)
            if ok2 or at2 != at:
                raise CheckError("TLC did not repeat its verdict on %s" % f)
            line = out.split(b"\n")[at]
            repeat = "repeats" if again == out else "differs on a second run of the same script"
            sf = f.replace(".ndjson", ".script")
            open(sf, "w").write(scripts[name][v])
            chk.violation("FrodoKEM-%s-%s, builds %s: recorded step %d of %d of '%s' is not allowed (judge %s, %s): %s"
                          % (v[0], v[1], ",".join(map(cname, cs)), at, n, name, j, repeat, short(line)), [f, sf])
        os.unlink(f)
        return n

    ns = chk.pmap(one, work, workers=7)
    events = sum(ns)
    chk.cov["executions_recorded"] = chk.cov.get("executions_recorded", 0) + len(res)
    chk.cov["distinct_executions_judged"] = chk.cov.get("distinct_executions_judged", 0) + len(work)
    chk.cov["trace_events_judged"] = chk.cov.get("trace_events_judged", 0) + events
    for w in work[:1]:
        ls = w[2].split(b"\n")
        if len(chk.cov["samples"]) < 6:
            chk.cov["samples"].append({"script": w[0], "variant": list(map(str, w[1])), "builds": [cname(c) for c in w[3]],
                                       "events": [short(l, 60) for l in ls[:4]]})
    return events
