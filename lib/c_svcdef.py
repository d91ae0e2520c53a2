"""C10, C11: definitions generated from SvcDef, rendered, run through protoc
and svcdef.New, compared with their meaning."""
import json
from vlib import CheckError, REPO, write_ndjson, read_ndjson

THIRD = REPO + "/third_party/googleapis"


def drive(ctx, cases, tag, reps=3):
    i, o = ctx.path(tag + ".in"), ctx.path(tag + ".out")
    write_ndjson(i, cases)
    ctx.run([ctx.overlay_driver("svcdef"), "-in", i, "-out", o, "-work", ctx.mkdir("work"), "-third", THIRD,
             "-reps", str(reps), "-seed", str(ctx.seed)], timeout=900, what="svcdef driver")
    res = read_ndjson(o)
    for r in res:
        if "refused" in r:
            raise CheckError("protoc refuses a generated definition: %s" % r["refused"][:600])
    ctx.cov["reads"] = ctx.cov.get("reads", 0) + sum(r.get("reads", 0) for r in res)
    return [r for r in res if r["i"] >= 0]


def report(ctx, cases, bad, all_of_them=False):
    """A wrong location is C11's; everything else is C10's."""
    seen = set()
    for b in bad:
        if not all_of_them and b["loc"] != (ctx.pid == "C11"):
            continue
        kind = b["what"].split(":")[0]
        if kind in seen:
            continue
        seen.add(kind)
        # the definition on its own, or with what was read before it
        alone = drive(ctx, [cases[b["i"]]], "alone", 20)
        rep = [cases[b["i"]]] if alone else cases
        ctx.violation(kind + ":" + "".join(ch if ch.isalnum() else "_" for ch in b["what"])[:100],
                      "%s\n%s" % (b["what"], "\n".join(b["protos"].values())[:3000]), {"kind": "svcdef", "cases": rep})


def run(ctx):
    q = ctx.quick
    if ctx.pid == "C10":
        ctx.model_check("SvcDefRead", "SvcDefReadMC")
        ctx.refuted("SvcDefRead", "SvcDefReadBad", "Faithful")
        n, f = (700, 150) if q else (12000, 2000)
        step = 3000
        for k in range(0, n, step):
            m = min(step, n - k)
            cases = ctx.simulate("SvcDefSim", "SvcDefSim", m, 60, seed=ctx.seed * 100 + k, timeout=900)
            cases += ctx.simulate("SvcDefSim", "SvcDefForeign", max(1, f * m // n), 60, seed=ctx.seed * 100 + k + 1, timeout=900)
            report(ctx, cases, drive(ctx, cases, "d%d" % k))
            ctx.traces += len(cases)
            ctx.cov["definitions"] = ctx.traces
            for x in ("one", "rep", "opt", "map", "oneof"):
                ctx.cov["fields_" + x] = ctx.cov.get("fields_" + x, 0) + sum(
                    1 for c in cases for t in c["d"]["types"] for fl in t["f"] if (fl["oo"] != "") == (x == "oneof") and x in (fl["c"], "oneof"))
            ctx.cov["multi_file"] = ctx.cov.get("multi_file", 0) + sum(c["d"]["files"] > 1 for c in cases)
            ctx.cov["to_be_refused"] = ctx.cov.get("to_be_refused", 0) + sum(not c["m"]["ok"] for c in cases)
            ctx.samples = ctx.samples or [c["d"] for c in cases[:2]]
            if ctx.violations or ctx.left() < 200:
                break
    else:
        cases = ctx.enumerate("SvcDefLoc", "SvcDefLoc" if q else "SvcDefLocDeep", timeout=900)
        report(ctx, cases, drive(ctx, cases, "loc", 1), True)
        ctx.traces += len(cases)
        ctx.cov["bindings_enumerated"] = 6 * len(cases)
        for k in range(1 if q else 8):
            more = ctx.simulate("SvcDefSim", "SvcDefSim", 500 if q else 1500, 60, seed=ctx.seed * 100 + 50 + k, timeout=900)
            report(ctx, more, drive(ctx, more, "rnd%d" % k, 1))
            ctx.traces += len(more)
            ctx.cov["bindings_random"] = ctx.cov.get("bindings_random", 0) + sum(len(r["bs"]) for c in more for r in c["d"]["svc"]["rpcs"])
        ctx.samples = [c["d"]["svc"] for c in cases[:1] + more[:2]]
    ctx.assumptions = ["protoc and protoc-gen-go name Go types and fields as SvcDef.tla says (checked on every generated definition: a difference would show)"]


def replay(ctx, r):
    for b in drive(ctx, r["cases"], "replay", 20):
        print(b["what"])
        ctx.violation("replay", b["what"], r)
