"""C01-C05 (and the rejected-run half of C06): histories of Regen replayed
against the real tool."""
import json, os
from vlib import CheckError, write_ndjson, read_ndjson

# quick: (histories, history depth), thorough
SIZES = {"C01": (300, 4000), "C02": (300, 4000), "C03": (300, 4000), "C04": (300, 4000), "C05": (90, 1200), "C06": (150, 1500)}


def model(ctx):
    if ctx.pid == "C06":
        ctx.model_check("RegenCrash", "RegenCrashQuick" if ctx.quick else "RegenCrashMC", timeout=900)
        ctx.refuted("RegenCrash", "RegenCrashBad", "NeverTorn")
        ctx.model_check("RegenMC", "RegenFilesQuick" if ctx.quick else "RegenFilesMC", timeout=1500)
        return
    if ctx.pid in ("C01", "C02", "C05"):
        ctx.model_check("RegenMC", "RegenHandlerQuick" if ctx.quick else "RegenHandlerMC", timeout=1500)
    else:
        ctx.model_check("RegenMC", "RegenFilesQuick" if ctx.quick else "RegenFilesMC", timeout=1500)


def layout(ctx):
    """The specification takes the declarations of a new handler file from the tool."""
    p = ctx.path("layout")
    if "LAYOUT" not in ctx.env:
        out = ctx.run([ctx.driver("regen"), "-baron", ctx.baron(), "-work", ctx.mkdir("work"), "-layout"], what="regen driver").stdout
        with open(p, "wb") as f:
            f.write(out)
        ctx.env["LAYOUT"] = p


def histories(ctx, n, seed, cfg=None):
    layout(ctx)
    hs = ctx.simulate("RegenSim", cfg or ("RegenSimBad" if ctx.pid == "C06" else "RegenSim"), n, 80, seed=seed)
    for i, h in enumerate(hs):
        h["profile"], h["salt"] = i % 4, (i * 13 + seed * 7) % 1000
    return hs


def record(ctx, hs, tag, limit, crash=0):
    i, o = ctx.path(tag + ".in"), ctx.path(tag + ".out")
    write_ndjson(i, hs)
    cmd = [ctx.driver("regen"), "-baron", ctx.baron(), "-work", ctx.mkdir("work"), "-in", i, "-out", o,
           "-limit", "%ds" % limit]
    if ctx.pid == "C05":
        cmd.append("-det")
    if ctx.pid == "C06" and crash:
        cmd += ["-crash", str(crash), "-faultrun", ctx.c_tool("faultrun")]
    ctx.run(cmd, timeout=limit + 200, what="regen driver")
    ts = read_ndjson(o)
    for t in ts:
        # an edit that cannot be made because the tool left another file than the
        # specification says ends the history; what came before is judged
        if "the handler file has no item" in t["err"]:
            pass
        elif t["err"]:
            raise CheckError("driver: " + t["err"])
    return ts


def judge(ctx, ts, tag):
    layout(ctx)
    p = ctx.path(tag + ".trace")
    # what the specification never reads makes the trace longer for nothing
    slim = []
    for t in ts:
        t = json.loads(json.dumps(t))
        for s in t["steps"]:
            if s.get("obs"):
                s["obs"].pop("log", None)
                s["obs"].pop("trials", None)
        slim.append(t)
    write_ndjson(p, slim)
    prog = {}
    bad = ctx.validate("RegenTrace", "RegenTrace", p, prop=ctx.pid, progress=prog)
    ctx.traces += len(ts)
    # a history whose next edit makes no sense any more, since the tool left
    # another file than the specification says, ends there
    ended = [i for i, t in enumerate(ts, 1) if prog.get(i, 1) != len(t["steps"]) + 1 or t["err"]]
    if ended and not bad:
        other = {b["tid"] for b in ctx.validate("RegenTrace", "RegenTrace", p, prop="ALL")}
        if not set(ended) <= other:
            raise CheckError("history %s of %s stops although every run left what the specification says" % (sorted(set(ended) - other)[0], p))
        ctx.cov["histories_cut_short"] = ctx.cov.get("histories_cut_short", 0) + len(ended)
    return bad


def history(t, upto):
    return {"init": t["init"], "steps": [{k: v for k, v in s.items() if k != "obs"} for s in t["steps"][:upto]],
            "profile": t["profile"], "salt": t["salt"]}


def reproduce(ctx, h, tries=8):
    for k in range(tries):
        ts = record(ctx, [h], "repro%d" % k, 120)
        bad = judge(ctx, ts, "repro%d" % k)
        if bad:
            return ts[0], bad[0]
    return None, None


def report(ctx, ts, bad, confirm=True):
    seen = set()
    for b in bad:
        kind = "; ".join(b["bad"])
        if kind in seen or len(seen) >= 4:
            continue
        t = ts[b["tid"] - 1]
        h = history(t, b["l"])
        log = t["steps"][b["l"] - 1].get("obs", {}).get("log", "")
        if confirm:
            before = ctx.traces
            t2, b2 = reproduce(ctx, h)
            ctx.traces = before
            if not t2:
                if any(x.startswith("C05") for x in b["bad"]):
                    pass  # two different trees were recorded; that is the violation
                else:
                    continue
        seen.add(kind)
        ctx.violation(kind.replace(" ", "-"), "%s at step %d (%s): %s" % (kind, b["l"], t["steps"][b["l"] - 1]["a"], log), h)
    if bad and not seen:
        raise CheckError("a rejection was not reproduced: %s" % bad[:3])


def run(ctx):
    ctx.baron()
    model(ctx)
    n = SIZES[ctx.pid][0 if ctx.quick else 1]
    batch = n if ctx.quick else 500
    runs = steps = 0
    kinds = {}
    for k in range(0, n, batch):
        hs = histories(ctx, min(batch, n - k), ctx.seed * 1000 + k)
        ts = record(ctx, hs, "h%d" % k, 300 if ctx.quick else 900)
        bad = judge(ctx, ts, "h%d" % k)
        for t in ts:
            for s in t["steps"]:
                steps += 1
                kinds[s["a"]] = kinds.get(s["a"], 0) + 1
                runs += bool(s.get("obs"))
        if not ctx.samples:
            ctx.samples = [history(t, 99) for t in ts[:2]]
        if bad:
            report(ctx, ts, bad)
            break
        if ctx.left() < 300:
            break
    if ctx.pid == "C06" and not ctx.violations:
        crashes(ctx)
    ctx.cov.update({"histories": ctx.traces, "steps_replayed": steps, "judged_runs": runs, "actions": kinds})
    ctx.assumptions = ["protoc and its plugins behave as the installed ones", "texts of developers come from a pool of Go declarations in drivers/regen/handler.go",
                       "TLC, the replay driver and its projection of a tree onto the specification are trusted"]


def trials_of(ts):
    res = []
    for t in ts:
        for k, s in enumerate(t["steps"], 1):
            for x in (s.get("obs") or {}).get("trials") or []:
                res.append((t, k, x))
    return res


def judge_trials(ctx, tr, tag):
    p = ctx.path(tag + ".trials")
    write_ndjson(p, [x for _, _, x in tr])
    return ctx.validate("RegenCrashTrace", "RegenCrashTrace", p, lens=[2] * len(tr))


def crashes(ctx):
    """Kills and failing operations at every file-system mutation of a run."""
    n = 12 if ctx.quick else 150
    hits, ops = {}, 0
    for k in range(0, n, 30):
        hs = histories(ctx, min(30, n - k), ctx.seed * 1000 + 500 + k, "RegenSim")
        ts = record(ctx, hs, "c%d" % k, 400, crash=1 if ctx.quick else 2)
        tr = trials_of(ts)
        for _, _, x in tr:
            if x["hit"]:
                ops += 1
                key = "%s %s" % (x["mode"].split("=")[0], x["op"])
                hits[key] = hits.get(key, 0) + 1
        bad = judge_trials(ctx, tr, "c%d" % k)
        seen = set()
        for b in bad:
            t, step, x = tr[b["tid"] - 1]
            kind = "; ".join(b["bad"])
            if kind in seen:
                continue
            h = dict(history(t, step), crash=True)
            # confirm on the real code
            again = record(ctx, [h], "crepro", 200, crash=1)
            tr2 = trials_of(again)
            before = ctx.traces
            bad2 = judge_trials(ctx, tr2, "crepro") if tr2 else []
            ctx.traces = before
            if not any(set(b2["bad"]) & set(b["bad"]) for b2 in bad2):
                continue
            seen.add(kind)
            ctx.violation(kind.replace(" ", "-"), "%s: %s at operation %d (%s %s), run ended %s, files %s, stray %s, then %s" % (
                kind, x["mode"], x["k"], x["op"], x["file"], x["res"], x["files"], x["stray"], x["rec"]), h)
        if bad and not seen:
            raise CheckError("a rejected faulty run was not reproduced: %s" % bad[:3])
        if bad or ctx.left() < 300:
            break
    if ops == 0:
        raise CheckError("no fault was injected")
    ctx.cov["faults_injected"] = ops
    ctx.cov["faults_by_kind"] = hits


def replay(ctx, h):
    if h.get("crash"):
        tr = trials_of(record(ctx, [h], "r", 200, crash=1))
        for b in judge_trials(ctx, tr, "r")[:5]:
            x = tr[b["tid"] - 1][2]
            ctx.violation("replay", "%s: %s" % (b["bad"], x), h)
        return
    t, b = reproduce(ctx, h, 3)
    if t:
        report(ctx, [t], [b], confirm=False)
