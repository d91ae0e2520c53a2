"""C17, C18: calls over gRPC and NATS.  Every type and random messages as single
calls, and traffic of many callers at once judged by TLC against Rpc.tla."""
import json, random, re
from vlib import CheckError, write_ndjson
from c_http import lab, along, describe, count, left_out, long_cases

SIM = {"C17": "HttpSimGrpc", "C18": "HttpSimNats"}
MATRIX = {"C17": "HttpMatrix_grpc", "C18": "HttpMatrix_nats"}
T = {"C17": "grpc", "C18": "nats"}


def judge_call(c, r):
    if r.get("died"):
        return "died", r["err"]
    if r["bad"]:
        return "bad", r["bad"]
    if r["err"] and not r["seen"]:
        return "lost", "the call did not reach a handler: %s" % r["err"]
    if len(r["seen"]) != 1:
        return "count", "the handlers were invoked %d times: %s" % (len(r["seen"]), [(s["rpc"], s["srv"]) for s in r["seen"]])
    s = r["seen"][0]
    if s["rpc"] != c["rpc"]:
        return "handler", "the handler of %s got a call of %s" % (s["rpc"], c["rpc"])
    if not r["req_eq"]:
        return "request", "the handler got %s" % s["req"]
    if not r["kept"]:
        return "kept", "the caller's own request was changed"
    bad = along(c, r)
    if bad:
        return bad
    if "err" in c:
        if not r["failed"]:
            return "error", "no error for the caller, but %s" % r["got"]
        if c["t"] == "grpc":
            w = c["err_want"]
            if json.loads(w["text"]) not in r["err"]:
                return "error", "the caller gets the error %r" % r["err"]
            if r["code"] != (w["grpc"] or 2):
                return "code", "the error has the code %d instead of %d" % (r["code"], w["grpc"] or 2)
        elif json.loads(c["err_want"]["words"]) not in r["err"]:
            return "error", "the caller gets the error %r" % r["err"]
        return None
    if r["failed"]:
        return "error", "the caller got an error: %s" % r["err"]
    if not r["resp_eq"]:
        return "response", "the caller got %s" % r["got"]
    return None


def traffic(rnd, case, t, k):
    """Many callers over the calls of a case."""
    calls = [{"rpc": c["rpc"], "msg": c["msg"]} for c in case["calls"] if all(x["ok"] for x in c.get("x", []))]
    if not calls:
        return None
    calls = [rnd.choice(calls) for _ in range(k)]
    answers, n = {}, 0
    for c in case["calls"]:
        a = answers.setdefault(c["rpc"], [])
        a.append({"msg": c["resp"], "err": ""})
        if rnd.random() < 0.4:
            n += 1
            a.append({"msg": [], "err": "E%dE" % n})
    for a in answers.values():
        rnd.shuffle(a)
    return {"t": t, "servers": rnd.randint(1, 3), "clients": rnd.randint(1, 3), "par": rnd.choice([2, 4, 8]), "calls": calls, "answers": answers,
            "delays": [rnd.choice([0, 0, 1, 2, 4]) for _ in range(17)]}


def beside(cases, i, t):
    """A definition to serve beside the i-th; NATS tells services by name only."""
    name = lambda c: c["d"]["svc"]["n"].replace("_", "").lower()
    for j in range(1, len(cases)):
        k = (i + j) % len(cases)
        if (t == "grpc" or name(cases[k]) != name(cases[i])) and cases[k]["d"]["svc"]["rpcs"]:
            return "d%d" % k
    return ""


def norm(e, t):
    e = {k: v for k, v in e.items() if k != "show"}
    if e["e"] in ("handle", "return") and e["k"] == "err":
        m = re.search(r"E\d+E", e["val"])
        e["val"] = "error" if t == "nats" else m.group(0) if m else e["val"]
    return e


def judge_traffic(ctx, cases, results):
    runs, idx = [], []
    for case, res in zip(cases, results):
        if case.get("traffic") and res["rc"] == 0 and not res["build"]:
            ev = res.get("events")
            if ev is None and res.get("cut"):
                left_out(ctx, res)
                continue
            if ev is None:
                raise CheckError("no events of definition %d" % res["i"])
            runs.append({"events": [norm(e, case["traffic"]["t"]) for e in ev]})
            idx.append((case, res))
    if not runs:
        return
    f = ctx.path("traffic%d.ndjson" % len(ctx.models))
    write_ndjson(f, runs)
    prog = {}
    ctx.validate("RpcTrace", "RpcTrace", f, progress=prog, timeout=600)
    ctx.traces += len(runs)
    ctx.cov["traffic_runs"] = ctx.cov.get("traffic_runs", 0) + len(runs)
    ctx.cov["traffic_events"] = ctx.cov.get("traffic_events", 0) + sum(len(r["events"]) for r in runs)
    for t, (run, (case, res)) in enumerate(zip(runs, idx), 1):
        k = prog.get(t, 1)
        n = len(run["events"])
        back = sum(e["e"] == "return" for e in run["events"])
        if k == n + 1 and back == len(case["traffic"]["calls"]):
            continue
        e = (res["events"] + [{"e": "end"}])[k - 1]
        key = "traffic:%s:%s" % (case["traffic"]["t"], e["e"] + e.get("k", ""))
        if key in ctx.__dict__.setdefault("kinds_seen", set()):
            continue
        ctx.kinds_seen.add(key)
        near = res["events"][max(0, k - 9):k]
        solo = dict(case, calls=[])
        ctx.violation(key, "event %d of %d is not possible: %s\nafter\n%s\n%s" % (k, n, json.dumps(e)[:600], "\n".join(json.dumps(x)[:300] for x in near),
                      "\n".join(res["protos"].values())[:3000]), {"kind": "traffic", "case": solo, "cases": [solo] + [dict(c, calls=[], traffic=None) for c in cases if "d%d" % cases.index(c) == case.get("beside")]})


def judge_calls(ctx, cases, results):
    seen = ctx.__dict__.setdefault("kinds_seen", set())
    for case, res in zip(cases, results):
        if res["rc"] != 0 or res["build"]:
            if "build" not in seen:
                seen.add("build")
                what = "baron fails (%d): %s" % (res["rc"], res["log"]) if res["rc"] else "the generated code does not compile:\n" + res["build"]
                ctx.violation("build", "%s\n%s" % (what[:2000], "\n".join(res["protos"].values())), {"kind": "lab", "case": dict(case, calls=case["calls"][:1], traffic=None)})
            continue
        for c, r in zip(case["calls"], res.get("calls") or []):
            if r is None:
                left_out(ctx, res)
                continue
            ctx.traces += 1
            bad = judge_call(c, r)
            if bad is None or "%s:%s" % (c["t"], bad[0]) in seen:
                continue
            seen.add("%s:%s" % (c["t"], bad[0]))
            ctx.violation("%s:%s" % (c["t"], bad[0]), "%s\n%s" % (bad[1], describe(case, c, r, res)), {"kind": "lab", "case": dict(case, calls=[c], traffic=None)})


def run(ctx):
    q, t = ctx.quick, T[ctx.pid]
    ctx.model_check("Rpc", "Rpc" if q else "RpcDeep", timeout=900)
    for cfg, inv in (("RpcNoGroup", "Once"), ("RpcSharedInbox", "Intact"), ("RpcOneSubject", "Right"), ("RpcUnmarked", "Intact")):
        ctx.refuted("Rpc", cfg, inv)
    cases = ctx.enumerate("HttpMatrix", MATRIX[ctx.pid] + ("" if q else "_deep"), workers=8, timeout=900)
    cases += long_cases(ctx, t)
    for r in range(1 if q else 20):
        rnd = random.Random(ctx.seed * 1000 + r)
        cases += ctx.simulate("HttpSim", SIM[ctx.pid], 50 if q else 200, 105, seed=ctx.seed * 100 + r, timeout=900)
        for i, c in enumerate(cases):
            c["traffic"] = traffic(rnd, c, t, 40 if q else 80)
            c["beside"] = beside(cases, i, t) if rnd.random() < 0.7 else ""
            c["par"] = 8
        res = lab(ctx, cases, "sim%d" % r)
        count(ctx, cases)
        judge_calls(ctx, cases, res)
        judge_traffic(ctx, cases, res)
        if ctx.violations or ctx.left() < 900:
            break
        cases = []
    ctx.assumptions = ["go-kit and nats.go and the NATS server are stand-ins with the behaviour their documentation describes (stubs/README); gRPC and protobuf are real",
                       "protoc and its plugins are right"]


def replay(ctx, r):
    if r["kind"] == "traffic":
        cases = r["cases"]
        cases[0]["beside"] = "d1" if len(cases) > 1 else ""
        for c in cases[1:]:
            c["traffic"] = {"t": cases[0]["traffic"]["t"], "calls": [], "par": 1, "servers": 1, "answers": {}}
        res = lab(ctx, cases, "replay")
        judge_traffic(ctx, cases[:1], res[:1])
    else:
        judge_calls(ctx, [r["case"]], lab(ctx, [r["case"]], "replay"))
    for v in ctx.violations:
        print(v["what"])
