"""C20: the generated server run with flags, environment and signals taken from
Server.tla, and observed from outside: what it listens on, what calls run into,
when it ends."""
import json
from c_http import lab, left_out


def judge_ran(c, r):
    x = r.get("ran")
    if r["bad"] or not x:
        return "bad", r["bad"] or "nothing observed"
    if c["ends"]:
        return None if x["early"] else ("stays", "a listener cannot come up and the server runs on")
    if x["early"]:
        return "ends", "the server ended by itself"
    ls = sorted(a["a"] for a in c["reach"] if a["t"] != "nats")
    if sorted(x["listens"]) != ls:
        return "listens", "it listens on %s instead of %s" % (x["listens"], ls)
    bs = sorted(a["a"] for a in c["reach"] if a["t"] == "nats")
    if sorted(x["brokers"]) != bs:
        return "brokers", "it serves the brokers %s instead of %s" % (x["brokers"], bs)
    for a in c["reach"]:
        if a["t"] == "debug":
            if x["probes"].get("debug") != ["200"]:
                return "debug", "the debug listener answers %s" % x["probes"].get("debug")
            continue
        for rpc in c["rpcs"][a["t"]]:
            k = a["t"] + " " + rpc
            if x["probes"].get(k) != c["into"][k]:
                return "call", "a call of %s over %s runs into %s" % (rpc, a["t"], x["probes"].get(k))
    if not x["stopped"]:
        return "stop", "it does not end on SIG%s" % c["stop"]
    return None


def group(lines):
    cases = {}
    for l in lines:
        k = json.dumps([l["d"], l["transport"]])
        cases.setdefault(k, dict(l, calls=[]))["calls"] += l["calls"]
    res = []
    for c in cases.values():
        n = max(1, (len(c["calls"]) + 79) // 80)
        res += [dict(c, calls=c["calls"][i::n], par=3) for i in range(n)]
    return res


def judge(ctx, cases, results):
    seen = set()
    for case, res in zip(cases, results):
        if res["rc"] != 0 or res["build"]:
            if "build" not in seen:
                seen.add("build")
                ctx.violation("build", "there is no server to run (%d): %s\n%s\n%s" % (res["rc"], res["log"][-500:], res["build"][:1500], "\n".join(res["protos"].values())), {"kind": "lab", "case": dict(case, calls=case["calls"][:1])})
            continue
        for c, r in zip(case["calls"], res.get("calls") or []):
            if r is None:
                left_out(ctx, res)
                continue
            ctx.traces += 1
            bad = ("died", r["err"]) if r.get("died") else judge_ran(c, r)
            if bad and bad[0] not in seen:
                seen.add(bad[0])
                ctx.violation(bad[0], "%s\ntransport %r, %s HTTP bindings, flags %s, environment %s\n%s" % (bad[1], case["transport"], "with" if case["d"]["svc"]["rpcs"][0]["bs"] else "without",
                              c["fl"], c["env"], json.dumps(r.get("ran"))[:1500]), {"kind": "lab", "case": dict(case, calls=[c])})


def run(ctx):
    q = ctx.quick
    ctx.model_check("Server", "Server", timeout=300)
    for cfg, prop in (("ServerEnv", "FlagsWin"), ("ServerExtra", "OnlySelected"), ("ServerSwallow", "Stops"), ("ServerDeaf", "Stops")):
        ctx.refuted("Server", cfg, prop)
    lines = ctx.enumerate("Server", "ServerGen", timeout=300)
    for rnd in range(1 if q else 12):
        lines += ctx.simulate("Server", "ServerRand", 150 if q else 800, 2, seed=ctx.seed * 100 + rnd)
        cases = group(lines)
        res = lab(ctx, cases, "sim%d" % rnd)
        for c in cases:
            for x in c["calls"]:
                k = "servers_that_end" if x["ends"] else "servers_on_%d_transports" % len(x["reach"])
                ctx.cov[k] = ctx.cov.get(k, 0) + 1
        ctx.samples = ctx.samples or [c for c in cases[0]["calls"][:4]]
        judge(ctx, cases, res)
        if ctx.violations or ctx.left() < 900:
            break
        lines = []
    ctx.assumptions = ["net/http, gRPC and the operating system are real; nats.go and its server are stand-ins (stubs/README)"]


def replay(ctx, r):
    judge(ctx, [r["case"]], lab(ctx, [r["case"]], "replay"))
    for v in ctx.violations:
        print(v["what"])
