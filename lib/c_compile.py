"""C12: everything baron generates for a definition, and for the definition it
is changed to, goes through the Go compiler."""
import random
from c_http import lab, judge


def kinds(ctx, cases):
    for c in cases:
        for k in ("transport_" + (c["transport"] or "default"), "client" if c["client"] else "no_client", "then_" + c["parts"] if "then" in c else "once"):
            ctx.cov[k] = ctx.cov.get(k, 0) + 1
    ctx.cov["definitions"] = ctx.cov.get("definitions", 0) + len(cases)
    ctx.samples = ctx.samples or [{"svc": c["d"]["svc"], "types": [t["n"] for t in c["d"]["types"]]} for c in cases[:3]]


def run(ctx):
    q = ctx.quick
    cases = ctx.enumerate("GoNames", "GoNames" if q else "GoNamesDeep", timeout=900)
    rnd = random.Random(ctx.seed)
    for c in ctx.enumerate("HttpMatrix", "HttpMatrix_http" + ("" if q else "_deep"), workers=8, timeout=900):
        cases.append(dict(c, calls=[], client=True, parts="all", transport=rnd.choice(["", "all", "grpc", "nats"])))
    cases += [dict(c, parts="all") for c in ctx.enumerate("HttpMany", "HttpMany_compile" + ("" if q else "_deep"), workers=8, timeout=900)]
    for r in range(1 if q else 20):
        cases += ctx.simulate("HttpSim", "HttpSimCompile", 100 if q else 300, 62, seed=ctx.seed * 100 + r, timeout=900)
        kinds(ctx, cases)
        res = lab(ctx, cases, "sim%d" % r, ["-build", "-full"])
        judge(ctx, cases, res)
        ctx.traces += len(cases)
        if ctx.violations or ctx.left() < 900:
            break
        cases = []
    ctx.assumptions = ["the Go compiler and protoc-gen-go decide; gorilla/mux, go-kit and nats.go are stand-ins with the exported names the templates use (stubs/README)"]


def replay(ctx, r):
    cases = [r["case"]]
    judge(ctx, cases, lab(ctx, cases, "replay", ["-build", "-full"]))
    for v in ctx.violations:
        print(v["what"])
