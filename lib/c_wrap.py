"""C19: endpoints wrapped by every sequence of operations of the bounds, and
random ones, run into exactly the layers Wrap.tla gives them."""
import json
from vlib import NCPU
from c_http import lab, text_cases, count, describe, left_out


def judge_wrap(c, r):
    if r["bad"]:
        return "bad", r["bad"]
    if (r.get("refused") or []) != c["refused"]:
        return "refused", "the operations refused are %s" % [i for i, x in enumerate(r.get("refused") or []) if x]
    want = {k: list(v) for k, v in dict(c["runs"]).items()}
    for got, how in zip(r["runs"], ("called directly", "called as a gRPC server")):
        for k in sorted(want):
            if got.get(k) != want[k]:
                return "layers", "the endpoint %s, %s, runs into %s instead of %s" % (k, how, got.get(k), want[k])
        if set(got) != set(want):
            return "endpoints", "the endpoints are %s" % sorted(got)
    return None


def judge(ctx, cases, results):
    seen = set()
    for case, res in zip(cases, results):
        if res["rc"] != 0 or res["build"]:
            if "build" not in seen:
                seen.add("build")
                ctx.violation("build", "the definition is not served (%d): %s\n%s\n%s" % (res["rc"], res["log"][-500:], res["build"][:1500], "\n".join(res["protos"].values())), {"kind": "lab", "case": dict(case, calls=case["calls"][:1])})
            continue
        for c, r in zip(case["calls"], res.get("calls") or []):
            if r is None:
                left_out(ctx, res)
                continue
            ctx.traces += 1
            bad = ("died", r["err"]) if r.get("died") else judge_wrap(c, r)
            if bad and bad[0] not in seen:
                seen.add(bad[0])
                ctx.violation(bad[0], "%s\n%s" % (bad[1], describe(case, c, r, res)), {"kind": "lab", "case": dict(case, calls=[c])})


def run(ctx):
    q = ctx.quick
    ctx.model_check("Middleware", "Middleware" if q else "MiddlewareDeep", timeout=900)
    ctx.refuted("Middleware", "MiddlewareEarly", "AsAsked")
    ctx.refuted("Middleware", "MiddlewareStrict", "RefusedRight")
    cases = text_cases(ctx, "MiddlewareGen" if q else "MiddlewareGenDeep", "MiddlewareGen") + text_cases(ctx, "MiddlewareGenLong", "MiddlewareGen") + text_cases(ctx, "MiddlewareGenWide", "MiddlewareGen")
    for rnd in range(1 if q else 10):
        cases += ctx.simulate("HttpSim", "HttpSimWrap", 40 if q else 150, 105, seed=ctx.seed * 100 + rnd, timeout=900)
        res = lab(ctx, cases, "sim%d" % rnd)
        count(ctx, cases)
        judge(ctx, cases, res)
        if ctx.violations or ctx.left() < 900:
            break
        cases = []
    ctx.assumptions = ["go-kit's endpoint package is a stand-in with the types of the original (stubs/README)"]


def replay(ctx, r):
    judge(ctx, [r["case"]], lab(ctx, [r["case"]], "replay"))
    for v in ctx.violations:
        print(v["what"])
