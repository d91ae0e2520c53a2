"""C13-C16: definitions and calls generated from Http.tla, executed on the code
the real baron generates for them."""
import json, os, re
from urllib.parse import unquote, parse_qs
from vlib import CheckError, DRV, VERIF, NCPU, write_ndjson, read_ndjson


def lab(ctx, cases, tag, flags=(), timeout=800):
    i, o, w = ctx.path(tag + ".in"), ctx.path(tag + ".out"), ctx.mkdir("lab-" + tag)
    write_ndjson(i, cases)
    p = ctx.run([ctx.driver("lab"), "-baron", ctx.baron(), "-work", w, "-stubs", os.path.join(VERIF, "stubs"),
                 "-run", os.path.join(DRV, "lab", "run"), "-in", i, "-out", o] + list(flags),
                env={"GOFLAGS": "-mod=mod"}, timeout=timeout, what="lab")
    for l in p.stderr.decode(errors="replace").splitlines():
        ctx.log(l)
    res = read_ndjson(o)
    if len(res) != len(cases):
        raise CheckError("the lab answered %d of %d cases" % (len(res), len(cases)))
    ctx.run(["chmod", "-R", "u+w", w])
    ctx.run(["rm", "-rf", w])
    return res


def seen_all(res):
    return [(s["rpc"], s["req"]) for s in res["seen"]]


def differs(x, w):
    """How a request differs from a layout of the specification."""
    if w["method"] != x["verb"]:
        return "method %s instead of %s" % (w["method"], x["verb"])
    segs = [unquote(a) for a in w["path"].split("/")[1:]]
    want = [unquote(a) for a in x["path"]]
    # a number may be written in other ways; the handler has read it back
    if len(segs) != len(want) or not all(a == b or NUMBER.sub("#", a) == NUMBER.sub("#", b) for a, b in zip(segs, want)):
        return "path %s instead of /%s" % (w["path"], "/".join(x["path"]))
    missing = set(x["query"]) - set(parse_qs(w["query"], keep_blank_values=True))
    if missing:
        return "fields %s are not in the query %s" % (sorted(missing), w["query"])
    if x["body"]:
        try:
            b = json.loads(w["body"])
        except ValueError:
            b = None
        if not isinstance(b, dict):
            return "the body is no JSON object: %s" % w["body"][:200]
    return None


NUMBER = re.compile(r"[-+]?(\d[\d.]*(e[-+]?\d+)?|inf(inity)?|nan)", re.I)


def unq(v):
    return json.loads('"%s"' % v)


def along(c, r):
    """What is sent beside the request: None, or what is wrong."""
    want = {k: unq(v) for k, v in dict(c.get("want_ctx") or {}).items()}
    got = r["seen"][0].get("ctx") or {}
    if "see" in c and got != want:
        return "context", "the handler sees %s instead of %s" % (got, want)
    if c["t"] == "http" and want:
        h = {k: v for k, v in r["wire"][0]["header"].items()}
        for k in c["send"]:
            v = dict(c["ctx"] or {}).get(k)
            sent = [x for n, x in h.items() if n.lower() == k.lower()]
            if v is not None and sent != [[unq(v)]]:
                return "header", "the header for %s is %s" % (k, sent)
    return None


def failed(c, r):
    """What the caller gets of an error: None, or what is wrong."""
    w = c["err_want"]
    if c["t"] == "http":
        if not r["err"]:
            return "error", "no error for the caller"
        if json.loads(w["text"]) not in r["err"] or str(w["status"]) not in r["err"]:
            return "error", "the caller gets the error %r" % r["err"]
        return None
    if r["status"] != w["status"]:
        return "status", "status %d instead of %d" % (r["status"], w["status"])
    try:
        same = json.loads(r["rbody"]) == json.loads(w["body"])
    except ValueError:
        same = False
    if not same:
        return "errorbody", "the body of the error is %s" % r["rbody"]
    for k, v in dict(w["headers"] or {}).items():
        if r["rhdr"].get(k) != "|".join(v):
            return "errorheader", "the header %s of the error is %s" % (k, r["rhdr"].get(k))
    return None


def judge_http(c, r):
    """A call of the client: None, or what is wrong."""
    oks = [x for x in c["x"] if x["ok"]]
    if not oks:
        if r["seen"] or r.get("wire"):
            return "unplaceable", "a request whose path has no place for a value was sent: %s" % r.get("wire", r["seen"])
        if not r["err"]:
            return "unplaceable", "no error for a request that has no place in the path"
        return None
    if len(oks) < len(c["x"]) and r["err"] and not r["seen"] and not r.get("wire"):
        return None     # laid out by a binding which has no place for it
    if r["err"] and not r["seen"]:
        return "lost", "the call did not reach a handler: %s" % r["err"]
    if len(r["seen"]) != 1:
        return "count", "the handlers were invoked %d times: %s" % (len(r["seen"]), seen_all(r))
    s = r["seen"][0]
    if s["rpc"] != c["rpc"]:
        return "handler", "the handler of %s got a call of %s" % (s["rpc"], c["rpc"])
    if not r["req_eq"]:
        return "request", "the handler got %s" % s["req"]
    bad = along(c, r)
    if bad:
        return bad
    if "err" in c:
        return failed(c, r)
    if r["err"]:
        return "error", "the caller got an error: %s" % r["err"]
    if not r["resp_eq"]:
        return "response", "the caller got %s" % r["got"]
    if not r["kept"]:
        return "kept", "the caller's own request was changed"
    if "host" in c and r["wire"][0]["host"] != c["host"]:
        return "host", "the request is for %s" % r["wire"][0]["host"]
    bad = [differs(x, r["wire"][0]) for x in oks]
    if all(bad):
        same = [b for b, x in zip(bad, oks) if x["verb"] == r["wire"][0]["method"]] or bad
        return "wire", "no binding is laid out like this: " + "; ".join(same)
    return None


def judge_raw(c, r):
    want = c["want"]
    if r["bad"] or r["err"]:
        return "server", "the server does not answer: %s%s" % (r["bad"], r["err"])
    if want["rpc"] == "":
        if r["seen"]:
            return c["why"], "the handler of %s was invoked with %s" % seen_all(r)[0]
        if r["status"] < 400:
            return c["why"], "status %d" % r["status"]
        return None
    if len(r["seen"]) != 1:
        return c["why"], "the handlers were invoked %d times (status %d, %s)" % (len(r["seen"]), r["status"], r["rbody"][:300])
    if r["seen"][0]["rpc"] != want["rpc"]:
        return c["why"], "the handler of %s was invoked" % r["seen"][0]["rpc"]
    if not r["req_eq"]:
        return c["why"], "the handler got %s" % r["seen"][0]["req"]
    bad = along(c, r)
    if bad:
        return bad
    if "err" in c:
        return failed(c, r)
    if r["status"] != 200:
        return c["why"], "status %d: %s" % (r["status"], r["rbody"][:300])
    return None


JUDGE = {"http": judge_http, "raw": judge_raw}


def describe(case, c, r, res):
    d = {k: v for k, v in c.items() if k not in ("x",)}
    return "%s\ncall: %s\nresult: %s" % ("\n".join(res["protos"].values()), json.dumps(d)[:1500], json.dumps(r)[:1500])


def left_out(ctx, res):
    """A call that was not made: the driver gives up after waits that ran out or
    processes that died, which are violations.  Without one there is no answer."""
    if not res.get("cut"):
        raise CheckError("a call of definition %d was not made" % res["i"])
    ctx.cut += 1


def judge(ctx, cases, results, budget=3):
    """Reports what contradicts the specification, one violation of a kind."""
    seen = ctx.__dict__.setdefault("kinds_seen", set())
    for case, res in zip(cases, results):
        if res["rc"] != 0 or res["build"]:
            if "build" not in seen:
                seen.add("build")
                what = "baron fails (%d): %s" % (res["rc"], res["log"]) if res["rc"] else "the generated code does not compile:\n" + res["build"]
                ctx.violation("build", "%s\n%s" % (what[:2000], "\n".join(res["protos"].values())), {"kind": "lab", "case": dict(case, traffic=None)})
            continue
        for k, (c, r) in enumerate(zip(case["calls"], res.get("calls") or [])):
            if r is None:
                left_out(ctx, res)
                continue
            if r.get("died"):
                bad = ("died", r["err"])
            elif r["bad"]:
                bad = ("bad", r["bad"])
            else:
                bad = JUDGE[c.get("j", c["t"])](c, r)
            ctx.traces += 1
            if bad is None:
                continue
            key = "%s:%s" % (c["t"], bad[0])
            if key in seen:
                continue
            seen.add(key)
            ctx.violation(key, "%s\n%s" % (bad[1], describe(case, c, r, res)), {"kind": "lab", "case": dict(case, calls=[c], traffic=None)})


def count(ctx, cases):
    for case in cases:
        for c in case["calls"]:
            k = "calls_%s%s" % (c["t"], "_" + c["why"] if "why" in c else "")
            ctx.cov[k] = ctx.cov.get(k, 0) + 1
    ctx.cov["definitions"] = ctx.cov.get("definitions", 0) + len(cases)
    ctx.samples = ctx.samples or [{"svc": c["d"]["svc"], "calls": c["calls"][:2]} for c in cases[:2]]


SIM = {"C13": "HttpSim", "C14": "HttpSimRaw", "C15": "HttpSimList", "C16": "HttpSimErr"}
def long_cases(ctx, mode):
    """Long lists: a definition for every place, its calls of every length."""
    cases = {}
    for l in ctx.enumerate("HttpLong", "HttpLong_%s%s" % (mode, "" if ctx.quick else "_deep"), workers=NCPU, timeout=900):
        c = cases.setdefault(l["loc"], {"calls": []})
        c["calls"] += l.get("calls", [])
        c.update({k: v for k, v in l.items() if k not in ("calls", "loc")})
    return list(cases.values())


LONG = {"C13": "http", "C14": "raw", "C15": "list"}
MANY = {"C13": "HttpMany_http", "C14": "HttpMany_raw"}
MATRIX = {"C13": "HttpMatrix_http", "C14": "HttpMatrix_raw", "C15": "HttpMatrix_list"}


def text_cases(ctx, cfg, module="HttpText"):
    """Every text of the bounds: one definition, the calls of every state."""
    lines = ctx.enumerate(module, cfg, timeout=900)
    d = [x for x in lines if "d" in x]
    calls = [c for x in lines for c in x.get("calls", [])]
    return [dict(d[0], calls=calls[i::NCPU]) for i in range(NCPU)]


def run(ctx):
    q = ctx.quick
    cases = [] if ctx.pid == "C16" else ctx.enumerate("HttpMatrix", MATRIX[ctx.pid] + ("" if q else "_deep"), workers=NCPU, timeout=900)
    if ctx.pid == "C13":
        ctx.model_check("Rpc", "Rpc", timeout=300)
        ctx.refuted("HttpText", "HttpTextDots", "PathKept")
        ctx.refuted("HttpText", "HttpTextQuote", "ListKept")
        ctx.refuted("HttpInst", "HttpInstPrefix", "Reached")
        cases += text_cases(ctx, "HttpText" if q else "HttpTextDeep")
        cases += text_cases(ctx, "HttpInst" if q else "HttpInstDeep", "HttpInst")
    elif ctx.pid == "C15":
        cases += text_cases(ctx, "HttpForms" if q else "HttpFormsDeep")
    elif ctx.pid == "C16":
        cases += text_cases(ctx, "HttpErr" if q else "HttpErrDeep", "HttpErr")
    if ctx.pid in LONG:
        cases += long_cases(ctx, LONG[ctx.pid])
    if ctx.pid in MANY:
        cases += ctx.enumerate("HttpMany", MANY[ctx.pid] + ("" if q else "_deep"), workers=NCPU, timeout=900)
    for rnd in range(1 if q else 20):
        cases += ctx.simulate("HttpSim", SIM[ctx.pid], 60 if q else 250, 105, seed=ctx.seed * 100 + rnd, timeout=900)
        if ctx.pid == "C13":
            import c_rpc, random
            pick = random.Random(ctx.seed * 1000 + rnd)
            for c in cases:
                c["par"] = 8
                c["traffic"] = c_rpc.traffic(pick, c, "http", 40)
        res = lab(ctx, cases, "sim%d" % rnd)
        count(ctx, cases)
        judge(ctx, cases, res)
        if ctx.pid == "C13":
            c_rpc.judge_traffic(ctx, cases, res)
        if ctx.violations or ctx.left() < 900:
            break
        cases = []
    ctx.assumptions = ["gorilla/mux, go-kit and nats.go are stand-ins with the behaviour their documentation describes (stubs/README); net/http, gRPC and protobuf are real",
                       "protoc and its plugins are right"]


def replay(ctx, r):
    if r["kind"] == "traffic":
        import c_rpc
        return c_rpc.replay(ctx, r)
    cases = [r["case"]]
    judge(ctx, cases, lab(ctx, cases, "replay"))
    for v in ctx.violations:
        print(v["what"])
