"""C07-C09: texts, sessions and definitions generated from Scanner,
ScanSession and SvcGrammar, replayed into svcparse and svcdef."""
import json, os, random, subprocess
from vlib import CheckError, REPO, write_ndjson, read_ndjson

J = "".join


def drive(ctx, mode, cases, tag, timeout=300):
    i, o = ctx.path(tag + ".in"), ctx.path(tag + ".out")
    write_ndjson(i, cases)
    p = ctx.run([ctx.overlay_driver("svcread"), "-mode", mode, "-in", i, "-out", o], timeout=timeout, ok=None, what="svcread driver")
    if p.returncode not in (0, 2) or mode == "reads" and p.returncode:
        raise CheckError("svcread driver failed (%d): %s" % (p.returncode, p.stderr.decode(errors="replace")[-2000:]))
    res = read_ndjson(o)
    if p.returncode == 2:           # the process died of the text it was reading
        res = [b for b in res if "what" in b]
        with open(o + ".cur") as f:
            res.append({"i": int(f.read()), "what": "crash: " + p.stderr.decode(errors="replace")[:200]})
    return res


def text(c):
    return J(c["t"] if "t" in c else c["text"])


NAMED = {"<nbsp>": "\u00a0", "<eacute>": "\u00e9", "<digit>": "\u0663", "<quote>": "\u2019"}


def named(cs):
    """The characters that the specification has names for."""
    s = json.dumps(cs)
    for k, v in NAMED.items():
        s = s.replace(k, json.dumps(v)[1:-1])
    return json.loads(s)


def complain(ctx, mode, cases, bad):
    seen = set()
    for b in bad:
        c = cases[b["i"]]
        kind = b["what"].split(":")[0] + str(len(b["what"].split()))
        if kind in seen or len(seen) > 5:
            continue
        seen.add(kind)
        ctx.violation("%s:%s" % (mode, text(c)[:80].replace(" ", "_").replace("\n", "_")),
                      "%s on %r" % (b["what"], text(c)[:400]), {"kind": "reader", "mode": mode, "case": c})


def run(ctx):
    q = ctx.quick
    if ctx.pid == "C09":
        ctx.model_check("ScanSession", "ScanSessionMC", timeout=200)
        cases = ctx.enumerate("ScanMC", "ScanMC" if q else "ScanMCDeep", timeout=1500, workers=4, heap="10g")
        cases += named(ctx.enumerate("ScanMC", "ScanMCOdd" if q else "ScanMCOddDeep", timeout=1500, workers=4, heap="10g"))
        cases += ctx.enumerate("ScanMC", "ScanMCWhole" if q else "ScanMCWholeDeep", timeout=1500, workers=4, heap="10g")
        bad = drive(ctx, "scan", cases, "scan")
        complain(ctx, "scan", cases, bad)
        ss = named(ctx.simulate("ScanSession", "ScanSession", 4000 if q else 40000, 60, timeout=1500))
        complain(ctx, "session", ss, drive(ctx, "session", ss, "session"))
        ctx.traces += len(cases) + len(ss)
        ctx.cov["texts_scanned"] = len(cases)
        ctx.cov["sessions"] = len(ss)
        ctx.samples += [text(c)[:200] for c in ss[:4]]
    if ctx.pid == "C07":
        ctx.model_check("SvcGrammar", "SvcGrammarMC" if q else "SvcGrammarDeep", timeout=3000, heap="10g")
        cs = ctx.simulate("SvcGrammar", "SvcGrammarSim", 350 if q else 6000, 3000, timeout=2400)
        fs = ctx.simulate("SvcGrammar", "SvcGrammarForeign", 60 if q else 1000, 3000, timeout=2400)
        if any(not c["ok"] for c in cs):
            raise CheckError("a text of the supported syntax is refused by the specification")
        for mode in ("parse", "define"):
            complain(ctx, mode, cs, drive(ctx, mode, cs, mode))
            # valid definitions baron need not support: exactly right or refused
            for f in fs:
                f["ok"] = False
            complain(ctx, mode, fs, drive(ctx, mode, fs, mode + "f"))
        ctx.traces += 2 * (len(cs) + len(fs))
        ctx.cov["definitions"] = len(cs)
        ctx.cov["bindings"] = sum(len(m["bs"]) for c in cs for m in c["ms"])
        ctx.cov["unsupported_definitions"] = len(fs)
        protoc_agrees(ctx, cs)
        ctx.samples += [text(c)[:600] for c in cs[:3]]
    if ctx.pid == "C08":
        totality(ctx)


def protoc_agrees(ctx, cs):
    """The generated definitions are real ones: protoc accepts them."""
    d = ctx.mkdir("protos")
    n = 40 if ctx.quick else 400
    for i, c in enumerate(cs[:n]):
        with open(os.path.join(d, "d%d.proto" % i), "w") as f:
            f.write(text(c))
    inc = [os.path.join(REPO, "third_party/googleapis")]
    for i in range(min(n, len(cs))):
        p = ctx.run(["protoc", "--proto_path=" + d] + ["-I" + x for x in inc] + ["-o/dev/null", "d%d.proto" % i],
                    cwd=d, ok=None, what="protoc")
        if p.returncode != 0:
            raise CheckError("protoc refuses a generated definition: %s\n%s" % (p.stderr.decode()[-500:], text(cs[i])))
    ctx.cov["confirmed_by_protoc"] = min(n, len(cs))


def mutants(rnd, syms, n):
    res = []
    nasty = ["{", "}", "\"", "'", "/*", "*/", "//", "\n", "service", "rpc", "option", "(", ")", ";", ":", "\\", "=",
             "additional_bindings", "custom", "body", "returns", "\u00e9", "\x00", "service x {", "\"\"", ".", ","]
    for _ in range(n):
        s = list(syms)
        for _ in range(rnd.choice((1, 1, 1, 2, 3))):
            k = rnd.randrange(len(s) + 1)
            w = rnd.randrange(6)
            if w == 0:
                s = s[:k]
            elif w == 1:
                del s[k:k + rnd.choice((1, 1, 2, 5))]
            elif w == 2:
                s[k:k] = s[k:k + rnd.choice((1, 3, 10))]
            elif w == 3:
                s.insert(k, rnd.choice(nasty))
            elif w == 4 and k < len(s):
                s[k] = rnd.choice(nasty)
            else:
                j = rnd.randrange(len(s) + 1)
                a, b = min(j, k), max(j, k)
                s = s[:a] + s[b:]
            if not s:
                s = [rnd.choice(nasty)]
        res.append(J(s))
    return res


def totality(ctx):
    q = ctx.quick
    rnd = random.Random(ctx.seed)
    ctx.model_check("ReaderHistory", "ReaderHistoryMC", timeout=200)
    ctx.refuted("ReaderHistory", "ReaderHistoryBad", "Isolated")
    cs = ctx.simulate("SvcGrammar", "SvcGrammarSim", 60 if q else 800, 3000, timeout=2400)
    sc = ctx.enumerate("ScanMC", "ScanMC", timeout=600, workers=4)
    texts = [text(c) for c in cs]
    # every cut of a few definitions, at every symbol
    for c in cs[:6 if q else 60]:
        s = c["t"]
        k0 = s.index("Abc_Svc") - 3
        texts += [J(s[:k]) for k in range(k0, len(s))]
    for c in cs:
        texts += mutants(rnd, c["t"], 40)
    texts += [text(c) for c in rnd.sample(sc, min(len(sc), 1500 if q else 20000))]
    texts = list(dict.fromkeys(texts))
    order = []
    for _ in range(3):
        p = list(range(len(texts)))
        rnd.shuffle(p)
        order += p
    o = drive(ctx, "reads", [{"texts": texts, "order": order}], "reads", timeout=1500)[0]
    # the history as observed, judged by the specification
    cls = lambda s: "crash" if s.split(":")[0] in ("panic", "crash", "hang") or s == "hang" else ("error" if s.startswith("error") else "definition")
    ids = {}
    num = lambda s: ids.setdefault(s, len(ids) + 1)
    tr = ctx.path("reads.trace")
    write_ndjson(tr, [{"fresh": [{"c": cls(s), "d": num(s)} for s in o["fresh"]],
                       "reads": [{"text": r["text"], "c": cls(r["out"]), "d": num(r["out"])} for r in o["reads"]]}])
    bad = ctx.validate("ReaderTrace", "ReaderTrace", tr, timeout=900)
    seen = set()
    for b in bad:
        w = b["bad"][0]
        if w in seen:
            continue
        seen.add(w)
        if b["l"] == 0:
            t = texts[b["text"] - 1]
            ctx.violation("read:" + t[:60].replace(" ", "_").replace("\n", "_"), "%s: %s on %r" % (w, o["fresh"][b["text"] - 1], t[:500]),
                          {"kind": "reader", "mode": "total", "texts": [t], "order": [0]})
        else:
            k = b["l"] - 1
            r = o["reads"][k]
            hist = shrink(ctx, texts, [x["text"] - 1 for x in o["reads"][:k + 1]], o["fresh"])
            ctx.violation("isolation", "%s: %s, in a fresh process %s, on %r" % (w, r["out"], o["fresh"][r["text"] - 1], texts[r["text"] - 1][:500]),
                          {"kind": "reader", "mode": "total", "texts": [texts[i] for i in hist], "order": list(range(len(hist)))})
    ctx.traces += len(o["reads"]) + len(o["fresh"])
    ctx.cov["texts"] = len(texts)
    ctx.cov["outcomes"] = {k: sum(1 for s in o["fresh"] if cls(s) == k) for k in ("definition", "error", "crash")}
    ctx.samples += [t[-300:] for t in texts[len(cs):len(cs) + 3]]
    if not ctx.violations:
        definitions(ctx)


def definitions(ctx):
    """The same of svcdef.New: Go files and definitions, whole, cut, mixed up."""
    q = ctx.quick
    cs = ctx.simulate("SvcDefSim", "SvcDefSim", 120 if q else 1500, 60, timeout=900)
    i, out = ctx.path("defs.in"), ctx.path("defs.out")
    write_ndjson(i, cs)
    ctx.run([ctx.overlay_driver("svcdef"), "-mode", "history", "-in", i, "-out", out, "-work", ctx.mkdir("defs"),
             "-third", os.path.join(REPO, "third_party/googleapis"), "-seed", str(ctx.seed)], timeout=1500, what="svcdef driver")
    o = read_ndjson(out)[0]
    cls = lambda s: "error" if s == "error" else "definition" if s.startswith("definition") else "crash"
    ids = {}
    num = lambda s: ids.setdefault(s, len(ids) + 1)
    tr = ctx.path("defs.trace")
    write_ndjson(tr, [{"fresh": [{"c": cls(s), "d": num(s)} for s in o["fresh"]],
                       "reads": [{"text": r["text"], "c": cls(r["out"]), "d": num(r["out"])} for r in o["reads"]]}])
    seen = set()
    for b in ctx.validate("ReaderTrace", "ReaderTrace", tr, timeout=900):
        w = b["bad"][0]
        if w in seen:
            continue
        seen.add(w)
        if b["l"] == 0:
            x = b["text"] - 1
            ctx.violation("define:" + o["fresh"][x][:60].replace(" ", "_"), "%s: %s" % (w, o["fresh"][x]),
                          {"kind": "reader", "mode": "defs", "inputs": [json.loads(o["inputs"][x])], "fresh": o["fresh"][x]})
        else:
            k = b["l"] - 1
            r = o["reads"][k]
            for n in (2, 5, 20, 100, 10 ** 6):
                h = [json.loads(o["inputs"][y["text"] - 1]) for y in o["reads"][max(0, k + 1 - n):k + 1]]
                if sequence(ctx, h)[-1] != o["fresh"][r["text"] - 1]:
                    break
            ctx.violation("isolation of definitions", "%s: %s, in a fresh process %s" % (w, r["out"], o["fresh"][r["text"] - 1]),
                          {"kind": "reader", "mode": "defs", "inputs": h, "fresh": o["fresh"][r["text"] - 1]})
    ctx.traces += len(o["reads"]) + len(o["fresh"])
    ctx.cov["definition_inputs"] = {k: sum(1 for s in o["fresh"] if cls(s) == k) for k in ("definition", "error", "crash")}


def sequence(ctx, inputs):
    p = ctx.run([ctx.overlay_driver("svcdef"), "-mode", "replay"], input=json.dumps(inputs).encode(), ok=None, what="svcdef driver")
    return p.stdout.decode().splitlines() or ["crash"]


def shrink(ctx, texts, hist, fresh):
    """A short history with the same defect: the last few reads, if enough."""
    for n in (2, 5, 20, 100):
        h = hist[-n:]
        o = drive(ctx, "reads", [{"texts": [texts[i] for i in h], "order": list(range(len(h)))}], "shrink")[0]
        if o["reads"][-1]["out"] != o["fresh"][-1]:
            return h
    return hist


def replay(ctx, r):
    if r["mode"] == "defs":
        out = sequence(ctx, r["inputs"])[-1]
        print(out, "- in a fresh process", r["fresh"])
        if out != r["fresh"] or out.startswith(("panic", "crash", "hang")):
            ctx.violation("replay", "reproduced", r)
    elif r["mode"] == "total":
        o = drive(ctx, "reads", [{"texts": r["texts"], "order": r["order"]}], "replay")[0]
        for t, f in zip(r["texts"], o["fresh"]):
            print("fresh process: %s  on %r" % (f, t[-300:]))
        last = o["reads"][-1]
        print("in sequence:   %s" % last["out"])
        f = o["fresh"][last["text"] - 1]
        if last["out"] != f or f.startswith(("panic", "crash", "hang")):
            ctx.violation("replay", "reproduced", r)
    else:
        for b in drive(ctx, r["mode"], [r["case"]], "replay"):
            print(b["what"])
            ctx.violation("replay", b["what"], r)
