"""C21: baron --start along histories and for names taken from Start.tla, and
baron itself on what it writes."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import VERIF, DRV, NCPU


def listing(root):
    """path -> ("dir",) | ("link", to) | ("file", text)"""
    res = {}
    for d, ds, fs in os.walk(root):
        for n in ds + fs:
            p = os.path.join(d, n)
            r = os.path.relpath(p, root)
            if os.path.islink(p):
                res[r] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                res[r] = ("dir",)
            else:
                with open(p, errors="surrogateescape") as f:
                    res[r] = ("file", f.read())
    return res


def bare(text):
    return re.sub(r"//[^\n]*|/\*.*?\*/", "", text, flags=re.S)


def names_in(text):
    t = bare(text)
    return re.findall(r"^\s*package\s+(\S+?)\s*;", t, re.M), re.findall(r"^\s*service\s+(\S+?)\s*\{", t, re.M)


MINE = "// mine %s\n"


def lay(root, tree):
    for e in sorted(tree, key=lambda e: len(e["p"])):
        p, n = os.path.join(root, *e["p"]), e["n"]
        if n["k"] == "dir":
            os.makedirs(p, exist_ok=True)
        elif n["k"] == "link":
            os.symlink(os.path.join(root, *n["v"]), p)
        else:
            with open(p, "w") as f:
                f.write(MINE % n["v"][1] if n["v"][1] else "")


def compare(root, tree):
    got = listing(root)
    for e in tree:
        p, n = os.path.join(*e["p"]), e["n"]
        g = got.pop(p, None)
        if g is None:
            return "gone", "%s is not there" % p
        if g[0] != n["k"]:
            return "kind", "%s is a %s" % (p, g[0])
        if n["k"] == "link" and g[1] != os.path.join(root, *n["v"]):
            return "changed", "%s leads elsewhere" % p
        if n["k"] == "file":
            if n["v"][0] == "mine" and g[1] != (MINE % n["v"][1] if n["v"][1] else ""):
                return "changed", "%s was changed:\n%s" % (p, g[1][:300])
            if n["v"][0] == "def" and names_in(g[1]) != ([n["v"][1]], [n["v"][2]]):
                return "names", "%s has package and service %s instead of %s" % (p, names_in(g[1]), n["v"][1:])
    if got:
        return "extra", "%s is there" % sorted(got)
    return None


def start(ctx, root, args):
    return subprocess.run([ctx.baron(), "--start", "--"] + args, cwd=root, env=ctx.env, capture_output=True, timeout=60)


def history(ctx, root, c):
    os.makedirs(root)
    lay(root, c["first"])
    for i, s in enumerate(c["steps"]):
        op, p = s["op"], None
        if op["op"] == "start":
            args = [] if not op["given"] else [op["name"]] + ([op["out"].replace("@", root)] if op["out"] else [])
            p = start(ctx, root, args)
            if (p.returncode == 0) != s["ok"]:
                return "verdict", "step %d: baron --start %s ends with status %d\n%s" % (i + 1, args, p.returncode, p.stderr.decode(errors="replace")[-500:])
        else:
            f = os.path.join(root, *op["path"])
            if op["op"] == "remove":
                os.remove(f)
            else:
                with open(f, "w") as h:
                    h.write(MINE % "edited")
        bad = compare(root, s["tree"])
        if bad:
            return bad[0], "step %d (%s): %s" % (i + 1, json.dumps(op), bad[1])
    return None


def named(ctx, root, c):
    """Starts a definition of a name and gives it to baron."""
    os.makedirs(root)
    p = start(ctx, root, [c["name"]])
    if (p.returncode == 0) != c["ok"]:
        return "verdict", "baron --start %r ends with status %d\n%s" % (c["name"], p.returncode, p.stderr.decode(errors="replace")[-500:])
    bad = compare(root, [{"p": [c["file"]], "n": {"k": "file", "v": ["def", c["pkg"], c["svc"]]}}] if c["ok"] else [])
    if bad or not c["ok"]:
        return bad
    with open(os.path.join(root, c["file"])) as f:
        text = f.read()
    p = subprocess.run([ctx.baron(), "--", c["file"]], cwd=root, env=ctx.env, capture_output=True, timeout=120)
    if p.returncode != 0:
        return "refused", "baron does not accept the definition of --start %r:\n%s\n%s" % (c["name"], text, p.stderr.decode(errors="replace")[-700:])
    got = listing(root)
    if got[c["file"]] != ("file", text):
        return "changed", "baron changes %s" % c["file"]
    for f in (os.path.join(c["dir"], "service", "service.go"), os.path.join(c["dir"], "cmd", c["dir"][:-8], "main.go")):
        if f not in got:
            return "refused", "there is no %s for --start %r:\n%s" % (f, c["name"], text)
    return None


def judge(ctx, cases, results, kind):
    for c, b in zip(cases, results):
        ctx.traces += 1
        if b and b[0] not in {v["key"] for v in ctx.violations}:
            ctx.violation(b[0], b[1] + ("\nbefore: %s" % [e["p"] for e in c["first"]] if "first" in c else ""), {"kind": kind, "case": c})


def each(ctx, f, cases, tag):
    root = ctx.mkdir(tag)
    with open(os.path.join(DRV, "lab", "labm.mod.txt")) as m, open(os.path.join(root, "go.mod"), "w") as o:
        o.write(m.read().replace("STUBS", os.path.join(VERIF, "stubs")))
    ctx.baron()
    with ThreadPoolExecutor(NCPU) as ex:
        return root, list(ex.map(lambda i: f(ctx, os.path.join(root, "n%d" % i), cases[i]), range(len(cases))))


def build(ctx, root, cases, results):
    """The projects of names the go tool can live with compile."""
    dirs = {"n%d" % i: c for i, c in enumerate(cases) if c["go"] and results[i] is None}
    p = ctx.run(["go", "build", "-mod=mod"] + ["./%s/..." % d for d in dirs], cwd=root, ok=None, timeout=600)
    if p.returncode == 0:
        return
    err = p.stderr.decode(errors="replace")
    hit = [d for d in re.findall(r"(?:labm/|^)(n\d+)/", err, re.M) if d in dirs]
    if not hit:
        raise Exception("go build: " + err[-2000:])
    c = dirs[hit[0]]
    ctx.violation("compile", "the project of --start %r does not compile:\n%s" % (c["name"], "\n".join(l for l in err.splitlines() if hit[0] + "/" in l)[:1500]), {"kind": "name", "case": c})


def run(ctx):
    q = ctx.quick
    ctx.model_check("Start", "Start" if q else "StartDeep", timeout=900)
    for cfg, prop in (("StartTruncate", "Kept"), ("StartFollow", "Placed"), ("StartAnyName", "Usable")):
        ctx.refuted("Start", cfg, prop)
    cases = ctx.enumerate("StartNames", "StartNames" if q else "StartNamesDeep")
    ctx.samples = cases[:2]
    ctx.cov["names"], ctx.cov["names_refused"] = len(cases), sum(not c["ok"] for c in cases)
    root, res = each(ctx, named, cases, "names")
    judge(ctx, cases, res, "name")
    goable = [i for i, c in enumerate(cases) if c["go"]]
    random.Random(ctx.seed).shuffle(goable)
    few = set(goable[:60 if q else 600])
    build(ctx, root, [dict(c, go=i in few) for i, c in enumerate(cases)], res)
    hists = ctx.simulate("Start", "StartSim", 100 if q else 1500, 8, timeout=600)
    hists = ctx.enumerate("Start", "StartGen") + random.Random(ctx.seed).sample(hists, min(len(hists), 500 if q else 20000))
    ctx.cov["histories"] = len(hists)
    ctx.samples.append(hists[-1])
    judge(ctx, hists, each(ctx, history, hists, "hists")[1], "history")
    ctx.assumptions = ["a name the go tool reserves (main, _x, x_windows) is started but not compiled"]


def replay(ctx, r):
    f = named if r["kind"] == "name" else history
    root, res = each(ctx, f, [r["case"]], "replay")
    judge(ctx, [r["case"]], res, r["kind"])
    if r["kind"] == "name" and not ctx.violations and r["case"]["ok"]:
        build(ctx, root, [r["case"]], res)
    for v in ctx.violations:
        print(v["what"])
