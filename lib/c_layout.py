"""C22: baron run in projects, from directories and with output options taken
from Layout.tla; the whole tree is listed before and after every run."""
import json, os, random, re, shutil
from vlib import VERIF, DRV, REPO, NCPU
from concurrent.futures import ThreadPoolExecutor
import subprocess

MOD = "mod"


def path(root, p):
    return os.path.join(root, *[MOD if x == "@" else x for x in p])


def contents(root):
    res = {}
    for d, ds, fs in os.walk(root):
        for n in fs:
            p = os.path.join(d, n)
            if not os.path.islink(p) and n not in ("go.mod", "go.sum"):
                with open(p, "rb") as f:
                    res[os.path.relpath(p, root)] = f.read()
    return res


def proto(pr, svc, i, pkg):
    """The i'th of the files in alphabetical order; svc is the one with the service."""
    t = 'syntax = "proto3";\n\npackage %s;\n\n' % pkg
    if i == svc:
        t += 'import "google/api/annotations.proto";\n\nservice %s {\n  rpc Do(Q%d) returns (Q%d) {\n    option (google.api.http) = { get: "/do" };\n  }\n}\n\n' % (pr["svc"], i, i)
    return t + "message Q%d {\n  string a = 1;\n}\n" % i


def write_protos(pd, pr, r):
    names = sorted(r["files"])
    for i, f in enumerate(names):
        with open(os.path.join(pd, f + ".proto"), "w") as o:
            t = proto(pr, names.index(r["files"][r["at"] - 1]), i, "thepkg")
            o.write(t.replace("string a = 1", "strinq a = 1") if r["bad"] == "type" else t)


def setup(root, c):
    mod = path(root, c["proj"]["place"])
    os.makedirs(os.path.join(root, "src", "github.com", "teamlint"))
    os.symlink(REPO, os.path.join(root, "src", "github.com", "teamlint", "baron"))
    pd = os.path.join(mod, *c["proj"]["dir"])
    for d in [pd, os.path.join(mod, "api")] + [path(root, s["run"]["cwd"]) for s in c["log"]]:
        os.makedirs(d, exist_ok=True)
    with open(os.path.join(DRV, "lab", "labm.mod.txt")) as m, open(os.path.join(mod, "go.mod"), "w") as o:
        o.write(m.read().replace("STUBS", os.path.join(VERIF, "stubs")).replace("module labm", "module ex.com/" + MOD))
    for p in c["first"]:
        f = path(root, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as o:
            o.write("package %s\n" % ("main" if p[-1] == "main.go" else re.sub(r"\W", "", p[-2])))
    return pd


def args(r, root, pd, c):
    a, long = [], r["shape"] == "long"
    if r["o"]["s"] != "none":
        v = r["o"]["s"].replace("#", root).replace("!", path(root, c["proj"]["place"])).replace("@", MOD).replace("%", c["name"])
        a += ["--svcout=" + v] if long else ["-o", v]
    if r["c"]:
        a += ["--client" if long else "-c"]
    if r["t"] != "none":
        a += ["--transport=" + r["t"]] if long else ["-t", r["t"]]
    fs = [os.path.join(pd, f + ".proto") for f in r["files"]]
    if r["bad"] != "outside" and not long:
        fs = [os.path.relpath(f, path(root, r["cwd"])) for f in fs]
    if r["bad"] == "missing":
        fs[0] = os.path.join(os.path.dirname(fs[0]), "nothere.proto")
    if r["bad"] == "dirs":
        fs.append(os.path.join(path(root, c["proj"]["place"]), "elsewhere", "other.proto"))
    return a + ([r["x"]] if r["x"] else []) + fs


IMPORT = re.compile(r'^\s*(?:import\s+)?(?:[\w.]+\s+)?"([^"]+)"\s*$', re.M)


def project(ctx, root, c):
    # "go" in the home directory is what GOPATH is when it is not set
    home, root = root, os.path.join(root, "go")
    os.makedirs(root)
    pd = setup(root, c)
    n = c["proj"]["paths"]
    more = [os.path.join(home, "more", str(i), "src") for i in range(1, n)]
    for d in more:
        os.makedirs(d)
    env = dict(ctx.env, GOFLAGS="-mod=mod", GOPATH=":".join([root] + [os.path.dirname(d) for d in more]))
    if n == 0:
        del env["GOPATH"]
        cache = subprocess.run(["go", "env", "GOCACHE"], env=ctx.env, capture_output=True, text=True).stdout.strip()
        env.update(HOME=home, GOCACHE=cache)
    mod = path(root, c["proj"]["place"])
    for k, s in enumerate(c["log"]):
        r = s["run"]
        cwd = home if r["bad"] == "outside" else path(root, r["cwd"])
        write_protos(pd, c["proj"], r)
        if r["bad"] == "dirs":
            d = os.path.join(mod, "elsewhere")
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "other.proto"), "w") as o:
                o.write('syntax = "proto3";\npackage thepkg;\n')
        before = contents(root)
        av = args(r, root, pd, c)
        p = subprocess.run([ctx.baron()] + av, cwd=cwd, env=env, capture_output=True, timeout=120)
        what = "run %d: baron %s in %s\n" % (k + 1, " ".join(av), os.path.relpath(cwd, root))
        if (p.returncode == 0) == s["refused"]:
            return "verdict", what + "ends with status %d\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-700:])
        for d in more:
            if os.listdir(d):
                return "path", what + "makes %s below another directory of GOPATH" % os.listdir(d)
        after = contents(root)
        rel = lambda ps: {os.path.relpath(path(root, x), root) for x in ps}
        have = {f for f in after if not f.endswith(".proto")}
        want, makes = rel(s["tree"]), rel(s["makes"])
        if have != want:
            return ("missing" if want - have else "extra"), what + "missing %s\nbesides %s" % (sorted(want - have), sorted(have - want))
        for f in before:
            if f in after and f not in makes and before[f] != after[f]:
                return "changed", what + "changes %s" % f
        allowed = {"/".join(MOD if x == "@" else x for x in i) for i in s["imports"]}
        for f in makes if not s["refused"] else ():
            for i in IMPORT.findall(after[f].decode(errors="replace")):
                if (i.startswith("ex.com") or i.split("/")[-1] in ("server", "service") or not re.match(r"[a-z]", i)) and i not in allowed:
                    return "import", what + "%s imports %s" % (f, i)
    if c.get("build") and not c["log"][-1]["refused"]:
        # one invocation of the go tool per project is what takes the time
        d = os.path.relpath(path(root, c["log"][-1]["dir"]), mod)
        pk = ["./" + os.path.join(d, x) for x in ("cmd/" + c["name"], "server", "service")] + (["./" + os.path.join(d, "cmd/" + c["name"] + "-client")] if c["log"][-1]["run"]["c"] else [])
        p = subprocess.run(["go", "build", "-mod=mod"] + pk, cwd=mod, env=env, capture_output=True, timeout=300)
        if p.returncode != 0:
            return "compile", what + "does not compile:\n" + p.stderr.decode(errors="replace")[:1200]
    return None


def each(ctx, cases, tag):
    root = ctx.mkdir(tag)
    ctx.baron()

    def one(i):
        d = os.path.join(root, "p%d" % i)
        os.makedirs(d)
        try:
            return project(ctx, d, cases[i])
        finally:
            shutil.rmtree(d, ignore_errors=True)
    with ThreadPoolExecutor(NCPU) as ex:
        return list(ex.map(one, range(len(cases))))


def judge(ctx, cases, results):
    for c, b in zip(cases, results):
        ctx.traces += 1
        for s in c["log"]:
            k = "runs_refused" if s["refused"] else "runs_to_" + (s["run"]["o"]["k"] + ("_slash" if s["run"]["o"]["slash"] else ""))
            ctx.cov[k] = ctx.cov.get(k, 0) + 1
        if b and b[0] not in {v["key"] for v in ctx.violations}:
            ctx.violation(b[0], b[1] + "\nproject: %s" % c["proj"], {"case": c})


def run(ctx):
    q = ctx.quick
    ctx.model_check("Layout", "Layout", timeout=600)
    ctx.model_check("Layout", "LayoutMoves", timeout=600)
    for cfg, prop in (("LayoutAlways", "Implied"), ("LayoutBoth", "ClientOnDemand"), ("LayoutCwd", "Untouched"), ("LayoutWide", "Kept"), ("LayoutStale", "Current")):
        ctx.refuted("Layout", cfg, prop)
    rnd = random.Random(ctx.seed)
    cases = ctx.enumerate("Layout", "LayoutGen")
    if q:
        # every way to say where, from some of the directories
        rnd.shuffle(cases)
        seen = {}
        for c in cases:
            r = c["log"][0]["run"]
            seen.setdefault((r["o"]["s"], c["proj"]["place"][0], r["bad"] != "", r["c"]), c)
        cases = list(seen.values())
    good = [c for c in cases if not c["log"][0]["refused"]]
    for c in rnd.sample(good, min(24 if q else 300, len(good))):
        c["build"] = True
    for r in range(1 if q else 12):
        cases += ctx.simulate("Layout", "LayoutSim", 200 if q else 500, 6, seed=ctx.seed * 100 + r)
        ctx.samples = ctx.samples or [{"proj": c["proj"], "runs": [s["run"] for s in c["log"]]} for c in cases[-2:]]
        judge(ctx, cases, each(ctx, cases, "p%d" % r))
        if ctx.violations or ctx.left() < 600:
            break
        cases = []
    ctx.assumptions = ["the current directory is in the module, so that the import path of what is generated is known"]


def replay(ctx, r):
    judge(ctx, [r["case"]], each(ctx, [r["case"]], "replay"))
    for v in ctx.violations:
        print(v["what"])
