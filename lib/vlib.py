"""Shared machinery of the checks: scratch space, builds from /repo, TLC runs,
known findings, verdicts and evidence."""
import atexit, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
NCPU = min(8, os.cpu_count() or 1)


class CheckError(Exception):
    """The check could not give an answer."""


def sh_env(gopath):
    out = subprocess.run(["bash", "-c", "mkdir() { :; }; ln() { :; }; . /opt/vp/env.sh >/dev/null 2>&1; unset -f mkdir ln; env -0"],
                         capture_output=True, check=True).stdout
    env = dict(kv.split("=", 1) for kv in out.decode(errors="replace").split("\0") if "=" in kv)
    env["GOPATH"] = gopath
    env.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    env.setdefault("GOCACHE", "/root/.cache/go-build")
    env["GOWORK"] = "off"
    env["GOSUMDB"] = "off"
    env["GONOSUMDB"] = "*"
    for k in ("TRACE", "PROP"):
        env.pop(k, None)
    return env


class Ctx:
    def __init__(self, pid, tier=None):
        self.pid = pid
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="baronv-%s-" % pid)
        atexit.register(self.cleanup)
        for s in (signal.SIGTERM, signal.SIGHUP, signal.SIGINT):
            signal.signal(s, lambda *_: sys.exit(2))
        gp = self.path("gopath")
        os.makedirs(gp + "/src/github.com/teamlint")
        os.symlink(REPO, gp + "/src/github.com/teamlint/baron")
        self.env = sh_env(gp)
        self.env["TMPDIR"] = self.mkdir("tmp")
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.cov = {}
        self.models = []
        self.violations = []
        self.cut = 0    # steps left out because of violations before them
        self.findings = []
        self.assumptions = []

    # -- scratch
    def path(self, *a):
        return os.path.join(self.tmp, *a)

    def mkdir(self, *a):
        p = self.path(*a)
        os.makedirs(p, exist_ok=True)
        return p

    def cleanup(self):
        if self.tmp and os.path.isdir(self.tmp) and not os.environ.get("VERIF_KEEP"):
            subprocess.run(["chmod", "-R", "u+w", self.tmp], capture_output=True)
            shutil.rmtree(self.tmp, ignore_errors=True)

    def left(self):
        return (870 if self.quick else 5400) - (time.time() - self.t0)

    def log(self, *a):
        print("[%s %5.1fs]" % (self.pid, time.time() - self.t0), *a, flush=True)

    # -- running things
    def run(self, cmd, cwd=None, env=None, timeout=600, ok=(0,), what=None, input=None):
        e = dict(self.env)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, timeout=timeout, input=input)
        except subprocess.TimeoutExpired:
            raise CheckError("%s: timed out after %ss" % (what or cmd[0], timeout))
        if ok is not None and p.returncode not in ok:
            raise CheckError("%s failed (%d):\n%s\n%s" % (what or " ".join(cmd[:4]), p.returncode,
                             p.stdout.decode(errors="replace")[-3000:], p.stderr.decode(errors="replace")[-3000:]))
        return p

    # -- builds
    def baron(self):
        out = self.path("baron")
        if not os.path.exists(out):
            self.run(["go", "build", "-ldflags", "-X main.version=v0 -X main.date=d", "-o", out, "./cmd/baron"],
                     cwd=REPO, what="building baron")
        return out

    def driver(self, name):
        """Builds a driver that is its own module."""
        out = self.path("drv-" + name)
        if not os.path.exists(out):
            self.run(["go", "build", "-o", out, "."], cwd=os.path.join(DRV, name), what="building driver " + name)
        return out

    def overlay_driver(self, name):
        """Builds a driver whose sources are overlaid as a package of the repository."""
        out = self.path("drv-" + name)
        if os.path.exists(out):
            return out
        src = os.path.join(DRV, name)
        pkg = os.path.join(REPO, "cmd", "verif_" + name)
        rep = {os.path.join(pkg, f[:-3] if f.endswith(".go_") else f): os.path.join(src, f)
               for f in os.listdir(src) if f.endswith(".go")}
        ov = self.path("overlay-%s.json" % name)
        with open(ov, "w") as f:
            json.dump({"Replace": rep}, f)
        self.run(["go", "build", "-overlay", ov, "-o", out, "./cmd/verif_" + name], cwd=REPO,
                 what="building driver " + name)
        return out

    # -- TLC
    def _tlc(self, args, env=None, timeout=300, heap="4g"):
        md = tempfile.mkdtemp(prefix="tlc-", dir=self.tmp)
        e = {"JAVA_TOOL_OPTIONS": "-Xss64m -Xmx%s -Djava.io.tmpdir=%s" % (heap, md), "TMPDIR": md}
        e.update(env or {})
        p = self.run(["tlc", "-noGenerateSpecTE"] + args + ["-metadir", md], cwd=SPEC, env=e, timeout=timeout, ok=None, what="tlc")
        out = p.stdout.decode(errors="replace")
        shutil.rmtree(md, ignore_errors=True)
        return p.returncode, out

    @staticmethod
    def tlc_counts(out):
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found, ([\d,]+) states left", out)
        if not m:
            return None
        g, d, l = [int(x.replace(",", "")) for x in m[-1]]
        return g, d, l

    def model_check(self, module, cfg, timeout=300, workers=NCPU, heap="6g", extra=()):
        """Exhaustive run; anything but a clean finish is an error of the check
        (the specification itself does not depend on the code)."""
        t = time.time()
        rc, out = self._tlc(["-workers", str(workers), "-config", cfg + ".cfg", module + ".tla"] + list(extra),
                            timeout=timeout, heap=heap)
        c = self.tlc_counts(out)
        if rc != 0 or "No error has been found" not in out or not c or c[2] != 0:
            raise CheckError("model checking %s/%s failed:\n%s" % (module, cfg, filt(out)[-3000:]))
        self.states += c[1]
        self.transitions += c[0]
        self.models.append({"module": module, "config": cfg, "distinct_states": c[1], "states_generated": c[0],
                            "wall_s": round(time.time() - t, 1)})
        self.log("model %s/%s: %d states, %d transitions" % (module, cfg, c[1], c[0]))
        return c

    def refuted(self, module, cfg, invariant, timeout=120):
        """A configuration describing a faulty design must be refuted: shows
        that the invariant is not vacuous."""
        rc, out = self._tlc(["-workers", "1", "-config", cfg + ".cfg", module + ".tla"], timeout=timeout)
        if "Invariant %s is violated" % invariant not in out and "property %s is violated" % invariant not in out \
           and "Temporal property %s was violated" % invariant not in out \
           and "Action property %s is violated" % invariant not in out:
            raise CheckError("%s/%s was not refuted:\n%s" % (module, cfg, filt(out)[-2000:]))
        self.models.append({"module": module, "config": cfg, "refutes": invariant})

    def c_tool(self, name):
        out = self.path("tool-" + name)
        if not os.path.exists(out):
            self.run(["gcc", "-O1", "-o", out, os.path.join(DRV, name, name + ".c")], what="building " + name)
        return out

    def simulate(self, module, cfg, num, depth, seed=None, timeout=200, env=None):
        """Behaviours of a generator specification, printed as @@ lines."""
        rc, out = self._tlc(["-workers", "1", "-simulate", "num=%d" % num, "-depth", str(depth), "-seed",
                             str(self.seed if seed is None else seed), "-config", cfg + ".cfg", module + ".tla"],
                            timeout=timeout, env=env)
        res = list(at_lines(out))
        if rc != 0 or not res:
            raise CheckError("simulation %s/%s failed:\n%s" % (module, cfg, filt(out)[-3000:]))
        m = re.search(r"number of states generated: ([\d,]+)", out)
        if m:
            n = int(m.group(1).replace(",", ""))
            self.cov["simulated_states"] = self.cov.get("simulated_states", 0) + n
        return res

    def enumerate(self, module, cfg, timeout=300, workers=1, env=None, heap="4g"):
        """Exhaustive run of a generator specification: its @@ lines."""
        t = time.time()
        rc, out = self._tlc(["-workers", str(workers), "-config", cfg + ".cfg", module + ".tla"],
                            timeout=timeout, env=env, heap=heap)
        c = self.tlc_counts(out)
        res = list(at_lines(out))
        if rc != 0 or "No error has been found" not in out or not c:
            raise CheckError("enumeration %s/%s failed:\n%s" % (module, cfg, filt(out)[-3000:]))
        self.states += c[1]
        self.transitions += c[0]
        self.models.append({"module": module, "config": cfg, "distinct_states": c[1], "states_generated": c[0],
                            "wall_s": round(time.time() - t, 1)})
        return res

    def validate(self, module, cfg, trace, prop="ALL", timeout=300, heap="4g", lens=None, progress=None):
        """Trace validation: returns the rejections [{tid, l, bad}].  lens are
        the numbers of steps per trace; a trace that stops without a recorded
        reason is an error of the check."""
        rc, out = self._tlc(["-workers", "1", "-config", cfg + ".cfg", module + ".tla"],
                            env={"TRACE": trace, "PROP": prop}, timeout=timeout, heap=heap)
        c = self.tlc_counts(out)
        if rc != 0 or "No error has been found" not in out or not c:
            raise CheckError("trace validation %s failed:\n%s" % (module, filt(out)[-3000:]))
        self.transitions += c[0]
        self.states += c[1]
        bad, prog = [], {}
        for line in out.splitlines():
            if line.startswith('"@BAD '):
                bad.append(json.loads(json.loads(line)[5:]))
            elif line.startswith('"@P '):
                _, t, l = json.loads(line).split()
                prog[int(t)] = max(prog.get(int(t), 1), int(l))
        badt = {b["tid"] for b in bad}
        if progress is not None:
            progress.update(prog)
        if lens is not None:
            for i, n in enumerate(lens, 1):
                if i not in badt and prog.get(i, 1) != n + 1:
                    raise CheckError("trace %d of %s stops at step %d of %d without a recorded reason"
                                     % (i, trace, prog.get(i, 1), n))
            self.traces += len(lens)
        return bad

    # -- verdicts
    def known(self):
        res = []
        try:
            with open(os.path.join(VERIF, "known-findings.txt")) as f:
                for line in f:
                    m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
                    if m and m.group(1) == self.pid:
                        res.append((m.group(2), m.group(3).strip()))
        except FileNotFoundError:
            pass
        return res

    def violation(self, key, what, replay):
        """key identifies the failing input; replay is a JSON value to rerun it."""
        for k, text in self.known():
            if k == key:
                if (k, text) not in self.findings:
                    self.findings.append((k, text))
                return False
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        body = {"property": self.pid, "seed": self.seed, "tier": self.tier, "key": key, "what": what, "replay": replay}
        h = hashlib.sha256(json.dumps(body, sort_keys=True).encode()).hexdigest()[:10]
        p = os.path.join(d, "%s-%s.json" % (self.pid, h))
        with open(p, "w") as f:
            json.dump(body, f, indent=1)
        self.violations.append({"key": key, "what": what, "replay": p})
        return True

    def finish(self, level="model_checking"):
        for k, text in self.findings:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:8],
               "models": self.models}
        cov.update(self.cov)
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for v in self.violations[:20]:
            self.log("violated:", v["key"], "-", str(v["what"])[:600])
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.pid, self.violations[0]["replay"]), flush=True)
            return 1
        if self.cut:
            print("ERROR: %d steps were left out" % self.cut, file=sys.stderr)
            return 2
        self.log("held; %d states, %d transitions, %d traces" % (self.states, self.transitions, self.traces))
        return 0


def at_lines(out):
    for line in out.splitlines():
        if line.startswith('"@@'):
            yield json.loads(json.loads(line)[2:])


def filt(out):
    return "\n".join(l for l in out.splitlines()
                     if not re.match(r'^("@|Parsing|Semantic|Linting|\(Linting)', l))


def write_ndjson(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x) + "\n")


def read_ndjson(path):
    with open(path) as f:
        return [json.loads(l) for l in f if l.strip()]
