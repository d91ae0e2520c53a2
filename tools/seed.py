#!/usr/bin/env python3
"""seed.py confirm ID...   confirm a planted bug in a scratch copy of /repo:
builds, passes the stable tests, demo ok without it and failing with it.
seed.py catch ID [PROP...]  run the quick check of its property against it."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    subprocess.run(["cp", "-a", os.environ.get("VERIF_REPO", "/repo") + "/.", d], check=True)
    return d

def env(d):
    e = dict(os.environ)
    e["VERIF_REPO"] = d
    return e

def confirm(i):
    """In a scratch copy, which the demonstration takes for /repo."""
    s = next(d for d in (os.path.join(V, k, i) for k in ("seeded", "planted")) if os.path.isdir(d))
    d = copy()
    sh = lambda c: subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=d, capture_output=True, timeout=400)
    demo = lambda: subprocess.run(["bash", s + "/demo.sh"], cwd=d, capture_output=True, timeout=300)
    try:
        r0 = demo()
        a = subprocess.run(["git", "-C", d, "apply", s + "/patch.diff"], capture_output=True)
        b = sh("go build ./... && go vet ./svcdef/... ./gengokit/... 2>/dev/null; go build ./...")
        lost = base_lost(d)
        r1 = demo()
        ok = r0.returncode == 0 and r1.returncode not in (0, 99) and not lost and a.returncode == b.returncode == 0
        print(i, "CONFIRMED" if ok else "NOT CONFIRMED", "clean %d, patched %d, lost %s" % (r0.returncode, r1.returncode, lost), (r1.stdout[-200:] if ok else r0.stdout[-600:] + r0.stderr[-600:] + a.stderr + b.stderr[-600:] + r1.stdout[-600:]).decode(errors="replace"))
    finally:
        shutil.rmtree(d)

def base_lost(d):
    """The stable tests that fail in d, with a GOPATH of its own."""
    g = tempfile.mkdtemp(prefix="seedgo-")
    try:
        os.makedirs(g + "/src/github.com/teamlint")
        os.symlink(d, g + "/src/github.com/teamlint/baron")
        o = g + "/overlay.json"  # as /opt/vp/test.sh: the test file that does not compile, left out
        json.dump({"Replace": {d + "/gengokit/httptransport/templates_test.go": ""}}, open(o, "w"))
        p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; export GOPATH=%s; go test -json -vet=off -count=1 -overlay=%s ./..." % (g, o)], cwd=d, capture_output=True)
        ok = set()
        for l in p.stdout.splitlines():
            try:
                e = json.loads(l)
            except ValueError:
                continue
            if e.get("Action") == "pass" and e.get("Test"):
                ok.add(e["Package"] + "/" + e["Test"])
        stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        return [t for t in stable if t not in ok]
    finally:
        shutil.rmtree(g)

def catch(i, props):
    s = next(d for d in (os.path.join(V, k, i) for k in ("seeded", "planted")) if os.path.isdir(d))
    props = props or [json.load(open(s + "/meta.json"))["property"]]
    d = copy()
    try:
        subprocess.run(["git", "-C", d, "apply", s + "/patch.diff"], check=True)
        for p in props:
            r = subprocess.run(["./check", p, "quick"], cwd=V, env=env(d), capture_output=True)
            print(i, p, "exit", r.returncode, "CAUGHT" if r.returncode == 1 else "missed", r.stdout.decode()[-500:], r.stderr.decode()[-600:] if r.returncode == 2 else "")
    finally:
        shutil.rmtree(d)

if sys.argv[1] == "confirm":
    for i in sys.argv[2:]:
        confirm(i)
else:
    catch(sys.argv[2], sys.argv[3:])
