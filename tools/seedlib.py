"""Makes and validates planted bugs: seed(...) writes /verif/seeded/<id>, validate(id) confirms it in a scratch worktree."""
import json, os, subprocess, sys, shutil, tempfile

VERIF = "/verif"
REPO = "/repo"
ENV = dict(os.environ, HOME="/root", GOROOT="/opt/veriftools/go1.27.3", GOCACHE="/root/.cache/go-build",
           GOTOOLCHAIN="local", GOFLAGS="-mod=vendor", GOPROXY="off")
ENV["PATH"] = "/opt/veriftools/go1.27.3/bin:" + ENV["PATH"]

DEMO = """#!/bin/bash
# runs demo_test.go.txt as an in-package test of the repository in the current directory
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="$(pwd)"
export HOME=/root GOROOT=/opt/veriftools/go1.27.3 PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOCACHE=/root/.cache/go-build GOTOOLCHAIN=local GOFLAGS=-mod=vendor GOPROXY=off
W="$(mktemp -d /tmp/demo_XXXXXX)" || exit 3
trap 'rm -rf "$W"' EXIT
cp "$HERE/demo_test.go.txt" "$W/zz_demo_test.go"
echo "{\\"Replace\\": {\\"$REPO/%(pkg)s/zz_demo_test.go\\": \\"$W/zz_demo_test.go\\"}}" > "$W/overlay.json"
export TMPDIR="$W"
timeout 250 go test -overlay "$W/overlay.json" -vet=off -v -count=1 -timeout 200s -run 'TestZZDemo' "./%(pkg)s"
"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=kw.pop("env", ENV), **kw)


def worktree(name):
    d = tempfile.mkdtemp(prefix="seed_%s_" % name, dir="/tmp")
    os.rmdir(d)
    shutil.copytree(REPO, d, symlinks=True)
    return d


def seed(id, property, needs, breaks, edits, pkg, demo):
    d = "%s/seeded/%s" % (VERIF, id)
    os.makedirs(d, exist_ok=True)
    w = worktree(id)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(old) != 1:
                print("%s: %d matches of the text in %s:\n%s" % (id, s.count(old), f, old))
                return False
            open(p, "w").write(s.replace(old, new))
        r = run(["gofmt", "-l"] + [f for f, _, _ in edits], cwd=w)
        if r.stdout.strip():
            run(["gofmt", "-w"] + [f for f, _, _ in edits], cwd=w)
        patch = run(["git", "diff"], cwd=w).stdout
        open(d + "/patch.diff", "w").write(patch)
        open(d + "/demo_test.go.txt", "w").write(demo)
        open(d + "/demo.sh", "w").write(DEMO % {"pkg": pkg})
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    finally:
        shutil.rmtree(w)
    return validate(id)


def tests(w):
    out = run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "10m", "./..."], cwd=w).stdout
    ok = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in want if t not in ok]


def original_lines(id):
    """the patch must change lines of the original repository"""
    base = run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=REPO).stdout.split()[-1]
    files, cur, line, orig = {}, None, 0, 0
    for l in open("%s/seeded/%s/patch.diff" % (VERIF, id)):
        if l.startswith("--- a/"):
            cur = l[6:].strip()
        elif l.startswith("@@"):
            line = int(l.split()[1].split(",")[0][1:])
        elif l.startswith("-") and not l.startswith("---"):
            b = run(["git", "blame", "-s", "-L", "%d,%d" % (line, line), "HEAD", "--", cur], cwd=REPO).stdout
            if b.startswith("^"):
                orig += 1
            line += 1
        elif l.startswith(" "):
            line += 1
    return orig


def validate(id):
    d = "%s/seeded/%s" % (VERIF, id)
    w = worktree(id)
    try:
        s = tempfile.mkdtemp(prefix="seedfiles_", dir="/tmp")
        for f in os.listdir(d):
            if not f.endswith(".diff") and f != "meta.json":
                shutil.copy(os.path.join(d, f), s)
        r0 = run(["bash", s + "/demo.sh"], cwd=w)
        a = run(["git", "apply", d + "/patch.diff"], cwd=w)
        b = run(["go", "build", "./..."], cwd=w)
        missing = tests(w)
        r1 = run(["bash", s + "/demo.sh"], cwd=w)
        ok = r0.returncode == 0 and a.returncode == 0 and b.returncode == 0 and not missing and r1.returncode != 0
        print("%s: %s demo(clean)=%d apply=%d build=%d tests-missing=%d demo(bug)=%d original-lines=%d" % (
            id, "OK" if ok else "BAD", r0.returncode, a.returncode, b.returncode, len(missing), r1.returncode, original_lines(id)))
        if not ok:
            print(r0.stdout[-1500:] if r0.returncode else "", a.stdout, b.stdout[-2000:], missing, r1.stdout[-800:])
        shutil.rmtree(s)
        return ok
    finally:
        shutil.rmtree(w)


def check(id, checks=None, tier="quick"):
    d = "%s/seeded/%s" % (VERIF, id)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = worktree(id)
    try:
        a = run(["git", "apply", d + "/patch.diff"], cwd=w)
        if a.returncode:
            print(id, "does not apply", a.stdout)
            return
        for c in checks or [prop]:
            r = run(["bash", VERIF + "/check.sh", c], env=dict(ENV, VERIF_REPO=w, VERIF_TIER=tier))
            first = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            print("%s: check %s -> %d %s" % (id, c, r.returncode, "CAUGHT" if r.returncode == 1 and first else "missed"))
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
            sys.stdout.flush()
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    if not ids:
        ids = sorted(os.listdir(VERIF + "/seeded"))
    for i in ids:
        if cmd == "validate":
            validate(i)
        elif cmd == "check":
            check(i)
