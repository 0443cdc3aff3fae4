#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the tables in this directory: each entry gives the edit, the
demonstration test and the description. mk.py [-v] [id...]; -v validates in a scratch copy."""
import sys, os, json, subprocess, glob, shutil, tempfile
V = "/verif"
SEEDS = {}
def seed(id, prop, edits, pkg, demo, needs, breaks):
    """edits: list of (file, old, new)"""
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, edits=edits, pkg=pkg, demo=demo, needs=needs, breaks=breaks)
here = os.path.dirname(os.path.abspath(__file__))
for f in sorted(glob.glob(here + "/t_*.py")):
    exec(open(f).read())
DEMO = '''#!/bin/bash
# Exits 0 when the property holds. Run with the repository as working directory, after its build.
. /opt/vp/env.sh 2>/dev/null
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) && trap 'rm -rf "$t"' EXIT
printf 'go 1.22.2\\nuse (\\n%s\\n%s\\n)\\n' "$PWD" "$PWD/bencode" >"$t/go.work"
export GOWORK=$t/go.work
echo "{\\"Replace\\":{\\"$PWD/@PKG@/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" >"$t/o.json"
cd @PKG@ && go test -overlay "$t/o.json" -count=1 -timeout 120s -run '^TestDemo$' .
'''
def sh(cmd, cwd=None, t=280):
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"
args = [a for a in sys.argv[1:] if not a.startswith("-")]
validate = "-v" in sys.argv
ids = args or list(SEEDS)
base = set(json.load(open("/opt/vp/BASELINE.json")).get("passed") or []) if os.path.exists("/opt/vp/BASELINE.json") else set()
wt = tempfile.mkdtemp(prefix="seedwt")
sh(f"cp -a /repo {wt}/repo")
R = wt + "/repo"
bad = []
for id in ids:
    s = SEEDS[id]
    sh("git checkout -q -- . && git clean -fdq", R)
    for f, old, new in s["edits"]:
        t = open(f"{R}/{f}").read()
        if t.count(old) != 1:
            print(id, f, "old text occurs", t.count(old), "times"); bad.append(id); break
        open(f"{R}/{f}", "w").write(t.replace(old, new))
    else:
        rc, diff = sh("git diff", R)
        d = f"{V}/seeded/{id}"
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo_test.go", "w").write(s["demo"].lstrip())
        open(d + "/demo.sh", "w").write(DEMO.replace("@PKG@", s["pkg"]).replace("go test ", "go test -race " if s.get("race") else "go test "))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if validate:
            env = f". /opt/vp/env.sh; export GOWORK={wt}/go.work; "
            open(wt + "/go.work", "w").write(open("/opt/vp/work/go.work").read().replace("/repo", R))
            # original lines only
            orig = set()
            for f, _, _ in s["edits"]:
                rc, out = sh(f"git -C {R} blame -s HEAD -- {f}")
            rc, out = sh(f"git -C /repo diff 8b6aa20 HEAD", R)
            mine = set(l[1:] for l in out.splitlines() if l.startswith("+") and not l.startswith("+++"))
            rem = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
            o = [l for l in rem if l not in mine]
            if not o: print(id, "WARNING changes no line of the original repository")
            rc, out = sh(f"bash -c '{env} gofmt -l {' '.join(f for f,_,_ in s['edits'])}; cd {R} && go build ./... && (cd bencode && go build ./...)'", R)
            if rc: print(id, "BUILD", out[-500:]); bad.append(id); continue
            # the patched demo
            rc1, out1 = sh(f"{d}/demo.sh", R)
            # existing tests
            # GOWORK of env.sh names /repo: use a workspace of our own
            open(wt + "/go.work", "w").write(open("/opt/vp/work/go.work").read().replace("/repo", R))
            rct, outt = sh(f"bash -c '. /opt/vp/env.sh; export GOWORK={wt}/go.work; go test -count=1 ./... && (cd bencode && go test -count=1 ./...)'", R)
            rc0, out0 = 0, ""
            sh("git checkout -q -- .", R)
            rc0, out0 = sh(f"{d}/demo.sh", R)
            ok = rc1 != 0 and rc0 == 0 and rct == 0
            if not ok or "-o" in sys.argv: print(id, "demo patched", rc1, "clean", rc0, "tests", rct, "\n", out1[-600:] if rc1 == 0 or "-o" in sys.argv else "", out0[-600:] if rc0 else "", outt[-800:] if rct else "")
            if ok: print(id, "ok")
            else: bad.append(id)
shutil.rmtree(wt)
print("bad", bad)
