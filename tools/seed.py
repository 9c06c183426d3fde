#!/usr/bin/env python3
"""seed.py FILE...: makes /verif/seeded/<id>/ from descriptions of planted bugs.

Each FILE is Python: id, prop, needs, breaks, edits = [(file, old, new)], pkg, test.
The change is confirmed in a scratch copy: it builds, the existing tests pass,
the demonstration passes without it and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod -buildvcs=false")
DEMO = '''#!/bin/bash
# Runs the demonstration test in package %(pkg)s of the working directory's tree.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false"
ov=$(mktemp) || exit 3
trap 'rm -f "$ov"' EXIT
echo "{\\"Replace\\":{\\"$PWD/src/%(pkg)s/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$ov"
cd src && timeout 250 go test -vet=off -count=1 -timeout 4m -overlay "$ov" -run '^TestDemo$' ./%(pkg)s
'''
def run(cmd, cwd, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, env=ENV, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout
def one(path):
    d = {}
    exec(open(path).read(), d)
    w = tempfile.mkdtemp(prefix="seed.")
    repo = w + "/repo"
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", repo])
        out = "/verif/seeded/" + d["id"]
        tmp = w + "/out"
        os.mkdir(tmp)
        open(tmp + "/demo.sh", "w").write(DEMO % d)
        open(tmp + "/demo_test.go", "w").write(d["test"])
        json.dump({"property": d["prop"], "needs": d["needs"], "what_it_breaks": d["breaks"]}, open(tmp + "/meta.json", "w"), indent=1)
        rc, o = run(["bash", tmp + "/demo.sh"], repo)
        if rc != 0:
            print(d["id"], "DEMO FAILS ON CLEAN TREE\n", o[-1500:]); return False
        rc, base = run("go test -vet=off -count=1 ./... 2>&1", repo + "/src")
        fails0 = set(l for l in base.splitlines() if l.startswith(("--- FAIL", "    --- FAIL")))
        for f, old, new in d["edits"]:
            p = repo + "/src/" + f
            s = open(p).read()
            if s.count(old) != 1:
                print(d["id"], "EDIT MATCHES", s.count(old), "TIMES", f, repr(old)); return False
            open(p, "w").write(s.replace(old, new))
        subprocess.check_call("gofmt -l . | head; git diff > %s/patch.diff" % tmp, cwd=repo + "/src", shell=True)
        # which of the changed lines are the repository's own
        for f in set(e[0] for e in d["edits"]):
            blame = subprocess.check_output(["git", "blame", "-s", "-l", "HEAD", "--", "src/" + f], cwd=repo, text=True).splitlines()
            diff = subprocess.check_output(["git", "diff", "-U0", "--", "src/" + f], cwd=repo, text=True).splitlines()
            for l in diff:
                if l.startswith("@@"):
                    a = l.split()[1][1:].split(","); n = int(a[1]) if len(a) > 1 else 1
                    for i in range(int(a[0]), int(a[0]) + n):
                        if not blame[i-1].lstrip("^").startswith("a2f5c97"):
                            print(d["id"], "NOTE: changes a line of a fix:", blame[i-1][:120])
        rc, o = run("go build ./... && go vet ./... 2>&1 | head -5", repo + "/src")
        if rc != 0:
            print(d["id"], "DOES NOT BUILD\n", o); return False
        rc, o = run("go test -vet=off -count=1 ./... 2>&1", repo + "/src")
        fails1 = set(l for l in o.splitlines() if l.startswith(("--- FAIL", "    --- FAIL")))
        strip = lambda s: set(x.split("(")[0] for x in s)
        if strip(fails1) - strip(fails0) or "build failed" in o or ("panic:" in o and "panic:" not in base):
            print(d["id"], "EXISTING TESTS FAIL", strip(fails1) - strip(fails0), o[-800:]); return False
        rc, o = run(["bash", tmp + "/demo.sh"], repo)
        if rc == 0:
            print(d["id"], "DEMO PASSES WITH THE CHANGE"); return False
        print(d["id"], "ok:", [l for l in o.splitlines() if "demo_test" in l or "panic" in l or "FAIL" in l][:2])
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(tmp, out)
        return True
    finally:
        shutil.rmtree(w, ignore_errors=True)
ok = [one(p) for p in sys.argv[1:]]
sys.exit(0 if all(ok) else 1)
