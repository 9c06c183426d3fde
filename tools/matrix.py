#!/usr/bin/env python3
"""matrix.py [ID...]: run every check on every planted bug (scratch copies of /repo) and rewrite the table at the end of DESIGN.md.
Results are kept in tools/matrix.json, so that only new bugs need to run (give ids to rerun)."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off")
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
store = V + "/tools/matrix.json"
known = json.load(open(store)) if os.path.exists(store) else {}
ids = sorted(os.listdir(V + "/seeded"))
run = sys.argv[1:] or [i for i in ids if i not in known]
tmp = tempfile.mkdtemp(prefix="mx.")
subprocess.run(["go", "build", "-mod=vendor", "-o", tmp + "/a", "."], cwd=V + "/analyzer", env=ENV, check=True)
def check(i, p):
    ev = "%s/%s.%s" % (tmp, i, p); os.makedirs(ev)
    shutil.copy(V + "/known_findings.txt", ev)
    try: rc = subprocess.run([tmp + "/a", "-prop", p, "-repo", tmp + "/" + i, "-verif", ev], cwd=ev, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900).returncode
    except subprocess.TimeoutExpired: rc = 124
    return rc
ex = ThreadPoolExecutor(int(os.environ.get("J", "6"))); fs = []
for i in run:
    shutil.copytree("/repo", tmp + "/" + i)
    subprocess.run(["git", "apply", V + "/seeded/" + i + "/patch.diff"], cwd=tmp + "/" + i, check=True)
    fs.append((i, [(p, ex.submit(check, i, p)) for p in props]))
for i, l in fs:
    known[i] = [p for p, f in l if f.result() == 1]
    odd = [p for p, f in l if f.result() not in (0, 1)]
    print(i, known[i], "ODD %s" % odd if odd else "", flush=True)
    shutil.rmtree(tmp + "/" + i)
shutil.rmtree(tmp)
known = {i: known[i] for i in ids if i in known}
json.dump(known, open(store, "w"), indent=1, sort_keys=True); open(store, "a").write("\n")
d = open(V + "/DESIGN.md").read()
head = d[:d.index("| planted bug |")]
rows = ["| planted bug | breaks | caught by | needs |", "|---|---|---|---|"]
for i in ids:
    m = json.load(open(V + "/seeded/" + i + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], ", ".join(known.get(i, [])) or "none", " ".join(m["needs"].split()).replace("|", "/")))
open(V + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
