"""usage: mkseed.py ID property file <<< JSON {"edits":[[file,old,new],..],"needs":..,"what":..}
writes seeded/ID/{patch.diff,meta.json,demo.sh}; demo.cpp is written by hand."""
import sys, json, os, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = json.load(sys.stdin) if len(sys.argv) < 3 else json.load(open(sys.argv[2]))
i = sys.argv[1]
o = os.path.join(V, "seeded", i)
os.makedirs(o, exist_ok=True)
t = tempfile.mkdtemp(prefix="/tmp/mkseed.")
out = ""
for f in sorted({e[0] for e in d["edits"]}):
    s = open("/repo/" + f).read()
    for g, a, b in d["edits"]:
        if g == f:
            assert s.count(a) == 1, (f, a, s.count(a))
            s = s.replace(a, b)
    os.makedirs(os.path.dirname(t + "/b/" + f), exist_ok=True)
    open(t + "/b/" + f, "w").write(s)
    r = subprocess.run(["git", "diff", "--no-index", "/repo/" + f, t + "/b/" + f], capture_output=True, text=True).stdout
    L = r.split("\n")
    k = next(n for n, l in enumerate(L) if l.startswith("--- "))
    out += "diff --git a/%s b/%s\n--- a/%s\n+++ b/%s\n" % (f, f, f, f) + "\n".join(L[k + 2:])
open(o + "/patch.diff", "w").write(out)
shutil.rmtree(t)
json.dump({"property": d["property"], "needs": d["needs"], "what_it_breaks": d["what"]}, open(o + "/meta.json", "w"), indent=1)
shutil.copy(V + "/tools/demo_template.sh", o + "/demo.sh")
print(o, subprocess.run(["git", "-C", "/repo", "apply", "--check", o + "/patch.diff"]).returncode)
