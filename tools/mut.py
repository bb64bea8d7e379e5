import sys, os, subprocess
M = "/tmp/mutrepo"
pids = sys.argv[1].split(",")
for ln in sys.stdin.read().split("\n"):
    if not ln.strip():
        continue
    f, a, b = ln.split("\t")[:3]
    a = a.encode().decode("unicode_escape"); b = b.encode().decode("unicode_escape")
    p = os.path.join(M, f)
    s = open(p).read()
    if s.count(a) < 1:
        print("NOTFOUND", ln[:100]); continue
    open(p, "w").write(s.replace(a, b, 1))
    try:
        for pid in pids:
            r = subprocess.run([sys.executable, "sa/harness.py", pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            l = r.stdout.strip().split("\n")
            print("%s rc=%d %s => %s\n      %s" % (pid, r.returncode, a[:50].replace("\n", " "), b[:50].replace("\n", " "), l[0][:230] if r.returncode else "MISSED"))
    finally:
        open(p, "w").write(s)
