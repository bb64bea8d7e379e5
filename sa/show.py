"""Developer aid: python3 sa/show.py TU QN[,QN...] [-s stop,list] [-n N] [-o]
prints the dataflow summary of functions."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from facts import *
from flow import *
from ide import iface
import argparse, signal
signal.signal(signal.SIGPIPE, signal.SIG_DFL)
a = argparse.ArgumentParser()
a.add_argument("tu"); a.add_argument("qn"); a.add_argument("-s", default="")
a.add_argument("-n", type=int, default=9); a.add_argument("-o", action="store_true")
a.add_argument("-w", type=int, default=260)
a = a.parse_args()
tus = []
for t in a.tu.split(","):
    p = os.path.join(VERIF, "tus", t)
    tus.append(p if os.path.exists(p) else os.path.join(REPO, t))
try:
    F = Facts(tus)
except CheckError as e:
    print(str(e)[:3000]); sys.exit(2)
for qn in a.qn.split(","):
    c = F.find(qn, need=False)
    if not c:
        c = [f for f in F.all_fns() if f.qn.endswith(qn)]
    if not c:
        print("NO", qn)
    for f in c[:a.n]:
        E = Engine(F, stop=[x for x in a.s.split(",") if x], opaque=iface if a.o else None)
        try:
            ps = E.run(f)
        except CheckError as e:
            print(f, "ERR", e); continue
        print("==", f, f.decl.clsT[:60], len(ps), "inlined", sorted(last(x) for x in E.inlined))
        for l in dump(ps):
            print(l[:a.w])
