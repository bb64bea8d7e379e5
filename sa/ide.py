"""Shared vocabulary for the IDE solver properties (P01, P02, P05, ...)."""
import re
from facts import CheckError, FL_INREPO, fn_exprs
from flow import t2s, last, short, Ev, subterms
from spec import *

SOLVER = "psr::IDESolver"
TU = "ide_solver.cpp"

# the interfaces the solver is written against stay opaque
IFACE = ("psr::ICFGBase::", "psr::CFGBase::", "psr::CallGraph",
         "psr::IDETabulationProblem::", "psr::FlowEdgeFunctionCache::",
         "psr::FlowFunction", "psr::JumpFunctions::",
         "psr::JoinLatticeTraits", "psr::IFDSIDESolverConfig::",
         "psr::EdgeFunction::", "psr::InitialSeeds::", "psr::ProblemBase")


def iface(d):
    return d.qn.startswith(IFACE)


def role(F, cls, name, calls=(), n=1):
    """the member functions `name`, or - should the name have changed - the
    one member that makes the characteristic calls"""
    c = F.find(cls + "::" + name, need=False)
    if c:
        return c
    out = []
    for f in F.all_fns():
        if f.decl.cls != cls:
            continue
        names = {last(e[2]) for e in fn_exprs(f) if e[0] == "call"}
        if calls and all(x in names for x in calls):
            out.append(f)
    if not out:
        raise CheckError("no member of %s plays the role of %s" % (cls, name))
    return out


O = Pat(r"(?:this(?:\.\w+)*)")          # some member of the solver
N, D1, D2 = "$0.Target", "$0.DSource", "$0.DTarget"
CF = Pat(r"(?:this\.\w+)")
ICF = Pat(r"(?:this\.\w+)")
FWD = pat("{O}.forwardLookup(%s, %s)" % (D1, N), O=O)
# the current jump function of the processed edge
JF = pat("findif({L}, ({E}.first == %s)).second" % D2,
         L=FWD, E=pat("elem({L})", L=FWD)) | \
    pat("elem({L}).second", L=FWD) | pat("{O}.AllTop", O=Pat("this")) | \
    pat("{O}.allTopFunction()", O=O)
RETS = pat("{I}.getReturnSitesOfCallAt(%s)" % N, I=ICF)
CALLEES = pat("{I}.getCalleesOfCallAt(%s)" % N, I=ICF)
ELEM = lambda c: pat("elem({C})", C=c)
CALLEE = ELEM(CALLEES)
RET = ELEM(RETS)


def edge(a, n, d):
    return pat("PathEdge{{a}, {n}, {d}}", a=a, n=n, d=d)


EDGE = Pat(r"PathEdge\{.*\}")


def enq(ev):
    """(path edge, flat composition) if the event schedules a path edge"""
    a = added(ev)
    if a is None or not a or a[0][0] != "ctor" or \
            not short_t(a[0][1]) == "PathEdge":
        return None
    if len(a) != 2:
        return (a[0], None)
    return (a[0], tuple(x for x in chain(a[1])
                        if t2s(x) not in ("EdgeIdentity{}",)))


def enq_is(it, e, ch):
    q = enq(it.ev)
    if q is None or not pat(e).ok(q[0]) or q[1] is None or \
            len(q[1]) != len(ch):
        return False
    return all(pat(c).ok(x) for c, x in zip(ch, q[1]))


def step_enq(e, ch, text):
    return ("ev", lambda it: enq_is(it, e, ch), text)


def step_add(p, text):
    p = pat(p)
    def f(it):
        return it.ev.kind == "call" and not it.ev.pure and p.ok(it.ev.term)
    return ("ev", f, text)
