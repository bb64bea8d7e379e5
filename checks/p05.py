"""P05: recorded edges and the exploded super graph mirror the tabulation."""
from ide import *

EXPLAIN = ("Every flow-function application of the solver steps hands its "
           "complete result, with its own source, target and kind, to "
           "saveEdges; the graph construction is checked path by path against "
           "the transition rules of node creation, identity compression and "
           "predecessor/neighbour linking.")
ESG = "psr::ExplodedSuperGraph"
KIND = "ESGEdgeKind::"


def rec(a, b, c, t, k):
    return lambda it: it.ev.kind == "call" and \
        last(it.ev.name) == "saveEdges" and len(it.ev.args) == 5 and \
        all(pat(p).ok(x) for p, x in zip((a, b, c, t), it.ev.args)) and \
        (pat(k).ok(it.ev.args[4]))


def K(n):
    return Pat(r"(?:psr::)?(?:\w+::)?ESGEdgeKind::%s" % n)


def app(flow, arg, *args, **kw):
    return pat("{C}.%s(%s).computeTargets({zz})" % (flow, ", ".join(args)),
               C=CF, zz=pat(arg, **kw), **kw)


def steps(ctx, F):
    # normal
    SUCC = pat("{I}.getSuccsOf(%s)" % N, I=ICF)
    NTG = app("getNormalFlowFunction", D2, N, "{S}", S=ELEM(SUCC))
    # call
    SPS = pat("{I}.getStartPointsOf({E})", I=ICF, E=CALLEE)
    SFF = pat("{C}.getSummaryFlowFunction(%s, {E})" % N, C=CF, E=CALLEE)
    STG = pat("{S}.computeTargets(%s)" % D2, S=SFF)
    CTG = app("getCallFlowFunction", D2, N, "{E}", E=CALLEE)
    CELLS = pat("{O}[{S}][{D}].cellSet()", O=O, S=ELEM(SPS), D=ELEM(CTG))
    CELL = ELEM(CELLS)
    RTG = app("getRetFlowFunction", "{K}.Column", N, "{E}", "{K}.Row", "{R}",
              E=CALLEE, K=CELL, R=RET)
    CRTG = app("getCallToRetFlowFunction", D2, N, "{R}", "{E}", R=RET,
               E=CALLEES)
    # exit
    FUN = pat("{I}.getFunctionOf(%s)" % N, I=ICF)
    INC = Pat(r"~\w+")
    INCE = ELEM(INC)
    CR = pat("{I}.getReturnSitesOfCallAt({K}.first)", I=ICF, K=INCE)
    D4S = pat("{K}.second", K=INCE)
    XTG = app("getRetFlowFunction", D2, "{K}.first", "{F}", N, "{R}", K=INCE,
              F=FUN, R=ELEM(CR))
    CALLERS = pat("{I}.getCallersOf({F})", I=ICF, F=FUN)
    UR = pat("{I}.getReturnSitesOfCallAt({C})", I=ICF, C=ELEM(CALLERS))
    UTG = app("getRetFlowFunction", D2, "{K}", "{F}", N, "{R}",
              K=ELEM(CALLERS), F=FUN, R=ELEM(UR))
    sump = pat("truthy({S})", S=SFF)

    def has_summary(L):
        return any(sump.ok(x) for x in L)

    def no_summary(L):
        return any(x.startswith("!") and sump.ok(x[1:]) for x in L)

    def bal(L):
        return any(re.fullmatch(r"!empty\(~\w+\)", x) or re.fullmatch(
            r"!this(\.\w+)*\.followReturnsPastSeeds\(\)", x) or re.fullmatch(
            r"!.*isZeroValue\(\$0\.DSource\)", x) for x in L)
    table = {
        "processNormalFlow": (["getNormalFlowFunction"], [
            ("normal", [("loop", SUCC)], rec(N, ELEM(SUCC), D2, NTG,
                                             K("Normal")), None)]),
        "processCall": (["getCallFlowFunction", "getCallToRetFlowFunction"], [
            ("summary", [("loop", CALLEES), ("loop", RETS)],
             rec(N, RET, D2, STG, K("Summary")), no_summary),
            ("call", [("loop", CALLEES), ("loop", SPS)],
             rec(N, ELEM(SPS), D2, CTG, K("Call")), has_summary),
            ("known-summary-return",
             [("loop", CALLEES), ("loop", SPS), ("loop", CTG),
              ("loop", CELLS), ("loop", RETS)],
             rec(pat("{K}.Row", K=CELL), RET, pat("{K}.Column", K=CELL), RTG,
                 K("Ret")), has_summary),
            ("call-to-return", [("loop", RETS)],
             rec(N, RET, D2, CRTG, ANY), None)]),
        "processExit": (["getRetFlowFunction", "getCallersOf"], [
            ("return", [("loop", INC), ("loop", CR), ("loop", D4S)],
             rec(N, ELEM(CR), D2, XTG, K("Ret")), None),
            ("unbalanced-return", [("loop", CALLERS), ("loop", UR)],
             rec(N, ELEM(UR), D2, UTG, K("Ret")), bal)]),
    }
    for nm, (calls, rules) in table.items():
        for fn in role(F, SOLVER, nm, calls):
            ps = ctx.summary(F, fn, opaque=iface, stop=["saveEdges"])
            for rn, loops, pr, ex in rules:
                alt = require(ps, loops + [
                    ("ev", pr, "the application of the flow function is not "
                     "recorded")], exempt=ex)
                if alt and rn == "return":
                    # recorded once per call site is as good
                    a2 = require(ps, loops[:-1] + [
                        ("ev", pr, "")], exempt=ex)
                    alt = a2 and alt
                ctx.none("record-" + rn, alt, where(fn), rn +
                         " edges are recorded", fn.qn)
            kinds = []
            for it in items(ps):
                e = it.ev
                if e.kind == "call" and last(e.name) == "saveEdges":
                    ok = any(pr(it) for _, _, pr, _ in rules)
                    ctx.ob("record-nothing-else", ok, e.where(), "records %s"
                           % t2s(e.term)[:300], fn.qn)
                    # the kind of a call-to-return edge
                    k = t2s(e.args[4])
                    if pat(CRTG).ok(e.args[3]):
                        kinds.append((it, k))
                    if ok and nm == "processCall" and pat(CRTG).ok(e.args[3]):
                        ctx.ob("record-kind", K("CallToRet").ok(k) or
                               K("SkipUnknownFn").ok(k) or
                               re.fullmatch(r"\(.* \? .*SkipUnknownFn : "
                                            r".*CallToRet\)|~?\w+", k)
                               is not None, e.where(),
                               "call-to-return edge has kind %s" % k, fn.qn)
                if e.kind == "call" and e.obj is not None and \
                        last(e.name) in ("push_back", "emplace_back") and \
                        e.obj[0] == "idx" and len(e.args) == 1 and \
                        t2s(e.obj[2]).startswith("tuple{") and \
                        "EdgeFunction(" in t2s(e.args[0]):
                    intermediate(ctx, F, it, fn)
            if nm == "processCall":
                ctr_kind(ctx, fn, ps, kinds, has_summary)


def local(p, name, default):
    """final value of a local variable on a path"""
    for key, t in p.env.items():
        if str(key) == name or "v%s" % (key,) == name:
            return t
    return default


def ctr_kind(ctx, fn, ps, kinds, has_summary):
    """CallToRet iff some callee has a summary or a start point"""
    ctx.ob("record-kind", len({k for _, k in kinds}) != 1 or
           any("?" in k for _, k in kinds), where(fn),
           "the kind of a call-to-return edge is always %s" %
           sorted({k for _, k in kinds}), fn.qn + "/both")
    loops = {}
    for it in items(ps):
        if it.ev.kind == "loop":
            for h, v in it.ev.loop.entry.items():
                loops.setdefault(h, (it.ev.loop, v))
    done = set()
    for it, k in kinds:
        hs = [(h, v) for h, v in it.pc.items() if h[0] == "hav" and
              h in loops]
        if len(hs) != 1:
            continue
        h, v = hs[0]
        loop, e0 = loops[h]
        if e0 not in (TRUE, FALSE):
            continue
        same_ = v == (e0 == TRUE)
        ctx.ob("record-kind", K("SkipUnknownFn" if same_ else "CallToRet")
               .ok(k), it.ev.where(), "the edge has kind %s when %s a callee "
               "was entered" % (k, "never" if same_ else "once"),
               fn.qn + "/which")
        if (loop.id, h) in done:
            continue
        done.add((loop.id, h))
        name = h[1]
        flip = FALSE if e0 == TRUE else TRUE

        def after(p):
            return local(p, name, h)
        for p in loop.paths:
            if p.exit in ("noreturn", "throw"):
                continue
            L = lits({**p.pc})
            a = after(p)
            if has_summary(L):
                ctx.ob("record-kind", a == flip, where(fn), "a summarised "
                       "callee leaves the kind undecided", fn.qn + "/sum")
                continue
            ok = a == h or a == flip or (a[0] == "hav" and a[1] == name)
            inner = [e.loop for e in p.ev if e.kind == "loop" and
                     covers(e.loop, pat("{I}.getStartPointsOf({E})", I=ICF,
                                        E=CALLEE))]
            for l in inner:
                for q in l.paths:
                    if q.exit in ("noreturn", "throw"):
                        continue
                    qa = local(q, name, None)
                    ctx.ob("record-kind", qa == flip or a == flip, where(fn),
                           "an entered callee leaves the kind undecided",
                           fn.qn + "/entered")
            ctx.ob("record-kind", ok and not (not inner and a == flip),
                   where(fn), "a callee that is not entered "
                   "decides the kind", fn.qn + "/unentered")


def intermediate(ctx, F, it, fn):
    e = it.ev
    v = e.args[0]
    if v[0] != "call":
        return
    a = [t2s(x) for x in v[3]]
    key = [t2s(x) for x in e.obj[2][2]]
    g = last(v[1])
    L = lits(it.pc)
    ctx.ob("emit-guard", any(re.fullmatch(r"this(\.\w+)*\.emitESG\(\)", x)
                             for x in L), e.where(),
           "edge functions are collected without emitESG", fn.qn)
    if g in ("getNormalEdgeFunction", "getCallToRetEdgeFunction",
             "getSummaryEdgeFunction"):
        want = [a[0], a[1], a[2], a[3]]
    elif g == "getReturnEdgeFunction":
        want = [a[2], a[3], a[4], a[5]]
    elif g == "getCallEdgeFunction":
        ok = len(key) == 4 and [key[0], key[1], key[3]] == [a[0], a[1], a[3]] \
            and re.fullmatch(r"elem\(this\.\w+\.getStartPointsOf\(%s\)\)" %
                             re.escape(a[2]), key[2])
        ctx.ob("emit-key", bool(ok), e.where(), "the edge function %s is "
               "stored for %s" % (t2s(v)[:200], key), fn.qn + "/" + g)
        return
    else:
        return
    ctx.ob("emit-key", key == want, e.where(), "the edge function %s is "
           "stored for %s" % (t2s(v)[:200], key), fn.qn + "/" + g)


def recorder(ctx, F):
    for fn in F.find(SOLVER + "::saveEdges"):
        ps = ctx.summary(F, fn, opaque=lambda d: d.qn.startswith(
            "psr::IFDSIDESolverConfig::"))
        tabs = {}
        for p in ps:
            if p.exit in ("noreturn", "throw"):
                continue
            L = lits(p.pc)
            rec_ = [v for k, v in p.pc.items() if "recordEdges" in t2s(k)]
            on = bool(rec_) and rec_[-1]
            ef = [it.ev for it in effects(p)]
            ctx.ob("record-flag", bool(rec_), where(fn), "recording does not "
                   "depend on recordEdges()", fn.qn)
            if not on:
                ctx.ob("record-flag", not ef, where(fn), "records although "
                       "recordEdges() is off", fn.qn)
                continue
            kinds = {}
            for k, v in p.pc.items():
                m = re.search(r"ESGEdgeKind::(\w+)", t2s(k))
                if m and "$4" in t2s(k):
                    kinds[m.group(1)] = v
            inter = kinds.get("Call") or kinds.get("Ret")
            intra = kinds.get("Call") is False and kinds.get("Ret") is False
            ins = [e for e in ef if e.kind == "call" and
                   last(e.name) in ("insert", "emplace", "merge")]
            ok = len(ins) == 1 and len(ef) == 1
            m = ok and re.fullmatch(r"(this\.\w+)(?:\.\w+)?\[\$0\]\[\$1\]"
                                    r"\[\$2\]", t2s(ins[0].obj))
            a = ins and [t2s(x) for x in ins[0].args]
            ok = ok and m and a in (["begin($3)", "end($3)"], ["$3"],
                                    ["elem($3)"])
            ctx.ob("record-insert", bool(ok), where(fn),
                   "on the path %s the recorded edges are not extended by "
                   "every target fact: %s" % (sorted(L), [x.s()[:160]
                                                          for x in ef]),
                   fn.qn)
            ctx.ob("record-table", inter or intra, where(fn), "the table does "
                   "not depend on the kind: %s" % kinds, fn.qn)
            if m:
                tabs.setdefault(m.group(1), set()).add(
                    "inter" if inter else "intra")
        for t, s in tabs.items():
            ctx.ob("record-table", len(s) == 1, where(fn), "%s holds intra- "
                   "and inter-procedural edges" % t, fn.qn)
            ctx.ob("record-table", list(s)[0].lower() in t.lower(), where(fn),
                   "%s holds %s-procedural edges" % (t, list(s)), fn.qn)
    for fn in F.find("psr::PathAwareIDESolver::saveEdges"):
        ps = ctx.summary(F, fn, stop=["saveEdges"])
        for p in ps:
            ef = [it.ev for it in effects(p)]
            ctx.ob("esg-forward", len(ef) == 1 and re.fullmatch(
                r"this\.\w+\.saveEdges\(\$0, \$2, \$1, \$3, \$4\)",
                t2s(ef[0].term)) is not None, where(fn),
                "edges reach the graph as %s" % [x.s() for x in ef], fn.qn)


MAP = r"this\.\w+"
SUCCK = re.compile(MAP + r"\[pair\{\$3, \$4\}\]|" + MAP +
                   r"\.try_emplace\(pair\{\$3, \$4\}, .*?\)\.first\.second")


def graph(ctx, F):
    for fn in F.find(ESG + "::saveEdges"):
        ps = ctx.summary(F, fn, stop=["saveEdge"])
        ctx.none("esg-all", require(ps, [("loop", "$3"), ("ev", lambda it:
                 call_is(it, "saveEdge"), "not saved")]), where(fn),
                 "every target fact gets an edge", fn.qn)
        for it in items(ps):
            e = it.ev
            if not call_is(it, "saveEdge"):
                continue
            a = [t2s(x) for x in e.args]
            L = lits(it.pc)
            key = "has pair{$0, $1}"
            known = [v for k, v in it.pc.items() if t2s(k).endswith(key)]
            ok = len(a) == 6 and a[1:5] == ["$0", "$1", "$2", "elem($3)"]
            ctx.ob("esg-args", ok, e.where(), "saves %s" % a, fn.qn)
            ctx.ob("esg-pred", bool(known) and (
                re.fullmatch(MAP + r"\[pair\{\$0, \$1\}\]", a[0]) is not None
                if known and known[-1] else a[0].endswith("nullopt")),
                e.where(), "the predecessor is %s" % a[0], fn.qn)
            A = {"ctr": None, "zero": None}
            for k, v in it.pc.items():
                s = t2s(k)
                if re.search(r"\$4 == .*CallToRet|CallToRet == \$4", s):
                    A["ctr"] = v
                elif re.fullmatch(r"\(this\.\w+ == \$1\)|\(\$1 == this\.\w+\)",
                                  s):
                    A["zero"] = v
            want = "true" if A["ctr"] and A["zero"] else "false"
            sk = a[5]
            if sk not in ("true", "false"):
                sk = str(evb(e.args[5], mk_atoms({
                    "ctr": Pat(r"\(\$4 == .*CallToRet\)"),
                    "zero": Pat(r"\(this\.\w+ == \$1\)")}), {
                        k: bool(v) for k, v in A.items()})).lower()
            ctx.ob("esg-skip", sk == want and (
                want == "true" or A["ctr"] is False or A["zero"] is False),
                e.where(), "edges are skippable (%s) when %s" % (sk, A), fn.qn)
    NOP = "@ExplodedSuperGraph::Node::NoPredId"
    for fn in F.find(ESG + "::saveEdge"):
        ps = ctx.summary(F, fn)
        seen = set()
        for p in ps:
            if p.exit in ("noreturn", "throw"):
                continue
            A = {}
            for k, v in p.pc.items():
                s = t2s(k)
                if s == "$5":
                    A["may"] = v
                elif s in ("($2 == $4)", "($4 == $2)"):
                    A["self"] = v
                elif re.fullmatch(r".*try_emplace\(pair\{\$3, \$4\}.*\)"
                                  r"\.second", s):
                    A["new"] = v
                elif re.fullmatch(MAP + r" has pair\{\$3, \$4\}", s):
                    A["new"] = not v
                elif s == "truthy($0)":
                    A["pred"] = v
                elif re.fullmatch(r"\(this\.\w+\[\*\$0\]\.Value == \$4\)", s):
                    A["same"] = v
                elif re.fullmatch(r"\(this\.\w+\[\*\$0\]\.Source\.getParent"
                                  r"\(\) == \$3\.getParent\(\)\)|\(\$3\.get"
                                  r"Parent\(\) == .*\)", s):
                    A["bb"] = v
                elif re.fullmatch(r"\(this\.\w+ == \$4\)", s):
                    A["zero"] = v
                elif re.fullmatch(r"\(\*\$0 == .*\)|\(.* == \*\$0\)", s) and \
                        SUCCK.search(s):
                    A["eq"] = v
                elif "none_of(" in s:
                    A["fresh"] = v
                elif "any_of(" in s:
                    A["fresh"] = not v
                elif SUCCK.search(s) and "PredecessorIdx" in s and \
                        "$0" in s:
                    A["samepred"] = v
                elif SUCCK.search(s) and "PredecessorIdx == " + NOP in s:
                    A["unlinked"] = v
            # the state machine's state on this path
            skip = A.get("may") and A.get("self")
            noskip = A.get("may") is False or A.get("self") is False
            ident = A.get("pred") and A.get("same") and A.get("bb") and \
                A.get("zero") is False
            noident = A.get("pred") is False or A.get("same") is False or \
                A.get("bb") is False or A.get("zero")
            new = A.get("new")
            make = [it.ev for it in effects(p)]
            ef = effs(make)
            nm = "skip" if skip else "ident" if ident and (new or A.get("eq"))\
                else "new" if new else "unlinked" if A.get("unlinked") else \
                "samepred" if A.get("samepred") else "neighbour" if \
                A.get("fresh") else "dup"
            if A.get("unlinked") is None and new is False and any(
                    x.endswith("== this.Owner)") for x in lits(p.pc)):
                continue
            seen.add(nm)
            ctx.ob("esg-state", new is not None and (skip or noskip) and
                   (skip or ident or noident), where(fn),
                   "the path %s decides nothing about %s" % (
                       sorted(lits(p.pc))[:6], nm), fn.qn + "/decided")
            w = "in state %s (%s): " % (nm, ", ".join(
                "%s=%d" % x for x in sorted(A.items()) if x[1] is not None))
            must = {"skip": ["make", "map"] if new else [],
                    "ident": ["id"] if new else [],
                    "new": ["make", "map"],
                    "unlinked": ["link", "src"], "samepred": [],
                    "neighbour": ["make", "nb"], "dup": []}[nm]
            got = set(ef) - {"seed", "last", "?insert"}
            ctx.ob("esg-state", got == set(must), where(fn), w +
                   "the effects are %s, expected %s" % (sorted(got), must),
                   fn.qn + "/" + nm)
            if "make" in ef:
                ctx.ob("esg-seed", ("seed" in ef) == (A.get("pred") is False),
                       where(fn), w + "the source node is %sregistered" % (
                           "" if "seed" in ef else "not "), fn.qn + "/" + nm)
                for c, want in (("Value", "$4"), ("Source", "$1")):
                    ctx.ob("esg-node", ef["make"].get(c) == want, where(fn),
                           w + "%s of the new node is %s" % (
                               c, ef["make"].get(c)), fn.qn + "/" + c)
                pr = ef["make"].get("PredecessorIdx")
                okp = pr == NOP or pr is None if nm == "skip" else (
                    pr == "$0.value_or(%s)" % NOP or
                    pr == "*$0" and A.get("pred") or
                    pr in (NOP, None) and A.get("pred") is False)
                ctx.ob("esg-node", okp, where(fn), w + "predecessor of the "
                       "new node is %s" % pr, fn.qn + "/pred")
            if "link" in ef:
                ctx.ob("esg-node", ef["link"] == "$0.value_or(%s)" % NOP or
                       ef["link"] == "*$0" and A.get("pred"), where(fn), w +
                       "links to %s" % ef["link"], fn.qn + "/link")
                ctx.ob("esg-node", ef.get("src") == "$1", where(fn), w +
                       "source is %s" % ef.get("src"), fn.qn + "/src")
        for nm in ("skip", "ident", "new", "unlinked", "neighbour"):
            ctx.ob("esg-complete", nm in seen, where(fn), "no path handles "
                   "the case '%s'" % nm, fn.qn + "/" + nm)


def effs(evs):
    """abstract effects of one path of saveEdge"""
    out = {}
    grown = set()
    for e in evs:
        o = t2s(e.obj) if e.obj is not None else ""
        if e.kind == "call":
            n = last(e.name)
            if n == "try_emplace" and t2s(e.args[0]) == "pair{$3, $4}":
                out["?insert"] = 1
            elif n in ("emplace_back", "push_back") and re.fullmatch(
                    r"this\.\w+", o):
                grown.add(o)
                if len(grown) == 2:
                    out.setdefault("make", {})
            elif n in ("push_back", "emplace_back") and SUCCK.search(o) and \
                    o.endswith(".Neighbors") and re.fullmatch(
                        r"this\.\w+\.size\(\)", t2s(e.args[0])):
                out["nb"] = 1
            else:
                out["call " + n] = 1
        elif e.kind == "write":
            v = t2s(e.args[0]) if e.args else "?"
            m = re.fullmatch(r"this\.\w+\.(?:emplace_back\(\)|back\(\))"
                             r"\.(\w+)", o)
            if m:
                out.setdefault("make", {})[m.group(1)] = v
            elif re.fullmatch(MAP + r"\[pair\{\$1, \$2\}\]", o):
                out["seed" if re.fullmatch(r"this\.\w+\.size\(\)", v)
                    else "seed?" + v] = 1
            elif SUCCK.fullmatch(o):
                out["id" if v == "*$0" else "map" if re.fullmatch(
                    r"this\.\w+\.size\(\)", v) else "map?" + v] = 1
            elif SUCCK.search(o) and o.endswith(".PredecessorIdx"):
                out["link"] = v
            elif SUCCK.search(o) and o.endswith(".Source"):
                out["src"] = v
            else:
                out["write " + o] = 1
    return out


def access(ctx, F):
    R = ESG + "::NodeRef::"
    node = r"this\.Owner\.\w+\[this\.NodeId\]"
    tab = {"value": Pat(node + r"\.Value"), "source": Pat(node + r"\.Source"),
           "id": Pat(r"this\.NodeId"),
           "getNumNeighbors": Pat(node + r"\.Neighbors\.size\(\)")}
    for nm, e in tab.items():
        for fn in F.find(R + nm):
            decide(ctx, "esg-node-ref", fn, ctx.summary(F, fn), {},
                   lambda A, e=e: e)
            if nm in ("id", "getNumNeighbors"):
                ctx.ob("esg-node-ref", fn.decl.rt in (
                    "unsigned long", "size_t", "std::size_t", "unsigned long long"), where(fn),
                    "%s has result type %s" % (nm, fn.decl.rt), fn.qn + "/t")
    for fn in F.find(R + "hasNeighbors"):
        decide(ctx, "esg-node-ref", fn, ctx.summary(F, fn), {
            "e": Pat(r"empty\(%s\.Neighbors\)" % node)},
            lambda A: not A["e"])
    for fn in F.find(R + "predecessor"):
        P = Pat(node + r"\.PredecessorIdx")
        decide(ctx, "esg-node-ref", fn, ctx.summary(F, fn), {
            "none": pat("({P} == @ExplodedSuperGraph::Node::NoPredId)", P=P) |
            pat("(@ExplodedSuperGraph::Node::NoPredId == {P})", P=P)},
            lambda A: [Pat(r"\w+\{\}"), Pat(r"\w+\{null\}")] if A["none"] else
            pat("{N}{{P}, this.Owner}", N=Pat(r"\w+"), P=P))
    for fn in F.find(R + "operator bool"):
        decide(ctx, "esg-node-ref", fn, ctx.summary(F, fn), {
            "noown": "(this.Owner == null)",
            "noid": "(this.NodeId == @ExplodedSuperGraph::Node::NoPredId)"},
            lambda A: not A["noown"] and not A["noid"])
    K_ = Pat(MAP + r"\[pair\{\$0, \$1\}\]")
    has = Pat(MAP + r" has pair\{\$0, \$1\}")
    for fn in F.find(ESG + "::getNodeOrNull"):
        decide(ctx, "esg-lookup", fn, ctx.summary(F, fn), {"has": has},
               lambda A: pat("{N}{{K}, this}", N=Pat(r"\w+"), K=K_)
               if A["has"] else [Pat(r"\w+\{\}"), Pat(r"\w+\{null\}"),
                                 "null"])
    for fn in F.find(ESG + "::PathInfoEq::operator()"):
        decide(ctx, "esg-lookup", fn, ctx.summary(F, fn), {
            "n": "($0.first == $1.first)", "d": "($0.second == $1.second)"},
            lambda A: A["n"] and A["d"])


def run(ctx):
    F = ctx.facts(TU)
    steps(ctx, F)
    recorder(ctx, F)
    graph(ctx, F)
    access(ctx, F)
    for r, n in (("record-nothing-else", 14), ("record-insert", 4),
                 ("record-return", 2), ("record-unbalanced-return", 2),
                 ("emit-key", 8), ("esg-all", 1), ("esg-state", 40),
                 ("esg-node", 20), ("esg-node-ref", 6), ("esg-lookup", 3)):
        ctx.atleast(r, n)
