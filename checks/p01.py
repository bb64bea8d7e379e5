"""P01: phase I of the IDE solver builds every jump function that the
tabulation rules demand, with the composition the rules demand, and no other."""
from ide import *

EXPLAIN = ("Disjunctive dataflow summaries of every phase-I step of the "
           "solver (both instantiations); each tabulation rule is an obligation "
           "on all abstract paths (for every callee/start point/return site/"
           "fact the composed edge is scheduled) and every scheduling site must "
           "be an instance of one of the rules.")


def no_extra(ctx, rule, fn, paths, allowed):
    n = 0
    for it in items(paths):
        q = enq(it.ev)
        if q is None:
            continue
        n += 1
        okk = any(enq_is(it, e, c) for e, c in allowed)
        ctx.ob(rule, okk, it.ev.where(),
               "schedules %s with function [%s], which no tabulation rule "
               "produces" % (t2s(q[0])[:300],
                             " ; ".join(t2s(x)[:200] for x in q[1] or ())),
               fn.qn)
    return n


def process_normal(ctx, F):
    SUCC = pat("{I}.getSuccsOf(%s)" % N, I=ICF)
    S = ELEM(SUCC)
    TG = pat("{C}.getNormalFlowFunction(%s, {S}).computeTargets(%s)" %
             (N, D2), C=CF, S=S)
    D3 = ELEM(TG)
    EF = pat("{C}.getNormalEdgeFunction(%s, %s, {S}, {D})" % (N, D2), C=CF,
             S=S, D=D3)
    for fn in role(F, SOLVER, "processNormalFlow",
                   ["getNormalFlowFunction", "getNormalEdgeFunction"]):
        ps = ctx.summary(F, fn, opaque=iface)
        ctx.none("normal-flow", require(ps, [
            ("loop", SUCC), ("loop", TG),
            step_enq(edge(D1, S, D3), [JF, EF],
                     "the edge (d1, successor, d3) with f . normalEdge is not "
                     "scheduled")]), where(fn),
            "normal flow to every successor for every target fact", fn.qn)
        no_extra(ctx, "scheduled-edges", fn, ps,
                 [(edge(D1, S, D3), [JF, EF])])


def process_call(ctx, F):
    SUM = pat("{C}.getSummaryFlowFunction(%s, {E})" % N, C=CF, E=CALLEE)
    STG = pat("{S}.computeTargets(%s)" % D2, S=SUM)
    SEF = pat("{C}.getSummaryEdgeFunction(%s, %s, {R}, {D})" % (N, D2), C=CF,
              R=RET, D=ELEM(STG))
    CTG = pat("{C}.getCallFlowFunction(%s, {E}).computeTargets(%s)" % (N, D2),
              C=CF, E=CALLEE)
    D3 = ELEM(CTG)
    SPS = pat("{I}.getStartPointsOf({E})", I=ICF, E=CALLEE)
    SP = ELEM(SPS)
    CEF = pat("{C}.getCallEdgeFunction(%s, %s, {E}, {D})" % (N, D2), C=CF,
              E=CALLEE, D=D3)
    CELLS = pat("{O}[{S}][{D}].cellSet()", O=O, S=SP, D=D3)
    CELL = ELEM(CELLS)
    RTG = pat("{C}.getRetFlowFunction(%s, {E}, {K}.Row, {R})"
              ".computeTargets({K}.Column)" % N, C=CF, E=CALLEE, K=CELL,
              R=RET)
    D5 = ELEM(RTG)
    REF = pat("{C}.getReturnEdgeFunction(%s, {E}, {K}.Row, {K}.Column, {R}, "
              "{D})" % N, C=CF, E=CALLEE, K=CELL, R=RET, D=D5)
    CRTG = pat("{C}.getCallToRetFlowFunction(%s, {R}, {E})"
               ".computeTargets(%s)" % (N, D2), C=CF, R=RET, E=CALLEES)
    CRD = ELEM(CRTG)
    CREF = pat("{C}.getCallToRetEdgeFunction(%s, %s, {R}, {D}, {E})" %
               (N, D2), C=CF, R=RET, D=CRD, E=CALLEES)
    sump = pat("truthy({S})", S=SUM)
    nosump = pat("!truthy({S})", S=SUM)

    def has_summary(L):
        return any(sump.ok(x) for x in L)

    def no_summary(L):
        return any(nosump.ok(x) for x in L)
    inc, ends = set(), set()
    for fn in role(F, SOLVER, "processCall",
                   ["getCallFlowFunction", "getCallToRetFlowFunction"]):
        ps = ctx.summary(F, fn, opaque=iface)
        w = where(fn)
        ctx.none("call-summary", require(ps, [
            ("loop", CALLEES), ("loop", RETS), ("loop", STG),
            step_enq(edge(D1, RET, ELEM(STG)), [JF, SEF],
                     "the summarised edge is not scheduled")],
            exempt=no_summary), w,
            "summary flow to every return site for every callee", fn.qn)
        base = [("loop", CALLEES), ("loop", SPS), ("loop", CTG)]
        ctx.none("call-start", require(ps, base + [
            step_enq(edge(D3, SP, D3), [],
                     "the self-loop edge at the callee start is not scheduled "
                     "with the identity")], exempt=has_summary), w,
            "call flow into every start point of every callee", fn.qn)
        ctx.none("call-incoming", require(ps, base + [
            step_add(pat("{O}[{S}][{D}][%s].{A}(%s)" % (N, D2), O=O, S=SP,
                         D=D3, A=Pat(r"\w+")),
                     "the call edge is not remembered for later summaries")],
            exempt=has_summary), w,
            "every call is remembered for the callee's exits", fn.qn)
        ctx.none("call-endsummary", require(ps, base + [
            ("loop", CELLS), ("loop", RETS), ("loop", RTG),
            step_enq(edge(D1, RET, D5), [JF, CEF, pat("{K}.Value", K=CELL),
                                         REF],
                     "f . call . summary . return is not scheduled for an "
                     "already known end summary")], exempt=has_summary), w,
            "known end summaries are applied at every return site", fn.qn)
        ctx.none("call-to-return", require(ps, [
            ("loop", RETS), ("loop", CRTG),
            step_enq(edge(D1, RET, CRD), [JF, CREF],
                     "the call-to-return edge is not scheduled")]), w,
            "call-to-return flow to every return site, with or without "
            "callees", fn.qn)
        no_extra(ctx, "scheduled-edges", fn, ps, [
            (edge(D1, RET, ELEM(STG)), [JF, SEF]),
            (edge(D3, SP, D3), []),
            (edge(D1, RET, D5), [JF, CEF, pat("{K}.Value", K=CELL), REF]),
            (edge(D1, RET, CRD), [JF, CREF])])
        for it in items(ps):
            t = t2s(it.ev.term) if it.ev.kind == "call" else ""
            m = re.match(r"(this(?:\.\w+)*)\[.*\]\.cellSet\(\)$", t)
            if m:
                ends.add(m.group(1))
            m = re.match(r"(this(?:\.\w+)*)\[.*\]\[\$0\.Target\]\.\w+\("
                         r"\$0\.DTarget\)$", t)
            if m and not it.ev.pure:
                inc.add(m.group(1))
    return inc, ends


def process_exit(ctx, F, inc, ends):
    FUN = pat("{I}.getFunctionOf(%s)" % N, I=ICF)
    SPS = pat("{I}.getStartPointsOf({F})", I=ICF, F=FUN)
    SP = ELEM(SPS)
    INC = Pat(r"~\w+")
    INCE = ELEM(INC)
    CRETS = pat("{I}.getReturnSitesOfCallAt({K}.first)", I=ICF, K=INCE)
    R = ELEM(CRETS)
    D4S = pat("{K}.second", K=INCE)
    D4 = ELEM(D4S)
    RTG = pat("{C}.getRetFlowFunction({K}.first, {F}, %s, {R})"
              ".computeTargets(%s)" % (N, D2), C=CF, K=INCE, F=FUN, R=R)
    D5 = ELEM(RTG)
    CEF = pat("{C}.getCallEdgeFunction({K}.first, {D}, {F}, %s)" % D1, C=CF,
              K=INCE, D=D4, F=FUN)
    REF = pat("{C}.getReturnEdgeFunction({K}.first, {F}, %s, %s, {R}, {D})" %
              (N, D2), C=CF, K=INCE, F=FUN, R=R, D=D5)
    REV = pat("{O}.reverseLookup({K}.first, {D})", O=O, K=INCE, D=D4)
    PRS = REV
    P = ELEM(PRS)
    CALLERS = pat("{I}.getCallersOf({F})", I=ICF, F=FUN)
    UC = ELEM(CALLERS)
    URETS = pat("{I}.getReturnSitesOfCallAt({C})", I=ICF, C=UC)
    UR = ELEM(URETS)
    UTG = pat("{C}.getRetFlowFunction({K}, {F}, %s, {R})"
              ".computeTargets(%s)" % (N, D2), C=CF, K=UC, F=FUN, R=UR)
    UD = ELEM(UTG)
    UEF = pat("{C}.getReturnEdgeFunction({K}, {F}, %s, %s, {R}, {D})" %
              (N, D2), C=CF, K=UC, F=FUN, R=UR, D=UD)
    ZERO = Pat(r"(?:this(?:\.\w+)*\.getZeroValue\(\)|this\.ZeroValue)")
    alltop = pat("({P}.second == {T})", P=P, T=Pat(r"this\.AllTop")) | \
        pat("({T} == {P}.second)", P=P, T=Pat(r"this\.AllTop"))
    norev = pat("!truthy({R})", R=REV)
    unbal = [Pat(r"this(\.\w+)*\.followReturnsPastSeeds\(\)")]

    def skip(L):
        return any(alltop.ok(x) or norev.ok(x) for x in L)
    for fn in role(F, SOLVER, "processExit",
                   ["getRetFlowFunction", "getCallersOf"]):
        ps = ctx.summary(F, fn, opaque=iface)
        w = where(fn)
        for b in sorted(ends) or [None]:
            if b is None:
                raise CheckError("end summary table not identified")
            ctx.none("exit-endsummary", require(ps, [
                ("loop", SPS),
                step_add(pat("{B}[{S}][%s].{A}(%s, %s, {F})" % (D1, N, D2),
                             B=b, S=SP, A=Pat(r"\w+"), F=JF),
                         "no end summary is stored for a later call")]), w,
                "end summary at every start point of the function", fn.qn)
        for b in sorted(inc) or [None]:
            if b is None:
                raise CheckError("incoming table not identified")
            ctx.none("exit-incoming-read", require(ps, [
                ("loop", SPS), ("loop", pat("{B}[{S}][%s]" % D1, B=b, S=SP)),
                ("ev", lambda it: it.ev.kind in ("write", "call") and
                 any(x[0] == "fld" and x[2] in ("second", "first") and
                     pat("elem({B}[{S}][%s])" % D1, B=b, S=SP).ok(x[1])
                     for a in list(it.ev.args) + [it.ev.term, it.ev.obj]
                     if isinstance(a, tuple) for x in subterms(a)),
                 "the incoming calls are not collected")]), w,
                "all calls that reached this entry are served", fn.qn)
        ctx.none("exit-return", require(ps, [
            ("loop", INC), ("loop", CRETS), ("loop", D4S), ("loop", RTG),
            ("loop", PRS),
            step_enq(edge(pat("{P}.first", P=P), R, D5),
                     [pat("{P}.second", P=P), CEF, JF, REF],
                     "f3 . call . f . return is not scheduled")],
            exempt=skip), w,
            "return flow into every remembered caller", fn.qn)
        ctx.none("exit-unbalanced", require(ps, [
            ("loop", CALLERS), ("loop", URETS), ("loop", UTG),
            step_enq(edge(ZERO, UR, UD), [JF, UEF],
                     "the unbalanced return edge is not scheduled")],
            exempt=lambda L: "!empty(~Inc)" in L or any(
                re.fullmatch(r"!empty\(~\w+\)", x) for x in L) or any(
                re.fullmatch(r"!this(\.\w+)*\.followReturnsPastSeeds\(\)", x)
                for x in L) or any(
                re.fullmatch(r"!.*isZeroValue\(\$0\.DSource\)", x)
                for x in L)), w,
            "unbalanced return to every caller when nothing is recorded",
            fn.qn)
        # unbalanced edges only under their guard
        for it in items(ps):
            q = enq(it.ev)
            if q and enq_is(it, edge(ZERO, UR, UD), [JF, UEF]):
                L = lits(it.pc)
                ctx.ob("unbalanced-guard",
                       any(unbal[0].ok(x) for x in L) and
                       any(re.fullmatch(r"empty\(~\w+\)", x) for x in L),
                       it.ev.where(), "an unbalanced return is scheduled "
                       "without checking that it was asked for and that no "
                       "call was recorded", fn.qn)
        no_extra(ctx, "scheduled-edges", fn, ps, [
            (edge(pat("{P}.first", P=P), R, D5),
             [pat("{P}.second", P=P), CEF, JF, REF]),
            (edge(ZERO, UR, UD), [JF, UEF])])


def propagate(ctx, F):
    REV = pat("{O}.reverseLookup($1, $2)", O=O)
    OLD = pat("findif({R}, (elem({R}).first == $0)).second", R=REV) | \
        pat("findif({R}, ($0 == elem({R}).first)).second", R=REV) | \
        pat("elem({R}).second", R=REV) | Pat(r"this\.AllTop")
    NEW = pat("{O}.combine({L}, $3)", O=O, L=OLD) | \
        pat("{O}.combine($3, {L})", O=O, L=OLD)
    same = pat("({N} == {L})", N=NEW, L=OLD) | pat("({L} == {N})", N=NEW,
                                                   L=OLD)
    E = edge("$0", "$1", "$2")
    call = Pat(r"this\.\w+\.isCallSite\(\$1\)")
    exi = Pat(r"this\.\w+\.isExitInst\(\$1\)")
    nosucc = Pat(r"empty\(this\.\w+\.getSuccsOf\(\$1\)\)")

    names = {}
    for nm, calls in (("processCall", ["getCallToRetFlowFunction"]),
                      ("processExit", ["getRetFlowFunction", "getCallersOf"]),
                      ("processNormalFlow", ["getNormalFlowFunction"])):
        names[nm] = last(role(F, SOLVER, nm, calls)[0].qn)

    def does(L, p):
        return any(p.ok(x) for x in L)
    for fn in role(F, SOLVER, "propagate", ["combine", "addFunction"]):
        ps = ctx.summary(F, fn, opaque=iface, stop=list(names.values()))
        w = where(fn)

        def stale(L):
            return any(same.ok(x) for x in L)

        def neverempty(L):
            # AllTop is returned only if the table has no entry
            return False

        def ev(p, t):
            return ("ev", lambda it, p=p: it.ev.kind == "call" and
                    pat(p).ok(it.ev.term), t)
        ctx.none("propagate-store", require(ps, [
            ev(pat("{O}.addFunction($0, $1, $2, {N})", O=O, N=NEW),
               "the joined jump function is not stored")], exempt=stale), w,
            "a changed jump function is stored", fn.qn)
        ctx.none("propagate-call", require(ps, [
            ev(pat("this.%s({E})" % names["processCall"], E=E),
               "call statement is not processed")],
            exempt=lambda L: stale(L) or not does(L, call)), w,
            "a changed edge at a call is processed as a call", fn.qn)
        ncall = Pat("!" + call.rx)
        ctx.none("propagate-exit", require(ps, [
            ev(pat("this.%s({E})" % names["processExit"], E=E),
               "exit statement is not processed")],
            exempt=lambda L: stale(L) or does(L, call) or not does(L, exi)),
            w, "a changed edge at an exit is processed as an exit", fn.qn)
        ctx.none("propagate-normal", require(ps, [
            ev(pat("this.%s({E})" % names["processNormalFlow"], E=E),
               "statement with successors is not processed")],
            exempt=lambda L: stale(L) or does(L, call) or does(L, nosucc)),
            w, "a changed edge is pushed to the successors", fn.qn)
        for p in ps:
            L = lits(p.pc)
            for x in L:
                if "combine" in x and "==" in x:
                    ctx.ob("propagate-join",
                           same.ok(x.lstrip("!")), w,
                           "the fixpoint test compares %s" % x[:200], fn.qn)
            # if the old value is AllTop there must have been no entry
            for e in p.ev:
                if e.kind == "call" and last(e.name) == "combine":
                    old = t2s(e.args[0])
                    if "AllTop" in (old, t2s(e.args[1])) or \
                            old.endswith("this.AllTop"):
                        miss = any(pat("!truthy({R})", R=REV).ok(x) or
                                   "findif" in x and not x.startswith("!") and
                                   "end(" in x for x in L) or \
                            not any("truthy(" in x and not x.startswith("!")
                                    for x in L)
                        ctx.ob("propagate-old", miss, e.where(),
                               "the previous jump function is ignored although "
                               "the table has one", fn.qn)
                if e.kind == "call" and last(e.name) == "addFunction":
                    ctx.ob("propagate-new",
                           pat("{O}.addFunction($0, $1, $2, {N})", O=O,
                               N=NEW).ok(e.term), e.where(),
                           "stores %s" % t2s(e.term)[:300], fn.qn)


def seeds(ctx, F):
    for fn in role(F, SOLVER, "submitInitialSeeds", ["addSeed", "getSeeds"]):
        ps = ctx.summary(F, fn, opaque=iface)
        SE = Pat(r"this\.\w+\.getSeeds\(\)|~\w+")
        S = ELEM(SE)
        FS = pat("{S}.second", S=S)
        K = ELEM(FS)
        e = edge(pat("{K}.first", K=K), pat("{S}.first", S=S),
                 pat("{K}.first", K=K))
        ctx.none("seed-edges", require(ps, [
            ("loop", SE), ("loop", FS),
            step_enq(e, [], "the seed is not scheduled with the identity")]),
            where(fn), "every seed fact starts a path edge", fn.qn)
        no_extra(ctx, "scheduled-edges", fn, ps, [(e, [])])


def run(ctx):
    F = ctx.facts(TU)
    process_normal(ctx, F)
    inc, ends = process_call(ctx, F)
    process_exit(ctx, F, inc, ends)
    propagate(ctx, F)
    seeds(ctx, F)
    for r in ("normal-flow", "call-summary", "call-start", "call-incoming",
              "call-endsummary", "call-to-return", "exit-endsummary",
              "exit-return", "exit-unbalanced", "propagate-store", "seed-edges"):
        ctx.atleast(r, 2)
    ctx.atleast("scheduled-edges", 14)
