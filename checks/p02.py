"""P02: phase II of the IDE solver computes values by applying every jump
function and call edge function to the joined source values."""
from ide import *

EXPLAIN = ("Dataflow summaries of the value-propagation steps with helpers "
           "inlined; each propagation rule is an obligation on all abstract "
           "paths, each store into the value table must be an instance of a "
           "rule, and each read must honour the implicit top.")

TOP = Pat(r"this\.\w+\.topElement\(\)")


def VAL(n, d):
    return pat("{O}[{n}][{d}]", O=O, n=n, d=d) | TOP


def JOIN(n, d, v):
    return pat("{O}.join({a}, {v})", O=O, a=VAL(n, d), v=v) | \
        pat("{O}.join({v}, {a})", O=O, a=VAL(n, d), v=v)


def unchanged(n, d, v):
    j, a = JOIN(n, d, v), VAL(n, d)
    return pat("({j} == {a})", j=j, a=a) | pat("({a} == {j})", j=j, a=a)


def stored(it):
    """(row, column, value) if the event stores into a two-level table"""
    e = it.ev
    if e.kind == "call" and last(e.name) in ("insert", "insert_or_assign") \
            and len(e.args) == 3:
        return e.args
    if e.kind == "write" and e.obj[0] == "idx" and e.obj[1][0] == "idx":
        return (e.obj[1][2], e.obj[2], e.args[0])
    return None


def is_store(n, d, v):
    n, d, v = pat(n), pat(d), pat(v)

    def f(it):
        s = stored(it)
        return s is not None and n.ok(s[0]) and d.ok(s[1]) and v.ok(s[2])
    return f


def is_push(n, d):
    n, d = pat(n), pat(d)

    def f(it):
        a = added(it.ev)
        return a is not None and len(a) == 2 and n.ok(a[0]) and d.ok(a[1])
    return f


def step(n, d, v):
    j = JOIN(n, d, v)
    return (("ev", is_store(n, d, j), "the joined value is not stored"),
            ("ev", is_push(n, d), "the changed value is not propagated "
             "further"))


def reads_ok(ctx, fn, ps, tables=None):
    """top stands for a missing entry only, and a present entry is read"""
    w = where(fn)
    seen = set()
    for it in items(ps):
        e = it.ev
        if e.kind != "call" or last(e.name) not in ("join", "computeTarget"):
            continue
        L = lits(it.pc)
        for a in e.args:
            for x in subterms(a):
                if x[0] == "idx" and x[1][0] == "idx" and \
                        t2s(x[1][1]).startswith("this."):
                    n, d = t2s(x[1][2]), t2s(x[2])
                    key = (n, d, True)
                    cond = re.compile(
                        r"this(\.\w+)*\.contains\(%s, %s\)|"
                        r"this(\.\w+)*\[%s\] has %s" %
                        (re.escape(n), re.escape(d), re.escape(n),
                         re.escape(d)))
                    okk = any(cond.fullmatch(z) for z in L)
                    ctx.ob("value-read", okk, e.where(),
                           "the value at (%s, %s) is read although the table "
                           "may have no entry, i.e. top" % (n[:120], d[:120]),
                           fn.qn)


def start_rule(ctx, fn, ps, exempt, n, d, inst, rule="value-at-start"):
    CALLS = pat("{I}.getCallsFromWithin({I}.getFunctionOf({n}))", I=ICF, n=n)
    C = ELEM(CALLS)
    FW = pat("{O}.forwardLookup({d}, {c})", O=O, d=d, c=C)
    E = ELEM(FW)
    TV = pat("{E}.second.computeTarget({v})", E=E, v=VAL(n, d))
    D2_ = pat("{E}.first", E=E)
    nofw = pat("!truthy({F})", F=FW)
    un = unchanged(C, D2_, TV)

    def ex(L):
        return exempt(L) or any(nofw.ok(x) or un.ok(x) for x in L)
    for s in step(C, D2_, TV):
        ctx.none(rule, require(ps, [("loop", CALLS), ("loop", FW), s],
                               exempt=ex),
                 where(fn), "the value of every fact at a start point reaches "
                 "every call in the function through its jump function", inst)
    return (C, D2_, JOIN(C, D2_, TV))


def call_rule(ctx, fn, ps, exempt, n, d, inst, rule="value-at-call"):
    CAL = pat("{I}.getCalleesOfCallAt({n})", I=ICF, n=n)
    Q = ELEM(CAL)
    TG = pat("{C}.getCallFlowFunction({n}, {Q}).computeTargets({d})", C=CF,
             n=n, Q=Q, d=d)
    D = ELEM(TG)
    EF = pat("{C}.getCallEdgeFunction({n}, {d}, {Q}, {D})", C=CF, n=n, d=d,
             Q=Q, D=D)
    SPS = pat("{I}.getStartPointsOf({Q})", I=ICF, Q=Q)
    SP = ELEM(SPS)
    TV = pat("{E}.computeTarget({v})", E=EF, v=VAL(n, d))
    un = unchanged(SP, D, TV)

    def ex(L):
        return exempt(L) or any(un.ok(x) for x in L)
    for s in step(SP, D, TV):
        ctx.none(rule, require(ps, [("loop", CAL), ("loop", TG),
                                    ("loop", SPS), s], exempt=ex),
                 where(fn), "the value of every fact at a call reaches every "
                 "start point of every callee through the call edge function",
                 inst)
    return (SP, D, JOIN(SP, D, TV))


def stores_ok(ctx, fn, ps, allowed):
    for it in items(ps):
        s = stored(it)
        if s is None or not t2s(it.ev.obj).startswith("this.") or \
                "getSeeds()" in t2s(it.ev.obj):
            continue
        ctx.ob("value-store",
               any(is_store(*a)(it) for a in allowed), it.ev.where(),
               "stores %s at (%s, %s)" %
               (t2s(s[2])[:300], t2s(s[0])[:150], t2s(s[1])[:150]), fn.qn)


def run(ctx):
    F = ctx.facts(TU)
    n, d = "$0.first", "$0.second"
    seedp = Pat(r"(this\.ICF\.isStartPoint\(N\)|"
                r"this\.Seeds\.containsInitialSeedsFor\(N\)|"
                r"this\.\w+ has N)".replace("N", re.escape(n)))
    callp = Pat(r"this\.\w+\.isCallSite\(%s\)" % re.escape(n))
    for fn in role(F, SOLVER, "valuePropagationTask", ["isStartPoint"]):
        ps = ctx.summary(F, fn, opaque=iface)
        a1 = start_rule(ctx, fn, ps, lambda L: not any(
            seedp.ok(x) for x in L), n, d, fn.qn)
        a2 = call_rule(ctx, fn, ps, lambda L: not any(
            callp.ok(x) for x in L), n, d, fn.qn)
        # all three kinds of entries must be tested
        lit = set()
        for p in ps:
            lit |= {x.lstrip("!") for x in lits(p.pc)}
        for kind, rx in (
                ("start points", r"this\.\w+\.isStartPoint\(\$0\.first\)"),
                ("seeds", r"this(\.\w+)*\.containsInitialSeedsFor\("
                          r"\$0\.first\)|this\.Seeds.* has \$0\.first"),
                ("unbalanced return sites",
                 r"this\.Unbal\w+ has \$0\.first|this\.\w+ has \$0\.first"),
                ("calls", callp.rx)):
            ctx.ob("value-entry-kinds", any(re.fullmatch(rx, x) for x in lit),
                   where(fn), "%s are not propagated from" % kind, fn.qn)
        stores_ok(ctx, fn, ps, [a1, a2])
        reads_ok(ctx, fn, ps)
    for fn in role(F, SOLVER, "valueComputationTask", ["lookupByTarget"]):
        ps = ctx.summary(F, fn, opaque=iface)
        NS = Pat(r"\$0")
        E = ELEM(NS)
        SPS = pat("{I}.getStartPointsOf({I}.getFunctionOf({E}))", I=ICF, E=E)
        SP = ELEM(SPS)
        CS = pat("{O}.lookupByTarget({E}).cellSet()", O=O, E=E)
        K = ELEM(CS)
        TV = pat("{K}.Value.computeTarget({v})", K=K,
                 v=VAL(SP, pat("{K}.Row", K=K)))
        col = pat("{K}.Column", K=K)
        J = JOIN(E, col, TV)
        un = unchanged(E, col, TV)
        ctx.none("value-final", require(ps, [
            ("loop", NS), ("loop", SPS), ("loop", CS),
            ("ev", is_store(E, col, J), "the joined value is not stored")],
            exempt=lambda L: any(un.ok(x) for x in L)), where(fn),
            "the value at every node joins all its jump functions applied to "
            "the start values", fn.qn)
        stores_ok(ctx, fn, ps, [(E, col, J)])
        reads_ok(ctx, fn, ps)
    task = last(role(F, SOLVER, "valuePropagationTask",
                     ["isStartPoint"])[0].qn)
    fin = last(role(F, SOLVER, "valueComputationTask",
                    ["lookupByTarget"])[0].qn)
    for fn in role(F, SOLVER, "computeValues", ["allNonCallStartNodes"]):
        ps = ctx.summary(F, fn, opaque=iface, stop=[task, fin])
        w = where(fn)
        SEEDS = Pat(r"this\.\w+\.getSeeds\(\)|~\w+")
        S = ELEM(SEEDS)
        FACTS = pat("{S}.second", S=S)
        FK = ELEM(FACTS)
        sn, sd = pat("{S}.first", S=S), pat("{K}.first", K=FK)
        J = JOIN(sn, sd, pat("{K}.second", K=FK))
        un = unchanged(sn, sd, pat("{K}.second", K=FK))
        ctx.none("value-seeds", require(ps, [
            ("loop", SEEDS), ("loop", FACTS),
            ("ev", is_store(sn, sd, J), "the seed value is not joined in")]),
            w, "every seed value is joined into the table", fn.qn)
        P2 = pat("this.%s({P})" % task,
                 P=Pat(r"(?:(?:std::)?(?:pair)?\{)?") )
        pt = pat("this.%s(pair{{n}, {d}})" % task, n=sn, d=sd) | \
            pat("this.%s({{n}, {d}})" % task, n=sn, d=sd)
        ctx.none("value-seeds", require(ps, [
            ("loop", SEEDS), ("loop", FACTS),
            ("ev", lambda it: it.ev.kind == "call" and (
                pt.ok(it.ev.term) or is_push(sn, sd)(it)),
             "the seed is not propagated")]),
            w, "every seed is propagated", fn.qn)
        # unbalanced return sites become seeds
        UN = Pat(r"this\.Unbal\w*|this\.\w+")
        u = ELEM(UN)
        has = pat("{M} has {u}", M=SEEDS, u=u)
        ctx.none("value-unbalanced", require(ps, [
            ("loop", UN),
            ("ev", lambda it: it.ev.kind == "write" and
             pat("{M}[{u}][{z}]", M=SEEDS, u=u,
                 z=Pat(r"this(?:\.\w+)+(?:\(\))?")).ok(it.ev.obj) or
             (added(it.ev) or [None])[0] is not None and
             u.ok(added(it.ev)[0]),
             "an unbalanced return site does not become a seed")],
            exempt=lambda L: any(has.ok(x) for x in L)), w,
            "unbalanced return sites act as seeds", fn.qn)
        # drain the worklist
        drained = False
        for p in ps:
            for e in p.ev:
                if e.kind != "loop":
                    continue
                for q in e.loop.paths:
                    calls = [x for x in q.ev if x.kind == "call"]
                    pops = [x for x in calls if last(x.name) in
                            ("pop_back", "pop_front", "pop")]
                    t = [x for x in calls if last(x.name) == task]
                    if pops and t:
                        wl = t2s(pops[0].obj)
                        good = re.fullmatch(
                            re.escape(wl) + r"\.(back|front|top)\(\)",
                            t2s(t[0].args[0])) is not None
                        exits = all("empty(%s)" % wl in lits(x)
                                    for x in e.loop.exits)
                        ctx.ob("value-drain", good and exits, e.where(),
                               "the value worklist is not drained element by "
                               "element until it is empty", fn.qn)
                        drained = True
        ctx.ob("value-drain", drained, w,
               "no loop drains the value worklist", fn.qn)
        ctx.none("value-all-nodes", require(ps, [
            ("ev", lambda it: it.ev.kind == "call" and
             re.fullmatch(r"this\.%s\(this\.\w+\.allNonCallStartNodes\(\)\)" %
                          fin, t2s(it.ev.term)) is not None,
             "the final values of the inner nodes are not computed")]), w,
            "values are computed at all nodes that are not calls or starts",
            fn.qn)
        # order: inner nodes after the worklist is drained
        for p in ps:
            idx_f = [i for i, e in enumerate(p.ev) if e.kind == "call" and
                     last(e.name) == fin]
            idx_l = [i for i, e in enumerate(p.ev) if e.kind == "loop" and
                     any(x.kind == "call" and last(x.name) == task
                         for q in e.loop.paths for x in q.ev)]
            idx_s = [i for i, e in enumerate(p.ev) if e.kind == "loop" and
                     any(it.ev.kind == "call" and last(it.ev.name) == task
                         for it in items(e.loop.paths))]
            ctx.ob("value-order", bool(idx_f) and bool(idx_s) and
                   min(idx_f) > max(idx_s), w,
                   "inner values are computed before the start values are "
                   "final", fn.qn)
        stores_ok(ctx, fn, ps, [(sn, sd, J)])
        reads_ok(ctx, fn, ps)
    for r, k in (("value-at-start", 4), ("value-at-call", 4),
                 ("value-final", 2), ("value-seeds", 4), ("value-drain", 2)):
        ctx.atleast(r, k)
