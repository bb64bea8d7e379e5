"""P10: the forward and the backward CFG describe the control flow of the
functions."""
from spec import *

EXPLAIN = ("Decision tables over the path summaries of the forward and the "
           "backward control-flow graph: what is reported, for which "
           "instruction, under which condition; path obligations for the "
           "enumerations; a progress argument for the name decoder; call "
           "target identity (base class or derived) for the backward graph.")
D = "lib/PhasarLLVM/ControlFlow/"
STOP = ["getSuccsOfImpl", "getPredsOfImpl", "getStartPointsOfImpl",
        "getExitPointsOfImpl", "getSuccsOf", "getPredsOf",
        "getStartPointsOf", "getExitPointsOf", "isStartPointImpl",
        "isExitInstImpl", "isStartPoint", "isExitInst", "getFunctionOfImpl",
        "isBranchTargetImpl", "isFallThroughSuccessorImpl",
        "isStaticVariableLazyInitializationBranch", "getAllExitPoints",
        "isCallSite", "getAllFunctions", "getAllInstructionsOf",
        "getAllControlFlowEdges", "getFunctionOf"]
BASE = "LLVMBasedCFGImpl::"


def live(ps):
    return [p for p in ps if p.exit not in ("noreturn", "throw")]


def mark(t):
    """calls to the forward implementation are renamed, so that they differ
    from calls to the (overriding) function of the derived class"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "call" and isinstance(t[1], str) and BASE in t[1]:
        return ("call", "fwd_" + last(t[1])) + tuple(mark(x) for x in t[2:])
    return tuple(mark(x) for x in t)


def m2s(t):
    return t2s(mark(t)).replace("this.fwd_", "fwd_")


def mlits(pc):
    return {l.replace("this.fwd_", "fwd_") for l in
            lits({mark(k): v for k, v in pc.items()})}


class Out:
    """what a path reports: single terms and terms per element of a
    container"""

    def __init__(self):
        self.one = []
        self.each = []          # (container text, conditions, term text)
        self.other = []


def outcome(p, show=t2s):
    o = Out()
    r = p.ret
    if r is None:
        o.other.append("nothing is returned")
        return o
    if r[0] == "ctor" and (not r[2] or (len(r[2]) == 1 and
                                        r[2][0][0] == "il")):
        for x in (r[2][0][2] if r[2] else ()):
            o.one.append(show(x))
        loc = None
    elif r[0] == "il":
        for x in r[2]:
            o.one.append(show(x))
        loc = None
    else:
        loc = r
        if not t2s(r).startswith(("~", "?")):
            o.one.append("*" + show(r))
    if loc is not None:
        for it in items([p]):
            if it.ev.kind != "call" or it.ev.obj is None or \
                    not same(it.ev.obj, loc):
                continue
            a = added(it.ev)
            if a is None:
                if last(it.ev.name) not in ("reserve", "empty", "size",
                                            "begin", "end", "back", "front"):
                    o.other.append(it.ev.s())
                continue
            txt = show(a[0]) if len(a) == 1 else "(%s)" % ", ".join(
                show(x) for x in a)
            if it.loops:
                # only loops over everything count
                cs = []
                for l in it.loops:
                    c = t2s(l.container) if l.kind == "range" else None
                    if c is None:
                        for v in l.entry:
                            if v[0] == "iter" and covers(l, t2s(v[1])):
                                c = t2s(v[1])
                    cs.append(c or "(partial)")
                o.each.append((tuple(cs), lits(it.pc), txt))
            else:
                o.one.append(txt)
    return o


def isdbg(x):
    return "isa<DbgInfoIntrinsic>(%s)" % x


IGN = "this.IgnoreDbgInstructions"


def is_first(txt, bb, L):
    """txt is the first (relevant) instruction of the block"""
    f = bb + ".front()"
    if txt in ("&" + f, f):
        return "!" + IGN in L or "!" + isdbg(f) in L
    if txt in (f + ".getNextNonDebugInstruction(false)",
               "(&%s).getNextNonDebugInstruction(false)" % f):
        return IGN in L and isdbg(f) in L
    if txt == bb + ".getFirstNonPHIOrDbg(false)":
        return False
    return False


def run(ctx):
    F = ctx.facts(D + "LLVMBasedCFG.cpp")
    forward(ctx, F)
    names(ctx, F)
    B = ctx.facts(D + "LLVMBasedBackwardCFG.cpp")
    backward(ctx, B)
    front(ctx)
    shorthands(ctx)


def summ(ctx, F, fn, **kw):
    stop = [s for s in STOP if s != last(fn.qn)]
    return live(ctx.summary(F, fn, stop=stop, **kw))


def forward(ctx, F):
    Q = "psr::detail::LLVMBasedCFGImpl::"
    for fn in F.find(Q + "getSuccsOfImpl"):
        nxt, nxd = "$0.getNextNode()", "$0.getNextNonDebugInstruction(false)"
        lazy = "isStaticVariableLazyInitializationBranch(as<BranchInst>($0))"
        for p in summ(ctx, F, fn):
            L = lits(p.pc)
            o = outcome(p)
            inst = fn.qn
            n = nxd if IGN in L else nxt if "!" + IGN in L else None
            ok = not o.other
            if n and ("!(%s == null)" % n) in L:
                ok = ok and o.one == [n] and not o.each
                what = "the next instruction"
            elif n and ("(%s == null)" % n) in L:
                if lazy in L:
                    what = "the first instruction of the initialization"
                    ok = ok and len(o.one) == 1 and not o.each and is_first(
                        o.one[0], "as<BranchInst>($0).getSuccessor(0)", L)
                else:
                    what = "the first instruction of every successor"
                    ok = ok and not o.one and bool(o.each) and (
                        "!" + lazy in L or "!isa<BranchInst>($0)" in L or
                        any("BranchInst" in l and l.startswith("!") or
                            "isUnconditional" in l for l in L)) and all(
                        len(c) == 1 and c[0] in (
                            "successors($0)", "successors($0.getParent())")
                        and is_first(t, "elem(%s)" % c[0], K)
                        for c, K, t in o.each) and total(p, o)
            else:
                ok, what = False, "the next (non-debug) instruction first"
            ctx.ob("succ", ok, where(fn), "getSuccsOf yields %s, expected %s "
                   "when %s" % (show(o), what, sorted(L)), inst)
    for fn in F.find(Q + "getPredsOfImpl"):
        prv, prd = "$0.getPrevNode()", "$0.getPrevNonDebugInstruction(false)"
        for p in summ(ctx, F, fn):
            L = lits(p.pc)
            o = outcome(p)
            n = prd if IGN in L else prv if "!" + IGN in L else None
            ok = not o.other
            if n and ("!(%s == null)" % n) in L:
                ok = ok and o.one == [n] and not o.each
                what = "the previous instruction"
            elif n and ("(%s == null)" % n) in L:
                what = "the terminator of every predecessor"
                ok = ok and not o.one and bool(o.each) and all(
                    len(c) == 1 and c[0] == "predecessors($0.getParent())"
                    and is_term(t, "elem(%s)" % c[0], K)
                    for c, K, t in o.each) and total(p, o)
            else:
                ok, what = False, "the previous (non-debug) instruction first"
            ctx.ob("pred", ok, where(fn), "getPredsOf yields %s, expected %s "
                   "when %s" % (show(o), what, sorted(L)), fn.qn)
    for fn in F.find(Q + "getStartPointsOfImpl"):
        for p in summ(ctx, F, fn):
            L = lits(p.pc)
            o = outcome(p)
            if nodef(L):
                ok = not (o.one or o.each or o.other)
            else:
                ok = not o.each and not o.other and len(o.one) == 1 and \
                    is_first(o.one[0], "$0.front()", L) and hasdef(L)
            ctx.ob("start", ok, where(fn), "the start points are %s when %s"
                   % (show(o), sorted(L)), fn.qn)
    for fn in F.find(Q + "getExitPointsOfImpl"):
        for p in summ(ctx, F, fn):
            L = lits(p.pc)
            o = outcome(p)
            if "($0 == null)" in L:
                ok = not (o.one or o.each or o.other) or o.one == [
                    "*getAllExitPoints($0)"]
            elif nodef(L):
                ok = not (o.one or o.each or o.other) or o.one == [
                    "*getAllExitPoints($0)"]
            else:
                ok = o.one == ["*getAllExitPoints($0)"] and not o.other
            ctx.ob("exit", ok, where(fn), "the exit points are %s when %s" %
                   (show(o), sorted(L)), fn.qn)
    for fn in F.find(Q + "isExitInstImpl"):
        ps = summ(ctx, F, fn)
        decide(ctx, "exit", fn, ps, {"ret": "isa<ReturnInst>($0)",
                                     "res": "isa<ResumeInst>($0)"},
               lambda A: None if A["ret"] and A["res"] else
               True if A["ret"] else [True, False] if A["res"] else False)
    f = "$0.getFunction().front().front()"
    for fn in F.find(Q + "isStartPointImpl"):
        g = Pat(r"\(\$0 == %(f)s\.getNextNonDebugInstruction\(false\)\)|"
                r"\(%(f)s\.getNextNonDebugInstruction\(false\) == \$0\)" %
                {"f": re.escape(f)})
        h = Pat(r"\(\$0 == &%(f)s\)|\(&%(f)s == \$0\)" % {"f": re.escape(f)})
        decide(ctx, "start", fn, summ(ctx, F, fn), {
            "front": h, "next": g, "dbg": isdbg(f), "ign": IGN},
            lambda A: None if A["front"] and A["next"] else
            ([True, False] if A["dbg"] and A["ign"] else True)
            if A["front"] else
            ([True, False] if not A["ign"] else True) if A["next"] and
            A["dbg"] else False)
    for fn in F.find(Q + "isFieldLoadImpl") + F.find(Q + "isFieldStoreImpl"):
        k = "LoadInst" if "Load" in fn.qn else "StoreInst"
        decide(ctx, "field", fn, summ(ctx, F, fn), {
            "acc": "isa<%s>($0)" % k,
            "gep": "isa<GetElementPtrInst>(as<%s>($0).getPointerOperand())"
            % k}, lambda A: A["acc"] and A["gep"])
    for fn in F.find(Q + "isBranchTargetImpl"):
        target(ctx, fn, summ(ctx, F, fn))
    for fn in F.find(Q + "isFallThroughSuccessorImpl"):
        ps = summ(ctx, F, fn)
        for p in ps:
            L = lits(p.pc)
            if "!isa<BranchInst>($0)" in L:
                ctx.ob("branch", p.ret == FALSE, where(fn),
                       "only branches have a fall-through successor", fn.qn)
                continue
            cond = "as<BranchInst>($0).isConditional()" in L or \
                "!as<BranchInst>($0).isUnconditional()" in L
            bb = "as<BranchInst>($0).getSuccessor(%d)" % (1 if cond else 0)
            ok = False
            rest = [l for l in L if "$1" in l and "==" in l]
            if p.ret in (TRUE, FALSE) and len(rest) == 1:
                pol = not rest[0].startswith("!")
                x = other(rest[0].lstrip("!"))
                ok = x and is_first(x, bb, L) and (p.ret == TRUE) == pol
            elif not rest and p.ret is not None:
                x = other(t2s(p.ret))
                ok = x and is_first(x, bb, L)
            ctx.ob("branch", ok, where(fn), "the fall-through successor is "
                   "decided by %s returning %s" % (sorted(L), t2s(p.ret)),
                   fn.qn)
    for fn in F.find(Q + "getAllControlFlowEdgesImpl"):
        edges(ctx, fn, summ(ctx, F, fn))
    for fn in F.find(Q + "getFunctionOfImpl"):
        for p in summ(ctx, F, fn):
            ctx.ob("fun", t2s(p.ret) in ("$0.getFunction()",
                                         "$0.getParent().getParent()"),
                   where(fn), "the function of an instruction is %s" %
                   t2s(p.ret), fn.qn)
    for fn in F.find(Q + "getAllInstructionsOfImpl"):
        for p in summ(ctx, F, fn):
            o = outcome(p)
            ctx.ob("fun", "instructions($0)" in t2s(p.ret) or (
                o.each and all(c == ("instructions($0)",) for c, K, t in
                               o.each)), where(fn), "the instructions of a "
                   "function are %s" % t2s(p.ret), fn.qn)


def other(s):
    """the other side of a comparison with $1"""
    g = re.fullmatch(r"\((.*) == \$1\)|\(\$1 == (.*)\)", s)
    return g and (g.group(1) or g.group(2))


def nodef(L):
    return "($0 == null)" in L or "$0.isDeclaration()" in L or \
        "$0.empty()" in L or "empty($0)" in L


def hasdef(L):
    return "!$0.isDeclaration()" in L or "!$0.empty()" in L or \
        "!empty($0)" in L


def is_term(t, bb, K):
    x = bb + ".getTerminator()"
    if t == x:
        return True
    if t == "&%s.back()" % bb:
        return True
    return t == x + ".getPrevNonDebugInstruction(false)" and isdbg(x) in K


def total(p, o):
    """no element is left out: every path of the reporting loops reports"""
    for e in p.ev:
        if e.kind != "loop":
            continue
        for q in e.loop.paths:
            if q.exit in ("noreturn", "throw"):
                continue
            if q.exit in ("break", "return"):
                return False
            if not any(added(i.ev) for i in items([q])):
                return False
    return True


def show(o):
    return str(o.one + ["%s for each of %s" % (t, c) for c, K, t in o.each] +
               o.other)[:300]


def target(ctx, fn, ps):
    """true iff $0 is a terminator and $1 the first instruction of one of its
    successors"""
    C = Pat(r"successors\(\$0(?:\.getParent\(\))?\)")
    for p in ps:
        L = lits(p.pc)
        if "!$0.isTerminator()" in L:
            ctx.ob("branch", p.ret == FALSE, where(fn), "only terminators "
                   "have branch targets", fn.qn)
            continue
        loops = [e.loop for e in p.ev if e.kind == "loop"]
        ok = len(loops) == 1 and loops[0].kind == "range" and \
            C.ok(loops[0].container)
        if not ok:
            ctx.ob("branch", False, where(fn), "no search through every "
                   "successor when %s" % sorted(L), fn.qn)
            continue
        bb = "elem(%s)" % t2s(loops[0].container)
        for q in live(loops[0].paths):
            K = lits({**p.pc, **q.pc}) if False else lits(q.pc)
            cmpd = [(l.startswith("!"), other(l.lstrip("!")))
                    for l in lits(q.pc) if other(l.lstrip("!"))]
            good = len(cmpd) == 1 and is_first(cmpd[0][1], bb, K)
            if q.exit == "return":
                good = good and not cmpd[0][0] and q.ret == TRUE
            elif q.exit is None or q.exit in ("continue", "end"):
                good = good and cmpd[0][0]
            else:
                good = False
            ctx.ob("branch", good, where(fn), "a successor is compared under "
                   "%s and the search %s" % (sorted(K), q.exit or
                                             "continues"), fn.qn)
        if not any(other(l) for l in L):
            ctx.ob("branch", p.ret == FALSE, where(fn), "no successor matched"
                   " but %s is returned" % t2s(p.ret), fn.qn)


def edges(ctx, fn, ps):
    e = r"elem\(instructions\(\$0\)\)"
    dbg = re.compile(r"isa<DbgInfoIntrinsic>\(%s\)" % e)
    for p, t, L in require(ps, [
            ("loop", "instructions($0)"),
            ("loop", Pat(r"this\.getSuccsOf(?:Impl)?\(&?%s\)" % e)),
            ("ev", lambda it: pair_ok(it, e), "the edge is not recorded")],
            exempt=lambda L: IGN in L and any(dbg.fullmatch(x) for x in L)):
        ctx.ob("edges", False, where(fn), "%s when %s" % (t, sorted(L)),
               fn.qn)
    n = 0
    for it in items(ps):
        if added(it.ev) is None:
            continue
        n += 1
        ctx.ob("edges", pair_ok(it, e), it.ev.where(), "the recorded edge is "
               "%s" % it.ev.s()[:200], fn.qn)
        L = lits(it.pc)
        ctx.ob("edges", "!" + IGN in L or any(
            dbg.fullmatch(x[1:]) for x in L if x[0] == "!"), it.ev.where(),
            "edges of ignored instructions are reported", fn.qn)
    ctx.ob("edges", n > 0, where(fn), "no edge is reported", fn.qn)
    for p in ps:
        ctx.ob("edges", t2s(p.ret).startswith("~"), where(fn),
               "the edges are not returned", fn.qn)


def pair_ok(it, e):
    a = added(it.ev)
    if a is None:
        return False
    if len(a) == 1 and a[0][0] in ("ctor", "il"):
        a = a[0][2]
    return len(a) == 2 and Pat("&?" + e).ok(a[0]) and Pat(
        r"elem\(this\.getSuccsOf(?:Impl)?\(&?%s\)\)" % e).ok(a[1]) and \
        BASE not in str(a[1])


# ------------------------------------------------------------------- names
def names(ctx, F):
    """decoding a function name ends: every round of the search moves on"""
    for fn in F.find("psr::detail::LLVMBasedCFGImpl::"
                     "getSpecialMemberFunctionTypeImpl"):
        ps = live(ctx.summary(F, fn))
        seen = set()
        for p in ps:
            for e in p.ev:
                if e.kind == "loop":
                    progress(ctx, fn, e.loop, seen)
        for p in ps:
            if "($0 == null)" in lits(p.pc):
                ctx.ob("names", "None" in t2s(p.ret), where(fn), "no "
                       "function is a %s" % t2s(p.ret), fn.qn)


def progress(ctx, fn, l, seen):
    key = (l.line, l.kind)
    for it in items(l.paths):
        if it.ev.kind == "loop":
            progress(ctx, fn, it.ev.loop, seen)
    if key in seen or l.kind == "range":
        return
    seen.add(key)
    for k, vals, pc in l.carry:
        if k != "next":
            continue
        ok = any(v is None or t2s(v) != t2s(s) and
                 any(t2s(y) in t2s(v) for y in vals)
                 for s, v in vals.items())
        if not ok:
            # the variables that change become constants: the same round
            # must be impossible afterwards
            sub = {t2s(s): v[1] for s, v in vals.items()
                   if v is not None and t2s(v) != t2s(s) and v[0] == "int"}
            for x in lits(pc):
                for nm, c in sub.items():
                    # find(.., c) never yields a position below c
                    if c > 0 and re.fullmatch(
                            r"!.*\.find\(.*, %s\)" % re.escape(nm), x):
                        ok = True
        ctx.ob("names", ok, "%s:%d" % (rel(fn.file), l.line), "a round of "
               "the search changes nothing: it never ends (when %s)" %
               sorted(lits(pc))[:6], fn.qn)


# ---------------------------------------------------------------- backward
def backward(ctx, F):
    Q = "psr::LLVMBasedBackwardCFG::"
    RF = r"this\.BackwardRetToFunction"
    BR = r"this\.BackwardRets"
    known = Pat(RF + r" has \$0|\!?\(" + RF + r"\[\$0\] == null\)")

    def isret(L):
        for l in L:
            if re.fullmatch(RF + r" has \$0|!\(" + RF +
                            r"\[\$0\] == null\)|" + RF +
                            r"\.(?:count|contains)\(\$0\)", l):
                return True
            if re.fullmatch("!" + RF + r" has \$0|\(" + RF +
                            r"\[\$0\] == null\)", l):
                return False
        return None
    for fn in F.find(Q + "getFunctionOfImpl"):
        for p in summ(ctx, F, fn):
            L = mlits(p.pc)
            r = isret(L)
            s = m2s(p.ret)
            ok = re.fullmatch(RF + r"\[\$0\]", s) if r else \
                r is False and s in ("fwd_getFunctionOfImpl($0)",
                                     "$0.getFunction()")
            ctx.ob("bfun", ok, where(fn), "the function is %s when %s" % (
                s, sorted(L)), fn.qn)
    for fn in F.find(Q + "getPredsOfImpl"):
        for p in summ(ctx, F, fn):
            L = mlits(p.pc)
            r = isret(L)
            s = m2s(p.ret)
            ok = re.fullmatch(r"fwd_getStartPointsOfImpl\((?:%s\[\$0\]|this\."
                              r"getFunctionOf(?:Impl)?\(\$0\))\)" % RF, s) \
                if r else r is False and s == "fwd_getSuccsOfImpl($0)"
            ctx.ob("bpred", ok, where(fn), "the predecessors are %s when %s"
                   % (s, sorted(L)), fn.qn)
    for fn in F.find(Q + "getSuccsOfImpl"):
        for p in summ(ctx, F, fn):
            L = mlits(p.pc)
            r = isret(L)
            s = m2s(p.ret)
            base = "fwd_getPredsOfImpl($0)"
            fo = r"(?:fwd_getFunctionOfImpl\(\$0\)|\$0\.getFunction\(\)|" \
                 r"this\.getFunctionOf(?:Impl)?\(\$0\))"
            adds = [m2s(added(i.ev)[0]) for i in items([p]) if added(i.ev)]
            if r:
                o = outcome(p)
                ok = not (o.one or o.each or o.other)
            elif "empty(%s)" % base in L:
                nul = [l for l in L if re.fullmatch(
                    r"!?\(%s\[%s\] == null\)|!?%s has %s" % (BR, fo, BR, fo),
                    l)]
                no = any(re.match(r"\(|!this", l) for l in nul)
                if no:
                    ok = not adds
                else:
                    ok = bool(nul) and (
                        len(adds) == 1 and re.fullmatch(
                            r"%s\[%s\]" % (BR, fo), adds[0]) and s == base
                        or not adds and re.search(r"\{%s\[%s\]\}" % (BR, fo),
                                                  s))
            else:
                ok = r is False and "!empty(%s)" % base in L and not adds \
                    and s == base
            ctx.ob("bsucc", ok, where(fn), "the successors are %s + %s when "
                   "%s" % (s, adds, sorted(L)), fn.qn)
    for fn in F.find(Q + "getStartPointsOfImpl"):
        for p in summ(ctx, F, fn):
            ctx.ob("bstart", m2s(p.ret) == "fwd_getExitPointsOfImpl($0)",
                   where(fn), "the start points are %s" % m2s(p.ret), fn.qn)
    for fn in F.find(Q + "isStartPointImpl"):
        for p in live(ctx.summary(F, fn, stop=STOP)):
            ctx.ob("bstart", m2s(p.ret) in (
                "fwd_isExitInstImpl($0)", "isa<ReturnInst>($0)") and
                not mlits(p.pc), where(fn), "an instruction is a start point "
                "if %s" % m2s(p.ret), fn.qn)
    for fn in F.find(Q + "getExitPointsOfImpl"):
        for p in summ(ctx, F, fn):
            L = mlits(p.pc)
            o = outcome(p, m2s)
            emp = "empty(this.BackwardRets)" in L
            b = "this.BackwardRets[$0]"
            has = "!(%s == null)" % b in L or "this.BackwardRets has $0" in L
            no = "(%s == null)" % b in L or "!this.BackwardRets has $0" in L
            if has:
                ok = o.one == [b] and not o.each and not o.other
            elif emp:
                ok = o.one == ["*fwd_getStartPointsOfImpl($0)"]
            elif no:
                # unknown function: nothing, or its first instruction
                ok = not (o.one or o.each or o.other) or (
                    o.one == ["*fwd_getStartPointsOfImpl($0)"])
            else:
                ok = False
            ctx.ob("bexit", ok, where(fn), "the exit points are %s when %s" %
                   (show(o), sorted(L)), fn.qn)
    for fn in F.find(Q + "isExitInstImpl"):
        decide(ctx, "bexit", fn, live(ctx.summary(F, fn, stop=[
            s for s in STOP if s != "isExitInstImpl"])), {
            "none": Pat(r"empty\(this\.(?:BackwardRetToFunction|BackwardRets)"
                        r"\)"),
            "ret": RFHAS(RF), "nret": Pat(r"\(" + RF + r"\[\$0\] == null\)"),
            "start": Pat(r"this\.isStartPointImpl\(\$0\)")},
            lambda A: None if A["ret"] == A["nret"] or (
                A["ret"] and A["none"]) else
            A["start"] if A["none"] else A["ret"])
        for p in summ(ctx, F, fn):
            for k in list(p.pc) + [p.ret]:
                s = m2s(k) if k is not None else ""
                ctx.ob("bexit", "this.isStartPointImpl" not in s, where(fn),
                       "the start points of the backward graph decide about "
                       "its exits", fn.qn)
    for fn in F.find(Q + "isBranchTargetImpl"):
        for p in summ(ctx, F, fn):
            ctx.ob("bbranch", m2s(p.ret) == "fwd_isBranchTargetImpl($1, $0)",
                   where(fn), "branch targets are decided by %s" %
                   m2s(p.ret), fn.qn)
    for fn in F.find(Q + "getAllControlFlowEdgesImpl"):
        edges(ctx, fn, summ(ctx, F, fn))
    for fn in F.find(Q + "(ctor)"):
        if not fn.decl.pt or "ProjectIRDB" not in fn.decl.pt[0]:
            continue
        f = "elem($0.getAllFunctions())"
        ps = live(ctx.summary(F, fn, stop=STOP))

        def dec(L):
            return f + ".isDeclaration()" in L
        for obj, key in (("BackwardRets", 0), ("BackwardRetToFunction", 1)):
            def good(it):
                kv = stored(it, obj)
                if kv is None:
                    return False
                k, v = kv if key == 0 else kv[::-1]
                return k == f and v.startswith("ReturnInst::Create(")
            for p, t, L in require(ps, [
                    ("loop", "$0.getAllFunctions()"),
                    ("ev", good, "%s is not filled" % obj)], exempt=dec):
                ctx.ob("bctor", False, where(fn), "%s when %s" % (
                    t, sorted(L)), fn.qn)
            for it in items(ps):
                if stored(it, obj) is not None:
                    ctx.ob("bctor", good(it) and "!" + f +
                           ".isDeclaration()" in lits(it.pc), it.ev.where(),
                           "%s maps %s" % (obj, stored(it, obj)), fn.qn)
        # one artificial return per function
        for p in ps:
            for e in p.ev:
                if e.kind == "loop":
                    for q in e.loop.paths:
                        n = [i for i in items([q]) if i.ev.kind == "call" and
                             i.ev.name.endswith("ReturnInst::Create")]
                        ctx.ob("bctor", len(n) <= 1, where(fn), "%d "
                               "artificial returns per function" % len(n),
                               fn.qn)
            d = [i.ev.s() for i in items([p]) if re.match(
                r"this\.\((?:delegating|base)\)", i.ev.s())]
            ctx.ob("bctor", len(d) == 1 and "{$1}" in d[0], where(fn),
                   "debug instructions are treated by %s" % d, fn.qn)


def RFHAS(RF):
    return Pat(RF + r" has \$0|" + RF + r"\.(?:count|contains)\(\$0\)")


def stored(it, fld):
    """(key, value) that the event stores in the map member"""
    e = it.ev
    if e.kind == "write" and e.obj[0] == "idx" and \
            t2s(e.obj[1]) == "this." + fld:
        return t2s(e.obj[2]), t2s(e.args[0])
    if e.kind == "call" and e.obj is not None and t2s(e.obj) == \
            "this." + fld and last(e.name) in ADD:
        a = added(e)
        if a and len(a) == 2:
            return t2s(a[0]), t2s(a[1])
    return None


# ------------------------------------------------------------------- ICFGs
def front(ctx):
    F = ctx.facts(D + "LLVMBasedICFG.cpp")
    G = ctx.facts(D + "LLVMBasedBackwardICFG.cpp")
    for S, fns in ((F, F.find("psr::LLVMBasedICFG::allNonCallStartNodesImpl")
                    ), (G, G.find("psr::LLVMBasedBackwardICFG::"
                                  "allNonCallStartNodesImpl"))):
        for fn in fns:
            ps = live(ctx.summary(S, fn, stop=STOP))
            if [m2s(p.ret) for p in ps] == ["this.IRDB."
                                            "allNonCallStartNodes()"]:
                continue
            C = None
            for p in ps:
                for it in items([p]):
                    if added(it.ev) and it.loops:
                        C = [t2s(l.container) for l in it.loops if l.kind ==
                             "range"]
            ctx.ob("nodes", C is not None, where(fn), "no instruction is "
                   "reported", fn.qn)
            if C is None:
                continue
            x = "elem(%s)" % C[-1]
            call = Pat(r"(?:this\.)?isCallSite\(&?%(x)s\)|isa<CallBase>"
                       r"\(%(x)s\)" % {"x": re.escape(x)})
            st = Pat(r"this\.isStartPoint(?:Impl)?\(&?%s\)" % re.escape(x))
            dom = len(C) == 1 and C[0].endswith("getAllInstructions()") or \
                len(C) == 2 and C[0].endswith("getAllFunctions()") and (
                    C[1] in ("this.getAllInstructionsOf(elem(%s))" % C[0],
                             "instructions(elem(%s))" % C[0])) or \
                len(C) == 3 and C[0].endswith("getAllFunctions()") and \
                C[1] == "elem(%s)" % C[0] and C[2] == "elem(%s)" % C[1]
            ctx.ob("nodes", dom, where(fn), "the reported nodes come from "
                   "%s" % C, fn.qn)

            def ex(L):
                return any(call.ok(l) or st.ok(l) for l in L)
            for p, t, L in require(ps, [("loop", c) for c in C] + [
                    ("ev", lambda it: inserted(it, x), "a node is left out")],
                    exempt=ex):
                ctx.ob("nodes", False, where(fn), "%s when %s" % (
                    t, sorted(L)), fn.qn)
            for it in items(ps):
                if added(it.ev) and it.loops:
                    L = lits(it.pc)
                    ctx.ob("nodes", inserted(it, x) and any(
                        l[0] == "!" and call.ok(l[1:]) for l in L) and any(
                        l[0] == "!" and st.ok(l[1:]) for l in L),
                        it.ev.where(), "%s is reported when %s" % (
                            it.ev.s()[:100], sorted(L)), fn.qn)


def inserted(it, x):
    a = added(it.ev)
    return a is not None and len(a) == 1 and t2s(a[0]).lstrip("&") == x


# -------------------------------------------------------------- shorthands
class Body:
    """an iteration of a search, seen as a function: found or not"""

    def __init__(self, q):
        self.pc = q.pc
        self.ev = []
        self.exit = "return"
        self.ret = TRUE if q.exit == "return" else FALSE


def shorthands(ctx):
    F = ctx.facts("lib/PhasarLLVM/Utils/LLVMShorthands.cpp")
    for fn in F.find("psr::isGuardVariable"):
        op = "as<ConstantExpr>($0).getOperand(0)"

        def gv(A):
            c = A["ce"] and A["cast"]
            return A["gc"] and A["nc"] if c else A["g"] and A["n"]
        decide(ctx, "lazy", fn, ctx.summary(F, fn), {
            "ce": "isa<ConstantExpr>($0)",
            "cast": "as<ConstantExpr>($0).isCast()",
            "g": "isa<GlobalVariable>($0)",
            "gc": "isa<GlobalVariable>(%s)" % op,
            "n": Pat(r'as<GlobalVariable>\(\$0\)\.getName\(\)\.'
                     r'starts_?with\("_ZGV"\)'),
            "nc": Pat(r'as<GlobalVariable>\(%s\)\.getName\(\)\.'
                      r'starts_?with\("_ZGV"\)' % re.escape(op))}, gv)
    for fn in F.find("psr::isStaticVariableLazyInitializationBranch"):
        ps = live(ctx.summary(F, fn, stop=["isGuardVariable"]))
        cmp_ = "as<ICmpInst>($0.getCondition())"
        C = Pat(re.escape(cmp_) + r"\.(?:operand_values|operands)\(\)")
        n = 0
        for p in ps:
            L = lits(p.pc)
            no = {"$0.isUnconditional()", "!$0.isConditional()",
                  "!isa<ICmpInst>($0.getCondition())"} & L or any(
                re.fullmatch(r"!.*isEquality\(.*\)", l) for l in L)
            loops = [e.loop for e in p.ev if e.kind == "loop"]
            if no:
                ctx.ob("lazy", p.ret == FALSE, where(fn), "%s when %s" % (
                    t2s(p.ret), sorted(L)), fn.qn)
                continue
            eq = any(re.fullmatch(r"(?:ICmpInst::isEquality\(%(c)s\."
                                  r"getPredicate\(\)\)|%(c)s\.isEquality\(\))"
                                  % {"c": re.escape(cmp_)}, l) for l in L)
            ok = len(loops) == 1 and loops[0].kind == "range" and \
                C.ok(loops[0].container) and eq
            ctx.ob("lazy", ok, where(fn), "no search through both operands "
                   "of the equality when %s" % sorted(L)[:5], fn.qn)
            if not ok:
                continue
            n += 1
            x = "elem(%s)" % t2s(loops[0].container)
            if n == 1:
                f = "as<CallBase>(%s).getCalledFunction()" % x
                decide(ctx, "lazy", fn, [Body(q) for q in live(
                    loops[0].paths) if q.exit in (None, "return", "continue")
                    ], {
                    "ld": "isa<LoadInst>(%s)" % x,
                    "at": "as<LoadInst>(%s).isAtomic()" % x,
                    "gv": "isGuardVariable(as<LoadInst>(%s)."
                    "getPointerOperand())" % x,
                    "ca": "isa<CallBase>(%s)" % x,
                    "nf": "(%s == null)" % f,
                    "acq": Pat(r'\(%(f)s\.getName\(\) == '
                               r'"__cxa_guard_acquire"\)|'
                               r'\("__cxa_guard_acquire" == '
                               r'%(f)s\.getName\(\)\)' %
                               {"f": re.escape(f)})},
                    lambda A: None if A["ld"] and A["ca"] else
                    (A["ld"] and A["at"] and A["gv"]) or
                    (A["ca"] and not A["nf"] and A["acq"]),
                    what="the operand search")
                for q in loops[0].paths:
                    ctx.ob("lazy", q.exit not in ("break",), where(fn),
                           "the search stops early", fn.qn)
            hit = any("isGuardVariable" in l and l[0] != "!" or
                      "__cxa_guard_acquire" in l and l[0] != "!" for l in L)
            ctx.ob("lazy", p.ret == (TRUE if hit else FALSE), where(fn),
                   "%s is returned when %s" % (t2s(p.ret), sorted(L)[:6]),
                   fn.qn)
        ctx.ob("lazy", n > 0, where(fn), "no branch is recognised", fn.qn)
    for fn in F.find("psr::appendAllExitPoints"):
        ps = live(ctx.summary(F, fn))
        t = r"elem\(\$0\)\.getTerminator\(\)"

        def inner(L):
            return "($0 == null)" in L or any(re.fullmatch(
                r"!isa<ReturnInst>\(%s\)" % t, l) for l in L) and any(
                re.fullmatch(r"!isa<ResumeInst>\(%s\)" % t, l) for l in L)
        for p, w, L in require(ps, [("loop", "$0"), (
                "ev", lambda it: inserted(it, "elem($0).getTerminator()"),
                "an exit is left out")], exempt=inner):
            ctx.ob("exit", False, where(fn), "%s when %s" % (w, sorted(L)),
                   fn.qn)
        k = 0
        for it in items(ps):
            if added(it.ev):
                k += 1
                L = lits(it.pc)
                ctx.ob("exit", inserted(it, "elem($0).getTerminator()") and
                       any(re.fullmatch(r"isa<Re(?:turn|sume)Inst>\(%s\)" %
                                        t, l) for l in L), it.ev.where(),
                       "%s is no exit when %s" % (it.ev.s()[:100],
                                                  sorted(L)), fn.qn)
        ctx.ob("exit", k > 0, where(fn), "no exit is reported", fn.qn)
    for fn in F.find("psr::getAllExitPoints"):
        for p in live(ctx.summary(F, fn, stop=["appendAllExitPoints"])):
            c = [[t2s(a) for a in i.ev.args] for i in items([p])
                 if call_is(i, "appendAllExitPoints")]
            ctx.ob("exit", len(c) == 1 and c[0][0] == "$0" and
                   c[0][1] == t2s(p.ret), where(fn), "the exit points come "
                   "from %s" % c, fn.qn)
