"""P09: the call graph is consistent and complete with respect to its
resolver."""
from spec import *

EXPLAIN = ("Path obligations, decision tables and allowed-effect rules over "
           "the dataflow summaries of the call-graph container (both edge "
           "directions, serialisation), the worklist construction, every "
           "call-target resolver, the entry-point selection, the vtable "
           "lookup and the ICFG front ends.")
D = "lib/PhasarLLVM/ControlFlow/"
R = D + "Resolver/"


REMOVE = ("clear", "erase", "pop_back", "pop_back_val", "resize", "truncate",
          "assign", "shrink_and_clear", "remove_if", "erase_if", "set_size")


def live(ps):
    return [p for p in ps if p.exit not in ("noreturn", "throw")]


def sets(p, *names):
    """flat list of (obj, args) of insertion events outside loops"""
    return [(t2s(i.ev.obj), tuple(t2s(a) for a in i.ev.args), i)
            for i in items([p]) if not i.loops and i.ev.kind == "call" and
            i.ev.obj is not None and last(i.ev.name) in (names or ADD)]


def inserted(it, val, into=None):
    a = added(it.ev)
    if a is None or len(a) != 1:
        return False
    if into is not None and not pat(into).ok(it.ev.obj):
        return False
    return pat(val).ok(a[0])


def run(ctx):
    F = ctx.facts("callgraph.cpp")
    graph(ctx, F)
    B = ctx.facts(D + "LLVMBasedCallGraphBuilder.cpp")
    builder(ctx, B)
    resolvers(ctx)
    entries(ctx)
    fronts(ctx)
    vtables(ctx)


# ---------------------------------------------------------------- container
CALLEES = r"this\.CG\.(?:CalleesAt\[%s\]|InstVertexOwner\.emplace_back\(\))"
CALLERS = r"this\.CG\.(?:CallersOf\[%s\]|FunVertexOwner\.emplace_back\(\))"


def graph(ctx, F):
    CB = "psr::CallGraphBuilder::"
    for fn in F.find(CB + "addCallEdge"):
        n = f = iv = fv = None
        for i, t in enumerate(fn.decl.pt):
            t = t.replace("psr::", "")
            if "Instruction *" in t and "Vector" not in t and "<" not in t:
                n = i
            elif "Function *" in t and "<" not in t:
                f = i
            elif "Function *" in t:
                iv = i
            elif "Instruction *" in t:
                fv = i
        if n is None or f is None:
            ctx.ob("edge", False, where(fn), "unknown overload %s" %
                   fn.decl.pt)
            continue
        ce = Pat(r"\$%d" % iv if iv is not None else
                 CALLEES % (r"\$%d" % n))
        cr = Pat(r"\$%d" % fv if fv is not None else CALLERS % (r"\$%d" % f))
        for p in live(ctx.summary(F, fn)):
            ps = [(o, a) for o, a, _ in sets(p, "push_back", "emplace_back",
                                             "insert") if a]
            ctx.ob("edge", len(ps) == 2 and
                   sum(ce.ok(o) and a == ("$%d" % f,) for o, a in ps) == 1 and
                   sum(cr.ok(o) and a == ("$%d" % n,) for o, a in ps) == 1,
                   where(fn), "an edge must appear once among the callees of "
                   "the call site and once among the callers of the function;"
                   " got %s" % ps, str(fn.decl.pt))
            gone = [i.ev.s()[:80] for i in items([p]) if i.ev.kind == "call"
                    and last(i.ev.name) in REMOVE and i.ev.obj is not None]
            ctx.ob("edge", not gone, where(fn), "adding an edge removes "
                   "others: %s" % gone, str(fn.decl.pt))
            for o, a, it in sets(p, "try_emplace", "emplace", "insert"):
                if o.endswith(("CalleesAt", "CallersOf")):
                    want = "$%d" % (n if o.endswith("At") else f)
                    ctx.ob("edge", a[0] == want, where(fn),
                           "%s is looked up with %s" % (o, a[0]))
    for nm, m, own in (("addFunctionVertex", "CallersOf", "FunVertexOwner"),
                       ("addInstructionVertex", "CalleesAt",
                        "InstVertexOwner")):
        for fn in F.find(CB + nm):
            for p in live(ctx.summary(F, fn)):
                new = "this.CG.%s.emplace_back()" % own
                te = "this.CG.%s.try_emplace($0, null)" % m
                L = lits(p.pc)
                w = [(t2s(i.ev.obj), t2s(i.ev.args[0])) for i in items([p])
                     if i.ev.kind == "write"]
                if te + ".second" in L or "!this.CG.%s has $0" % m in L:
                    ok = t2s(p.ret) == "&" + new and any(
                        m in o and v == "&" + new for o, v in w)
                else:
                    ok = t2s(p.ret) == "this.CG.%s[$0]" % m and not w
                ctx.ob("vertex", ok, where(fn), "%s must return the one "
                       "registered vertex of its key; returns %s after %s" % (
                           nm, t2s(p.ret), w))
    for fn in F.find(CB + "getInstVertexOrNull"):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("lookup", t2s(p.ret) == "this.CG.CalleesAt[$0]", where(fn),
                   "returns %s" % t2s(p.ret))
    for nm in ("consumeCallGraph", "viewCallGraph"):
        for fn in F.find(CB + nm):
            for p in live(ctx.summary(F, fn)):
                ctx.ob("lookup", t2s(p.ret) == "this.CG", where(fn),
                       "returns %s" % t2s(p.ret))
    for nm, m in (("getCalleesOfCallAtImpl", "CalleesAt"),
                  ("getCallersOfImpl", "CallersOf")):
        for fn in F.find("psr::CallGraph::" + nm):
            decide(ctx, "lookup", fn, ctx.summary(F, fn),
                   {"none": "(this.%s[$0] == null)" % m},
                   lambda A: Pat(r"ArrayRef\{.*\}") if A["none"] else
                   pat("*this.%s[$0]" % m))
    V = "psr::CallGraph::"
    for nm, m in (("getAllVertexFunctions", "CallersOf"),
                  ("getAllVertexCallSites", "CalleesAt"),
                  ("getNumVertexFunctions", "CallersOf"),
                  ("getNumVertexCallSites", "CalleesAt")):
        for fn in F.find(V + nm):
            for p in live(ctx.summary(F, fn)):
                ctx.ob("lookup", t2s(p.ret) == (
                    "make_first_range(this.%s)" if "All" in nm else
                    "this.%s.size()") % m, where(fn), "returns " + t2s(p.ret))
    # ---- serialisation
    for fn in F.find(V + "deserialize"):
        deserialize(ctx, F, fn)
    for fn in F.find(V + "printAsJson"):
        ps = ctx.summary(F, fn)
        M = "this.CallersOf"
        key = Pat(r"std::invoke\(\$1, elem\(this\.CallersOf\)\.first\)")
        data = Pat(r"(?:~?\w+|\w+\{\})(?:\.FToFunctionVertexTy)?\[" + key.rx +
                   r"\]")

        def reg(it):
            e = it.ev
            return e.kind == "call" and last(e.name) in (
                "operator[]", "try_emplace", "emplace", "insert") and \
                len(e.args) >= 1 and key.ok(e.args[0])
        miss = require(ps, [("loop", M), ("ev", reg, "a function is left out "
                                          "of the serialized call graph")])
        for p, t, L in miss:
            ctx.ob("json", False, where(fn), "%s when %s" % (t, sorted(L)))
        ctx.ob("json", True, where(fn), "every vertex function is written")
        val = Pat(r"std::invoke\(\$2, elem\(.*elem\(this\.CallersOf\)\.second"
                  r"\)\)")
        miss = require(ps, [("loop", M), ("loop", Pat(
            r"\*?elem\(this\.CallersOf\)\.second")), (
            "ev", lambda it: inserted(it, val, data),
            "a caller is not written to the entry of its function")])
        for p, t, L in miss:
            ctx.ob("json", False, where(fn), "%s when %s" % (t, sorted(L)))
        ctx.ob("json", True, where(fn), "every caller is written")
        for p in live(ps):
            ctx.ob("json", any(call_is(i, "printAsJson") and t2s(
                i.ev.args[0]) == "$0" for i in items([p])), where(fn),
                "the data is not printed")


def deserialize(ctx, F, fn):
    ps = live(ctx.summary(F, fn, stop=["addCallEdge", "addFunctionVertex"]))
    fun = Pat(r"std::invoke\(\$1, elem\(\$0\.FToFunctionVertexTy\)\.first\)")
    inst = Pat(r"std::invoke\(\$2, elem\(elem\(\$0\.FToFunctionVertexTy\)"
               r"\.second\)\)")
    nofun = pat("({f} == null)", f=fun)
    noin = pat("({f} == null)", f=inst)

    def ex(L):
        return any(nofun.ok(x) or noin.ok(x) for x in L)

    def vertex(it):
        return call_is(it, "addFunctionVertex") and fun.ok(it.ev.args[0])

    def edge(it):
        e = it.ev
        return call_is(it, "addCallEdge") and inst.ok(e.args[0]) and \
            fun.ok(e.args[1] if len(e.args) == 2 or "Vertex" in t2s(
                e.args[2]) or fun.ok(e.args[1]) else e.args[2])
    M = "$0.FToFunctionVertexTy"
    for step in ([("loop", M), ("ev", vertex, "a stored function is not "
                                "registered")],
                 [("loop", M), ("loop", Pat(r"elem\(\$0\.FToFunctionVertexTy"
                                            r"\)\.second")),
                  ("ev", edge, "a stored call edge is not restored")]):
        miss = require(ps, step, exempt=ex)
        for p, t, L in miss:
            ctx.ob("deserialize", False, where(fn), "%s when %s" % (
                t, sorted(L)))
        ctx.ob("deserialize", True, where(fn), step[-1][2])
    for it in items(ps):
        e = it.ev
        if call_is(it, "addCallEdge"):
            L = lits(it.pc)
            ctx.ob("deserialize", any(x[0] == "!" and noin.ok(x[1:])
                                      for x in L), e.where(), "an edge with "
                   "an unknown call instruction (null) is added")
        if call_is(it, "addCallEdge") or call_is(it, "addFunctionVertex"):
            L = lits(it.pc)
            ctx.ob("deserialize", any(x[0] == "!" and nofun.ok(x[1:])
                                      for x in L), e.where(), "an unknown "
                   "function (null) is added")
    # room for all function vertices: pointers into the owner must stay valid
    for p in ps:
        ctx.ob("deserialize", any(
            call_is(i, "reserve") and t2s(i.ev.args[0]) ==
            "$0.FToFunctionVertexTy.size()" for i in items([p])), where(fn),
            "no capacity is reserved for the function vertices")


# ---------------------------------------------------------------- worklist
def builder(ctx, F):
    pf = [f for f in F.all_fns() if f.qn.endswith("::processFunction")]
    cd = [f for f in F.all_fns() if f.qn.endswith("::constructDynamicCall")]
    bc = [f for f in F.all_fns() if f.qn.endswith("::buildCallGraph")]
    iw = [f for f in F.all_fns() if f.qn.endswith("::initWorkList")]
    if not (pf and cd and bc):
        raise CheckError("call graph builder not found")
    process(ctx, F, pf[0])
    dynamic(ctx, F, cd[0])
    fixpoint(ctx, F, bc[0])
    for fn in iw:
        for p in live(ctx.summary(F, fn)):
            ok = any(call_is(i, "append") and t2s(i.ev.obj) ==
                     "this.FunctionWL" and [t2s(a) for a in i.ev.args] in (
                         ["begin($0)", "end($0)"], ["$0"])
                     for i in items([p])) or any(
                         t2s(i.ev.obj) == "this.FunctionWL" and
                         i.ev.kind == "write" for i in items([p]))
            if not ok:
                ok = not require([p], [("loop", "$0"), (
                    "ev", lambda it: inserted(it, "elem($0)",
                                              "this.FunctionWL"), "")])
            ctx.ob("entry", ok, where(fn), "not every entry point is put on "
                   "the worklist")
            ctx.ob("capacity", any(
                call_is(i, "reserve") and "CGBuilder" in t2s(i.ev.obj) and
                t2s(i.ev.args[0]) == "this.IRDB.getNumFunctions()"
                for i in items([p])), where(fn), "no capacity for all "
                "function vertices is reserved: pointers to them may dangle")
    for fn in F.find("psr::buildLLVMBasedCallGraph"):
        pt = fn.decl.pt
        if "Resolver" in pt[1]:
            continue
        top = ctx.summary(F, fn, stop=["buildLLVMBasedCallGraph", "create"])
        for p in live(top):
            for i in items([p]):
                if call_is(i, "create"):
                    a = [t2s(x) for x in i.ev.args]
                    L = lits(i.pc)
                    own = "($%d.VT == null)" % (len(pt) - 2) in L and \
                        "($1 == CallGraphAnalysisType::OTF)" in L
                    exp = Pat(r"\*?AliasInfo\{std::make_unique<LLVMAliasSet>"
                              r"\(&?\$0.*") if own else Pat(
                                  r"\$%d" % (len(pt) - 2))
                    ctx.ob("resolver", len(a) >= 5 and a[0] == "$1" and
                           exp.ok(a[4]), i.ev.where(), "the resolver must be "
                           "created for the requested kind with the given "
                           "alias information; got (%s)" % ", ".join(a))
                    ctx.ob("resolver", a[1] == "&$0" and
                           a[2] == "&$%d" % (len(pt) - 3) and
                           a[3] == "&$%d" % (len(pt) - 4), i.ev.where(),
                           "the resolver is created with %s" % a)


def process(ctx, F, fn):
    ps = live(ctx.summary(F, fn, stop=["addCallEdge", "addFunctionVertex",
                                       "addInstructionVertex"]))
    w = where(fn)
    INS = "instructions($0)"
    E = "elem(instructions($0))"
    CS = r"(?:as<CallBase>\(elem\(instructions\(\$0\)\)\)|&elem\(" \
         r"instructions\(\$0\)\))"
    skip = {"$0.isDeclaration()"}
    vis = Pat(r"!(?:this\.\w+\.insert\(\$0\)\.second)|this\.\w+ has \$0")
    n = 0
    for p in ps:
        L = lits(p.pc)
        if L & skip or any(vis.ok(x) for x in L):
            bad = [i.ev.s()[:80] for i in effects(p) if "insert" not in
                   i.ev.s()]
            ctx.ob("visit", not bad, w, "a function that needs no visit has "
                   "effects %s" % bad)
            continue
        n += 1
        ctx.ob("visit", any(call_is(i, "insert") and t2s(i.ev.args[0]) ==
                            "$0" for i in items([p]) if not i.loops), w,
               "the function is not marked as visited: recursion does not "
               "terminate or it is visited twice")
        ctx.ob("vertex", any(call_is(i, "addFunctionVertex") and
                             t2s(i.ev.args[0]) == "$0" for i in items([p])
                             if not i.loops), w,
               "a visited function gets no vertex")
    ctx.ob("visit", n > 0, w, "no path visits the function")
    body = [p for p in ps if not (lits(p.pc) & skip or
                                  any(vis.ok(x) for x in lits(p.pc)))]
    isc = "isa<CallBase>(%s)" % E

    def notcall(L):
        return "!" + isc in L
    steps = (
        ("a call site gets no vertex",
         lambda it: call_is(it, "addInstructionVertex") and
         Pat(CS).ok(it.ev.args[0])),
        ("the resolver does not see the targets of a call",
         lambda it: call_is(it, "handlePossibleTargets") and
         Pat(CS).ok(it.ev.args[0])),
        ("the resolver is not told about a call",
         lambda it: call_is(it, "preCall")))
    for t, f in steps:
        miss = require(body, [("loop", INS), ("ev", f, t)], exempt=notcall)
        for p, m, L in miss:
            ctx.ob("call", False, w, "%s when %s" % (m, sorted(L)))
        ctx.ob("call", True, w, t)
    miss = require(body, [("loop", INS), (
        "ev", lambda it: call_is(it, "otherInst"), "the resolver is not "
        "told about an instruction")], exempt=lambda L: isc in L)
    for p, m, L in miss:
        ctx.ob("call", False, w, "%s when %s" % (m, sorted(L)))
    # targets per call kind; each becomes an edge and is visited
    callee = Pat(CS + r"\.getCalledFunction\(\)")
    strip_ = Pat(CS + r"\.getCalledOperand\(\)\.stripPointerCastsAndAliases"
                 r"\(\)")
    loops = [e.loop for p in body for e in p.ev if e.kind == "loop" and
             covers(e.loop, INS)]
    for lp in loops:
        for q in lp.paths:
            L = lits(q.pc)
            if "!" + isc in L or q.exit in ("noreturn", "throw"):
                continue
            src = []       # what the target set is filled with
            order = []
            tgt = None
            for it in items([q]):
                e = it.ev
                if it.loops:
                    continue
                if e.kind == "loop":
                    order.append(("loop", e))
                    continue
                if e.kind == "call" and last(e.name) in ("insert", "emplace") \
                        and e.args and (callee.ok(e.args[0]) or pat(
                            ["as<Function>({s})", "{s}"],
                            s=strip_).ok(e.args[0])):
                    src.append("static")
                    tgt = t2s(e.obj)
                if call_is(it, "resolveIndirectCall") and Pat(CS).ok(
                        e.args[0]):
                    src.append("dynamic")
                if e.kind == "write" and "resolveIndirectCall" in t2s(
                        e.args[0]) and e.obj is not None and \
                        "IndirectCalls" not in t2s(e.obj):
                    tgt = t2s(e.obj)
                if call_is(it, "clear"):
                    order.append(("clear", e))
            st = any(x[0] == "!" and pat("({c} == null)", c=callee).ok(x[1:])
                     for x in L)
            cast = any(pat("isa<Function>({s})", s=strip_).ok(x) for x in L)
            asm = any(pat("isa<InlineAsm>({s})", s=strip_).ok(x) for x in L)
            want = (["static"] if st or cast else [] if asm else ["dynamic"])
            ctx.ob("targets", src == want, w, "the targets of a call come "
                   "from %s, expected %s when %s" % (src, want, sorted(L)))
            if want == ["dynamic"]:
                ctx.ob("targets", any(
                    (i.ev.kind == "write" and Pat(
                        r"this\.IndirectCalls\[%s\]" % CS).ok(i.ev.obj) and
                     Pat(r".*size\(\)").ok(i.ev.args[0])) or
                    (call_is(i, "try_emplace") or call_is(i, "insert") or
                     call_is(i, "emplace") or
                     call_is(i, "insert_or_assign")) and "IndirectCalls" in
                    t2s(i.ev.obj) for i in items([q])), w, "an indirect call "
                    "is not remembered for the fixpoint")
            if want == []:
                continue
            es = [e for k, e in order if k == "loop" and any(
                call_is(i, "addCallEdge") for i in items(e.loop.paths))]
            ctx.ob("edges", len(es) == 1, w, "no loop adds the call edges "
                   "when %s" % sorted(L))
            for e in es:
                lo = e.loop
                cont = t2s(lo.container)
                ctx.ob("edges", lo.kind == "range" and (
                    tgt is None or cont == tgt or tgt in cont), w,
                    "edges are added for %s, the targets are in %s" % (
                        cont, tgt))
                for r in lo.paths:
                    el = "elem(%s)" % cont
                    x = [i for i in items([r]) if call_is(i, "addCallEdge")]
                    ok = len(x) == 1 and Pat(CS).ok(x[0].ev.args[0]) and \
                        t2s(x[0].ev.args[-1] if len(x[0].ev.args) == 2 or
                            "Vertex" in t2s(x[0].ev.args[1])
                            else x[0].ev.args[1]) == el
                    ctx.ob("edges", ok and r.exit in (None, "continue"), w,
                           "each target of a call needs one edge from it; "
                           "got %s (leaving by %s)" % (
                               [i.ev.s() for i in x], r.exit))
                    ctx.ob("edges", any(
                        inserted(i, Pat(re.escape(el)), "this.FunctionWL")
                        for i in items([r])), w, "a possible callee is not "
                        "put on the worklist")
                # stale targets must not leak into the next call site
                if tgt is not None:
                    after = False
                    seen = False
                    for k, v in order:
                        if v is e:
                            seen = True
                        elif k == "clear" and t2s(v.obj) == tgt and seen:
                            after = True
                    if want == ["static"]:
                        ctx.ob("edges", after or fresh(q, tgt), w,
                               "the targets of a call leak into the next "
                               "call site")


def fresh(q, tgt):
    """the target set is emptied/created before it is filled"""
    for it in items([q]):
        e = it.ev
        if it.loops:
            continue
        if call_is(it, "clear") and t2s(e.obj) == tgt:
            return True
        if e.kind == "call" and e.name.startswith("init"):
            return True
        if e.kind == "call" and last(e.name) == "insert" and \
                t2s(e.obj) == tgt:
            return False
    return False


def dynamic(ctx, F, fn):
    ps = live(ctx.summary(F, fn, stop=["addCallEdge"]))
    w = where(fn)
    CS = r"(?:as<CallBase>\(\$0\)|\$0)"
    RES = r"this\.Res\.resolveIndirectCall\(%s\)" % CS
    new = [Pat(r"\(this\.IndirectCalls\[%s\] < %s\.size\(\)\)" % (CS, RES))]
    for p in ps:
        L = lits(p.pc)
        ed = [i for i in items([p]) if call_is(i, "addCallEdge")]
        more = any(q.ok(x) for q in new for x in L)
        less = any(q.ok(x[1:]) for q in new for x in L if x[0] == "!")
        if p.ret == FALSE:
            ctx.ob("dynamic", not ed, w, "edges are added but no new targets "
                   "are reported: the fixpoint ends too early")
            bad = [i.ev.s()[:60] for i in items([p]) if call_is(
                i, "handlePossibleTargets")]
            ctx.ob("dynamic", less or bad == [] and not more, w, "new targets "
                   "are dropped when %s" % sorted(L))
            ctx.ob("dynamic", less, w, "targets are ignored when %s" %
                   sorted(L))
            continue
        ctx.ob("dynamic", p.ret == TRUE, w, "returns %s" % t2s(p.ret))
        hp = [i for i in items([p]) if call_is(i, "handlePossibleTargets")]
        ctx.ob("dynamic", len(hp) == 1 and Pat(CS).ok(hp[0].ev.args[0]), w,
               "the resolver does not see the new targets")
        lo = [e.loop for e in p.ev if e.kind == "loop" and any(
            call_is(i, "addCallEdge") for i in items(e.loop.paths))]
        ctx.ob("dynamic", len(lo) == 1 and lo[0].kind == "range" and
               Pat(RES).ok(lo[0].container), w,
               "edges are not added for every new target")
        for l in lo:
            el = "elem(%s)" % t2s(l.container)
            for r in l.paths:
                x = [i for i in items([r]) if call_is(i, "addCallEdge")]
                known = any("has" in y or "contains" in y for y in
                            lits(r.pc))
                ctx.ob("dynamic", known or len(x) == 1 and Pat(CS).ok(
                    x[0].ev.args[0]) and el in [t2s(a) for a in
                                                x[0].ev.args] and
                    any(inserted(i, Pat(re.escape(el)), "this.FunctionWL")
                        for i in items([r])) and r.exit is None, w,
                    "a new target gets no edge or is not visited")
        ctx.ob("dynamic", any(
            i.ev.kind == "write" and not i.loops and
            re.fullmatch(r"this\.IndirectCalls\[%s\]" % CS, t2s(i.ev.obj or
                         i.ev.args[0])) for i in items([p])), w,
            "the number of known targets is not updated: the fixpoint is "
            "never reached")
        # targets that already have an edge are excluded
        er = [i for i in items([p]) if i.loops and call_is(i, "erase") and
              Pat(RES).ok(i.ev.obj)]
        ctx.ob("dynamic", any(t2s(i.ev.args[0]) == "elem(%s)" % t2s(
            i.loops[-1].container) and "CalleesAt" in t2s(
                i.loops[-1].container) for i in er) or known_check(lo), w,
            "edges that exist already are added again")


def known_check(lo):
    return any("has" in y for l in lo for r in l.paths for y in lits(r.pc))


def mono(lp, sym, bad):
    """does the loop keep the flag `sym`: after an iteration in which `bad`
    (a pattern of a literal) is true the flag has the `change` polarity and it
    never goes back? Returns the polarity of "nothing changed" or None."""
    for clean in (True, False):
        ok = True
        for k, vals, pc in lp.carry:
            if k != "next":
                continue
            nv = vals.get(sym)
            L = lits(pc)
            hit = [x for x in L if bad.ok(x.lstrip("!"))]
            for cur in (clean, not clean):
                for b in ((True, False) if not hit else
                          (not hit[0].startswith("!"),)):
                    A = {"cur": cur, "bad": b}
                    g = evb(nv, {"cur": (pat(t2s(sym)), True),
                                 "bad": (bad, True)}, A)
                    # the literal of the flag itself may be on the path
                    pin = [x for x in L if x.lstrip("!") == t2s(sym)]
                    if pin and (not pin[0].startswith("!")) != cur:
                        continue
                    dirty = b or cur != clean
                    if dirty and g != (not clean):
                        ok = False
        if ok:
            return clean
    return None


def fixpoint(ctx, F, fn):
    """the construction stops only when the worklist is empty and, if the
    resolver can change its mind, no indirect call got new targets in the
    last round"""
    ps = live(ctx.summary(F, fn, stop=["processFunction",
                                       "constructDynamicCall"]))
    w = where(fn)
    EMPTY = "empty(this.FunctionWL)"
    dyn = Pat(r"this\.constructDynamicCall\(elem\(this\.IndirectCalls\)"
              r"\.first\)")
    unsound = "($0 == Soundness::Unsound)"
    mut = "this.Res.mutatesHelperAnalysisInformation()"
    for p in ps:
        L = lits(p.pc)
        needs = "!" + unsound in L and mut in L
        nope = unsound in L or "!" + mut in L
        ctx.ob("fixpoint", needs or nope, w, "it is not decided whether "
               "indirect calls must be reconsidered when %s" % sorted(L))
        outer = [e.loop for e in p.ev if e.kind == "loop" and any(
            call_is(i, "processFunction") for i in items(e.loop.paths))]
        ctx.ob("fixpoint", len(outer) == 1, w, "no worklist loop")
        if len(outer) != 1:
            continue
        o = outer[0]
        for q in o.paths:
            if q.exit in ("noreturn", "throw"):
                continue
            drain = [e.loop for e in q.ev if e.kind == "loop" and any(
                call_is(i, "processFunction") for i in items(e.loop.paths))]
            if not drain:
                drain = [o]
            for d in drain:
                ctx.ob("fixpoint", bool(d.exits) and all(
                    EMPTY in lits(pc) for pc in d.exits) or d is o, w,
                    "the worklist loop stops before the worklist is empty")
                for r in d.paths:
                    x = [i for i in items([r]) if call_is(
                        i, "processFunction")]
                    ctx.ob("fixpoint", len(x) == 1 and Pat(
                        r"this\.FunctionWL\.(?:pop_back_val|back|pop_back)"
                        r"\(\)").ok(x[0].ev.args[0]) or r.exit, w,
                        "a function taken from the worklist is not processed")
            if nope and not needs:
                continue
            ind = [e.loop for e in q.ev if e.kind == "loop" and covers(
                e.loop, "this.IndirectCalls")]
            ctx.ob("fixpoint", len(ind) == 1 and all(
                sum(call_is(i, "constructDynamicCall") for i in
                    items([r])) == 1 and r.exit is None
                for l in ind for r in l.paths), w, "not every indirect call "
                "is reconsidered")
            if len(ind) != 1:
                continue
            ind = ind[0]
            pos = [i for i, e in enumerate(q.ev) if e.kind == "loop" and
                   e.loop is ind][0]
            dpos = max(i for i, e in enumerate(q.ev) if e.kind == "loop" and
                       e.loop in drain) if drain != [o] else -1
            ctx.ob("fixpoint", dpos < pos, w, "indirect calls are reconsidered"
                   " before the worklist is empty")
            # which flag ends the outer loop?
            good = False
            why = "no flag"
            for sym, ent in ind.entry.items():
                clean = mono(ind, sym, dyn)
                if clean is None:
                    why = "the flag forgets that a call got new targets"
                    continue
                ends = [pc for k, v, pc in o.carry if k == "exit"]
                fl = ("" if clean else "!") + t2s(sym)
                if ends and all(fl in lits(pc) for pc in ends):
                    good = True
                else:
                    why = "the loop ends although a call got new targets"
            ctx.ob("fixpoint", good, w, "reconsidering indirect calls: " +
                   why)


# --------------------------------------------------------------- resolvers
VT = r"(?:this\.(?:\w+::)*getNonPureVirtualVFTEntry\(%s, " \
     r"\*?(?:getVFTIndex\(\$0\))(?:\.value\(\))?, \$0\))"


def complete(ctx, F, fn, loops, val, exempt, what, stop, into=None):
    ps = live(ctx.summary(F, fn, stop=stop))
    steps = [("loop", l) for l in loops] + [
        ("ev", lambda it: inserted(it, val, into), what)]
    ex = [Pat(x) if isinstance(x, str) else x for x in exempt]
    miss = require(ps, steps, exempt=lambda L: any(
        e.ok(x) for e in ex for x in L))
    for p, t, L in miss:
        ctx.ob("complete", False, where(fn), "%s when %s" % (t, sorted(L)),
               fn.qn)
    ctx.ob("complete", True, where(fn), what, fn.qn)
    return ps


def resolvers(ctx):
    STOP = ["getVFTIndex", "getReceiverType", "getNonPureVirtualVFTEntry",
            "isConsistentCall", "isVirtualCall", "getVFVectorFromIRVTable"]
    F = ctx.facts(R + "Resolver.cpp")
    noidx = r"!truthy\(getVFTIndex\(\$0\)\)"
    # dispatch
    for fn in F.find("psr::Resolver::resolveIndirectCall"):
        decide(ctx, "dispatch", fn, ctx.summary(F, fn, stop=STOP),
               {"novtp": "(this.VTP == null)",
                "virt": "isVirtualCall($0, *this.VTP)"},
               lambda A: None if A["novtp"] and A["virt"] else pat(
                   "this.resolveVirtualCall($0)" if A["virt"] else
                   "this.resolveFunctionPointer($0)"), pure=False)
    fs = "this.IRDB.getAllFunctions()"
    el = r"elem\(this\.IRDB\.getAllFunctions\(\)\)"
    for fn in F.find("psr::Resolver::resolveFunctionPointer"):
        ps = complete(ctx, F, fn, [fs], Pat(el), [
            "!" + el + r"\.hasAddressTaken\(.*\)",
            r"!isConsistentCall\(\$0, " + el + r"\)"],
            "an address-taken function with a matching signature is no "
            "target", STOP)
        consistent(ctx, fn, ps)
    # vtable entries
    T = r"this\.VTP\.getVFTableOrNull\(\$0\)\.getFunction\(\$1\)"
    for fn in F.find("psr::Resolver::getNonPureVirtualVFTEntry"):
        decide(ctx, "vft-entry", fn, ctx.summary(F, fn, stop=STOP), {
            "novtp": "(this.VTP == null)",
            "notab": "(this.VTP.getVFTableOrNull($0) == null)",
            "nof": Pat(r"\(%s == null\)" % T),
            "pure": Pat(r"\(%s\.getName\(\) == @?.*PureVirtualCallName\)" %
                        T),
            "cons": Pat(r"isConsistentCall\(\$2, %s\)" % T)},
            lambda A: Pat("null") if A["novtp"] or A["notab"] or A["nof"] or
            A["pure"] or not A["cons"] else Pat(T), pure=False)
    # signature consistency
    for fn in F.find("psr::isConsistentCall"):
        models = product(c=[0, 1, 2], d=[0, 1, 2], va=[False, True],
                         m=[False, True])
        num = r"\$(0|1)\.arg_size\(\)"

        def n(m, i):
            return m["c"] if i == "0" else m["d"]
        model(ctx, "signature", fn, ctx.summary(F, fn), models, [
            (r"\(%s < %s\)" % (num, num),
             lambda m, g: n(m, g[1]) < n(m, g[2])),
            (r"\(%s == %s\)" % (num, num),
             lambda m, g: n(m, g[1]) == n(m, g[2])),
            (r"\$1\.isVarArg\(\)", lambda m, g: m["va"]),
            (r"matchesSignature\(\$1, \$0\.getFunctionType\(\), false\)",
             lambda m, g: m["m"])],
            lambda m: (m["m"] and (m["c"] == m["d"] or
                                   m["va"] and m["c"] > m["d"])))
    # the vtable slot and the receiver of a virtual call
    for fn in F.find("psr::getVFTIndex"):
        ld = r"as<LoadInst>\(\$0\.getCalledOperand\(\)\)"
        ge = r"as<GetElementPtrInst>\(%s\.getPointerOperand\(\)\)" % ld
        ci = r"as<ConstantInt>\(%s\.getOperand\(1\)\)" % ge
        decide(ctx, "slot", fn, ctx.summary(F, fn), {
            "ld": r"isa<LoadInst>($0.getCalledOperand())",
            "gep": Pat(ge.replace("as<", "isa<", 1)),
            "ci": Pat(ci.replace("as<", "isa<", 1))},
            lambda A: Pat(ci + r"\.get[ZS]ExtValue\(\)") if A["ld"] and
            A["gep"] and A["ci"] else Pat(r".*nullopt.*|optional\{\}"))
    for fn in F.find("psr::getReceiverType"):
        rc = r"\$0\.getArgOperand\((?:unsigned\()?\$0\.hasStructRetAttr" \
             r"\(\)\)?\)"
        ty = rc + r"\.getType\(\)"
        el_ = ty + r"\.getNonOpaquePointerElementType\(\)"
        decide(ctx, "receiver", fn, ctx.summary(F, fn), {
            "none": "$0.arg_empty()", "sret": "$0.hasStructRetAttr()",
            "one": "($0.arg_size() < 2)", "ptr": Pat(
                ty + r"\.isPointerTy\(\)"),
            "opq": Pat(ty + r"\.isOpaquePointerTy\(\)"),
            "st": Pat(r"isa<StructType>\(%s\)" % el_)},
            lambda A: Pat("null") if A["none"] or A["sret"] and A["one"] or
            not A["ptr"] or A["opq"] or not A["st"] else Pat(
                r"as<StructType>\(%s\)" % el_), pure=False)
    # kind -> resolver
    kinds = {"NORESOLVE": "NOResolver", "CHA": "CHAResolver",
             "RTA": "RTAResolver", "DTA": "DTAResolver",
             "OTF": "OTFResolver"}
    got = set()
    for fn in F.find("psr::Resolver::create"):
        for p in live(ctx.summary(F, fn)):
            k = [x for x in lits(p.pc) if re.fullmatch(
                r"\(\$0 == CallGraphAnalysisType::\w+\)", x)]
            k = k[0][:-1].rsplit("::")[-1] if k else "?"
            want = kinds.get(k)
            args = {"NOResolver": "$1, $2", "OTFResolver": "$1, $2, $4"}.get(
                want, "$1, $2, $3")
            got.add(k)
            ctx.ob("kind", want is not None and t2s(p.ret) ==
                   "std::make_unique<%s>(%s)" % (want, args), where(fn),
                   "analysis type %s creates %s" % (k, t2s(p.ret)), k)
        ctx.ob("kind", got == set(kinds), where(fn), "analysis types "
               "without a resolver: %s" % (set(kinds) - got))
    # CHA
    C = ctx.facts(R + "CHAResolver.cpp")
    sub = r"this\.TH\.getSubTypes\(getReceiverType\(\$0\)\)"
    for fn in C.find("psr::CHAResolver::resolveVirtualCall"):
        v = VT % (r"elem\(%s\)" % sub)
        ps = complete(ctx, C, fn, [Pat(sub)], Pat(v), [
            noidx, r"\(%s == null\)" % v], "the vtable entry of a subtype of "
            "the receiver is no target", STOP)
        consistent(ctx, fn, ps)
    # RTA
    C = ctx.facts(R + "RTAResolver.cpp")
    for fn in C.find("psr::RTAResolver::resolveVirtualCall"):
        ty = r"(?:as<StructType>\()?elem\(this\.AllocatedStructTypes\)\)?"
        v = VT % ty
        ps = complete(ctx, C, fn, ["this.AllocatedStructTypes"], Pat(v), [
            noidx, r"\(%s == null\)" % v, r"!%s has %s" % (sub, ty),
            r"!isa<StructType>\(%s\)" % ty], "the vtable entry of an "
            "allocated subtype of the receiver is no target", STOP)
        consistent(ctx, fn, ps)
        fallback(ctx, fn, ps)
        for it in items(ps):
            if added(it.ev) and it.loops:
                ctx.ob("rta", any(re.fullmatch(r"%s has %s" % (sub, ty), x)
                                  for x in lits(it.pc)), it.ev.where(),
                       "a target of a type that is no subtype of the "
                       "receiver is added")
    for fn in C.find("psr::RTAResolver::resolveAllocatedStructTypes"):
        i_ = r"elem\(instructions\(elem\(this\.IRDB\.getAllFunctions\(\)\)\)\)"
        al = r"as<AllocaInst>\(%s\)\.getAllocatedType\(\)" % i_
        complete(ctx, C, fn, [fs, Pat(r"instructions\(elem\(this\.IRDB\."
                                      r"getAllFunctions\(\)\)\)")],
                 Pat(r"as<StructType>\(%s\)" % al), [
                     r"!empty\(this\.AllocatedStructTypes\)",
                     r"!isa<AllocaInst>\(%s\)" % i_,
                     r"!isa<StructType>\(%s\)" % al],
                 "the type of a stack allocation is not collected", STOP)
        # ... nor that of a heap allocation that is constructed
        cb = r"as<CallBase>\(%s\)\.getCalledFunction\(\)" % i_
        us = r"%s\.users\(\)" % i_
        bc = r"as<BitCastInst>\(elem\(%s\)\)" % us
        pe = bc + r"\.getDestTy\(\)\.getNonOpaquePointerElementType\(\)"
        cu = r"elem\(%s\.users\(\)\)" % bc
        ca = r"as<CallBase>\(%s\)\.getCalledFunction\(\)" % cu
        a0 = r"(?:getNthFunctionArgument\(%s, 0\)|%s\.getArg\(0\))" % (ca, ca)
        complete(ctx, C, fn, [fs, Pat(
            r"instructions\(elem\(this\.IRDB\.getAllFunctions\(\)\)\)"),
            Pat(us), Pat(r"%s\.users\(\)" % bc)],
            Pat(r"as<StructType>\(%s\)" % pe), [
                r"!empty\(this\.AllocatedStructTypes\)",
                r"isa<AllocaInst>\(%s\)" % i_, r"!isa<CallBase>\(%s\)" % i_,
                r"\(%s == null\)" % cb,
                r"!isHeapAllocatingFunction\(%s\)" % cb,
                r"!isa<BitCastInst>\(elem\(%s\)\)" % us,
                bc + r"\.getDestTy\(\)\.isOpaquePointerTy\(\)",
                "!" + pe + r"\.isStructTy\(\)",
                r"!isa<StructType>\(%s\)" % pe,
                r"!isa<CallBase>\(%s\)" % cu, r"\(%s == null\)" % ca,
                r"\(%s == null\)" % a0, r"%s\.arg_empty\(\)" % ca,
                r"!\(%s\.getDestTy\(\) == %s\.getType\(\)\)" % (bc, a0)],
            "the type of a heap allocation is not collected", STOP + [
                "isHeapAllocatingFunction", "getNthFunctionArgument"])
        for p in live(ctx.summary(C, fn, stop=STOP)):
            L = lits(p.pc)
            if "!empty(this.AllocatedStructTypes)" in L:
                continue
            loc = {t2s(i.ev.obj) for i in items([p]) if i.loops and
                   added(i.ev) and i.ev.args}
            for l in loc:
                if l == "this.AllocatedStructTypes":
                    continue
                ok = any(call_is(i, "insert") and t2s(i.ev.obj) ==
                         "this.AllocatedStructTypes" and
                         [t2s(a) for a in i.ev.args[-2:]] == [
                             "begin(%s)" % l, "end(%s)" % l]
                         for i in items([p])) or any(
                             i.ev.kind == "write" and t2s(i.ev.obj) ==
                             "this.AllocatedStructTypes" for i in items([p])
                         ) or not require([p], [("loop", l), (
                             "ev", lambda it: inserted(
                                 it, "elem(%s)" % l,
                                 "this.AllocatedStructTypes"), "")])
                ctx.ob("rta", ok, where(fn), "the collected types are not "
                       "stored in the resolver")
    # DTA
    C = ctx.facts(R + "DTAResolver.cpp")
    gt = r"this\.TypeGraph\.getTypes\(getReceiverType\(\$0\)\)"
    for fn in C.find("psr::DTAResolver::resolveVirtualCall"):
        ty = r"(?:as<StructType>\()?elem\(%s\)\)?" % gt
        v = VT % ty
        ps = complete(ctx, C, fn, [Pat(gt)], Pat(v), [
            noidx, r"\(%s == null\)" % v, r"!isa<StructType>\(%s\)" % ty],
            "the vtable entry of a type that flows to the receiver is no "
            "target", STOP)
        consistent(ctx, fn, ps)
        fallback(ctx, fn, ps)
    for fn in C.find("psr::DTAResolver::otherInst"):
        S_ = r"(?:\w+::)*stripPointer\(as<BitCastInst>\(\$0\)\.getSrcTy\(\)\)"
        T_ = S_.replace("Src", "Dest")
        h = r"this\.heuristicAntiConstructorVtablePos\(as<BitCastInst>" \
            r"\(\$0\)\)"
        ps = live(ctx.summary(C, fn, stop=[
            "heuristicAntiConstructorVtablePos"]))
        ex = [Pat(r"\$0\.getType\(\)\.isOpaquePointerTy\(\)"),
              Pat(r"!isa<BitCastInst>\(\$0\)"),
              Pat(r"!isa<StructType>\(%s\)" % S_),
              Pat(r"!isa<StructType>\(%s\)" % T_), Pat("!" + h)]
        for p, t, L in require(ps, [(
                "ev", lambda it: call_is(it, "addLink") and
                Pat(r"as<StructType>\(%s\)" % T_).ok(it.ev.args[0]) and
                Pat(r"as<StructType>\(%s\)" % S_).ok(it.ev.args[1]),
                "a cast between struct types is not recorded "
                "(destination -> source)")],
                exempt=lambda L: any(e.ok(x) for e in ex for x in L)):
            ctx.ob("dta", False, where(fn), "%s when %s" % (t, sorted(L)))
        ctx.ob("dta", True, where(fn), "struct casts are recorded")
    # OTF
    C = ctx.facts(R + "OTFResolver.cpp")
    otf(ctx, C, STOP)
    # whoever changes its knowledge while the graph is built must say so
    hooks(ctx, F, C)


def consistent(ctx, fn, ps):
    """only functions that can be called at the call site are targets"""
    n = 0
    for it in items(ps):
        e = it.ev
        a = added(e)
        if not a or len(a) != 1 or e.obj is None or t2s(a[0]).endswith(
                ("pop_back_val()", ".back()", ".pop()")):
            continue
        v = t2s(a[0])
        if v.startswith(("as<Constant", "as<GlobalVariable>")):
            continue
        n += 1
        L = lits(it.pc)
        if "getNonPureVirtualVFTEntry" in v:
            ok = "!(%s == null)" % v in L
        else:
            ok = "isConsistentCall($0, %s)" % v in L
        ctx.ob("consistent", ok, e.where(), "%s may become a target although "
               "it cannot be called with this signature" % v[:120], fn.qn)
    ctx.ob("consistent", n > 0, where(fn), "no target is ever added", fn.qn)
    for p in ps:
        if p.exit != "return" or p.ret is None:
            continue
        ctx.ob("consistent", not re.fullmatch(r"\w*Set\w*\{\}", t2s(p.ret)) or
               any("getVFTIndex" in x or "getCalledOperand() == null" in x
                   for x in lits(p.pc)), where(fn),
               "no targets are returned when %s" % sorted(lits(p.pc)), fn.qn)


def fallback(ctx, fn, ps):
    """an empty answer is replaced by class-hierarchy analysis"""
    for p in ps:
        L = lits(p.pc)
        if any("!truthy(getVFTIndex" in x for x in L):
            continue
        em = [x for x in L if re.fullmatch(r"!?empty\(~?\w+\)", x)]
        cha = [i for i in items([p]) if i.ev.kind == "call" and
               i.ev.name == "psr::CHAResolver::resolveVirtualCall"]
        if any(x[0] != "!" for x in em):
            ctx.ob("fallback", len(cha) == 1 and "resolveVirtualCall($0)" in
                   t2s(p.ret), where(fn), "without candidates the class "
                   "hierarchy is not consulted; returns %s" % t2s(p.ret))
        elif em:
            ctx.ob("fallback", not cha, where(fn), "precise targets are "
                   "replaced by the class hierarchy")
        else:
            ctx.ob("fallback", bool(cha), where(fn), "an empty result is "
                   "returned without consulting the class hierarchy")


def otf(ctx, C, STOP):
    AS = r"\*?this\.PT\.getAliasSet\(\$0\.getCalledOperand\(\), \$0\)"
    P = r"elem\(%s\)" % AS
    for fn in C.find("psr::OTFResolver::resolveVirtualCall"):
        g = r"as<GlobalVariable>\(%s\)" % P
        ini = g + r"\.getInitializer\(\)"
        vf = r"(?:LLVMVFTable::)?getVFVectorFromIRVTable\(\*as<" \
             r"ConstantStruct>\(%s\)\)" % ini
        idx = r"\*?getVFTIndex\(\$0\)"
        cal = r"%s\[%s\]" % (vf, idx)
        ps = complete(ctx, C, fn, [Pat(AS)], Pat(cal), [
            r"!truthy\(getVFTIndex\(\$0\)\)",
            r"!isa<GlobalVariable>\(%s\)" % P, r"!%s\.hasName\(\)" % g,
            r"!%s\.getName\(\)\.start(?:s?)(?:_?)[wW]ith\(.*VTablePrefix\)" %
            g, r"!%s\.hasInitializer\(\)" % g,
            r"!isa<ConstantStruct>\(%s\)" % ini,
            r"!\(%s < %s\.size\(\)\)" % (idx, vf), r"\(%s == null\)" % cal,
            r"!%s\.hasName\(\)" % cal,
            r"\(%s\.getName\(\) == .*PureVirtualCallName\)" % cal,
            r"!isConsistentCall\(\$0, %s\)" % cal],
            "the entry of an aliasing vtable is no target", STOP)
        consistent(ctx, fn, ps)
        for it in items(ps):
            if added(it.ev) and Pat(cal).ok(added(it.ev)[0]):
                L = lits(it.pc)
                ctx.ob("bounds", any(re.fullmatch(r"\(%s < %s\.size\(\)\)" % (
                    idx, vf), x) for x in L), it.ev.where(),
                    "the vtable may be read out of bounds")
                ctx.ob("bounds", any(re.fullmatch(r"!\(%s == null\)" % cal, x)
                                     for x in L), it.ev.where(),
                       "a null entry may become a target")
    for fn in C.find("psr::OTFResolver::resolveFunctionPointer"):
        ps = complete(ctx, C, fn, [Pat(AS)], Pat(
            r"as<Function>\(%s\)" % P), [
            r"!isa<Constant>\(%s\)" % P, r"!isa<Function>\(%s\)" % P,
            r"\(\$0\.getCalledOperand\(\) == null\)",
            r"!isConsistentCall\(\$0, as<Function>\(%s\)\)" % P],
            "a function the pointer may alias is no target", STOP)
        consistent(ctx, fn, ps)
        nested(ctx, fn, ps)
    for fn in C.find("psr::OTFResolver::handlePossibleTargets"):
        ps = live(ctx.summary(C, fn, stop=["getActualFormalPointerPairs"]))
        t = r"elem\(\$1\)"
        ex = [Pat(r"this\.PT\.isInterProcedural\(\)"),
              Pat(t + r"\.isDeclaration\(\)")]
        pr = r"(?:this\.)?(?:OTFResolver::)?getActualFormalPointerPairs" \
             r"\(\$0, %s\)" % t
        pe = r"elem\(%s\)" % pr

        def al(a, b):
            def f(it):
                e = it.ev
                if not call_is(it, "introduceAlias"):
                    return False
                x = [t2s(y) for y in e.args[:2]]
                return (re.fullmatch(a, x[0]) and re.fullmatch(b, x[1]) or
                        re.fullmatch(a, x[1]) and re.fullmatch(b, x[0])) \
                    and t2s(e.obj) == "this.PT"
            return f
        xp = r"elem\((?:\w+::)*getAllExitPoints\(%s.*\)\)" % t
        rets = [("loop", "$1"), ("loop", Pat(
            r"(?:\w+::)*getAllExitPoints\(%s.*\)" % t)), (
            "ev", al(r"\$0", r"as<ReturnInst>\(%s\)\.getReturnValue\(\)" %
                     xp), "a returned pointer does not alias the call")]
        for st, x in (([("loop", "$1"), ("loop", Pat(pr)), (
                "ev", al(pe + r"\.first", pe + r"\.second"),
                "an actual parameter does not alias its formal")], []),
                (rets, [Pat("!" + t + r"\.getReturnType\(\)\.isPointerTy"
                            r"\(\)"), Pat(r"!isa<ReturnInst>\(%s\)" % xp)])):
            for p, m, L in require(ps, st, exempt=lambda L: any(
                    e.ok(y) for e in ex + x for y in L)):
                ctx.ob("alias", False, where(fn), "%s when %s" % (
                    m, sorted(L)))
            ctx.ob("alias", True, where(fn), st[-1][2])
    for fn in C.find("psr::OTFResolver::getActualFormalPointerPairs"):
        ps = live(ctx.summary(C, fn))
        for p in ps:
            lo = []
            for it in items([p]):
                e = it.ev
                a = added(e)
                if a and len(a) == 2:
                    lo.append((it, t2s(a[0]), t2s(a[1])))
            first = [x for x in lo if "getArg(" in x[2]]
            ctx.ob("pairs", first, where(fn), "no actual/formal pair is built")
            # what is passed beyond the parameters goes to the vararg pack
            for it in [z[0] for z in lo if z not in first]:
                for q in it.loops[-1].paths if it.loops else ():
                    ctx.ob("pairs", q.exit in (None, "continue") and (
                        any(added(z.ev) for z in items([q])) or any(
                            re.fullmatch(r"!\$0\.getArgOperand\(.*\)\.getType"
                                         r"\(\)\.isPointerTy\(\)", z)
                            for z in lits(q.pc))), it.ev.where(),
                        "a pointer passed as vararg is not paired")
            for it, x, y in first:
                g = re.fullmatch(r"\$0\.getArgOperand\((.*)\)", x)
                h = re.fullmatch(r"\$1\.getArg\((.*)\)", y)
                ctx.ob("pairs", bool(g and h and g[1] == h[1]),
                       it.ev.where(), "argument %s is paired with parameter "
                       "%s" % (x, y))
                if not (g and h) or not it.loops:
                    continue
                i = g[1]
                l = it.loops[-1]
                ctx.ob("pairs", all(q.exit in (None, "continue")
                                    for q in l.paths), it.ev.where(),
                       "pairing stops early")
                ctx.ob("pairs", any(t2s(v) == i and t == ("int", 0)
                                    for v, t in l.entry.items()),
                       it.ev.where(), "pairing does not start at the first "
                       "argument")
                okx = {"!(%s < $0.arg_size())" % i, "!(%s < $1.arg_size())" %
                       i}
                ctx.ob("pairs", bool(l.exits) and all(
                    lits(pc) & okx for pc in l.exits), it.ev.where(),
                    "pairing stops before the last argument")
                for q in l.paths:
                    has = any(added(z.ev) for z in items([q]))
                    L = lits(q.pc)
                    np = any(re.fullmatch(
                        r"!\$[01]\.getArg(?:Operand)?\(.*\)\.getType\(\)\."
                        r"isPointerTy\(\)", z) for z in L)
                    ctx.ob("pairs", has or np, it.ev.where(), "a pointer "
                           "argument is not paired when %s" % sorted(L))


def nested(ctx, fn, ps):
    """function pointers inside (nested) constant aggregates"""
    w = where(fn)
    n = 0
    for it in items(ps):
        e = it.ev
        if e.kind != "loop" or not t2s(e.loop.container).endswith(
                ".operands()") or "ConstantAggregate" not in " ".join(
                    str(x.ev.s()) for x in items([it.path])) and \
                "pop_back_val" not in t2s(e.loop.container):
            continue
        c = t2s(e.loop.container)
        if "as<ConstantExpr>" in c:
            continue
        n += 1
        op = "elem(%s)" % c
        kinds = {"isa<Function>(%s)" % op: "as<Function>(%s)" % op,
                 "isa<ConstantAggregate>(%s)" % op:
                 "as<ConstantAggregate>(%s)" % op,
                 "isa<GlobalVariable>(%s)" % op:
                 "as<ConstantAggregate>(as<GlobalVariable>(%s)."
                 "getInitializer())" % op}
        for q in e.loop.paths:
            L = lits(q.pc)
            if q.exit not in (None, "continue"):
                ctx.ob("nested", False, w, "elements of an aggregate are "
                       "skipped when %s" % sorted(L))
            for k, v in kinds.items():
                if k not in L:
                    continue
                if any(x in L for x in (
                        "!isConsistentCall($0, %s)" % v,
                        "!as<GlobalVariable>(%s).hasInitializer()" % op,
                        "!isa<ConstantAggregate>(as<GlobalVariable>(%s)."
                        "getInitializer())" % op)):
                    continue
                ctx.ob("nested", any(
                    added(i.ev) and t2s(added(i.ev)[0]) == v
                    for i in items([q])), w, "%s is neither a target nor "
                    "searched" % v)
            ce = "as<ConstantExpr>(%s)" % op
            f = "as<Function>(%s.getOperand(0))" % ce
            if {"isa<ConstantExpr>(%s)" % op, ce + ".isCast()",
                ce + ".getType().isPointerTy()",
                "isConsistentCall($0, %s)" % f} <= L:
                ctx.ob("nested", any(
                    added(i.ev) and t2s(added(i.ev)[0]) == f
                    for i in items([q])), w, "a cast function inside an "
                    "aggregate is no target")
        # the enclosing work list is drained
        for l in it.loops:
            if l.kind == "range":
                continue
            for q in l.paths:
                ctx.ob("nested", q.exit in (None, "continue"), w, "the search "
                       "stops although aggregates are left (%s)" % q.exit)
    ctx.ob("nested", n > 0, w, "no search inside constant aggregates")
    # every aliasing global with an aggregate initializer is searched
    for it in items(ps):
        e = it.ev
        if e.kind != "loop" or not any(
                added(i.ev) and re.fullmatch(
                    r"as<ConstantAggregate>\(elem\(.*\)\.getInitializer\(\)\)",
                    t2s(added(i.ev)[0])) and not i.loops
                for i in items(e.loop.paths) if i.ev.kind == "call") or \
                "operands()" in t2s(e.loop.container):
            continue
        el = re.escape("elem(%s)" % t2s(e.loop.container))
        for q in e.loop.paths:
            L = lits(q.pc)
            ctx.ob("nested", q.exit in (None, "continue") and (
                any(added(i.ev) for i in items([q])) or any(re.fullmatch(
                    r"!%s\.hasInitializer\(\)|!isa<ConstantAggregate>\(%s\."
                    r"getInitializer\(\)\)" % (el, el), x) for x in L)), w,
                "the initializer of an aliasing global is not searched when "
                "%s" % sorted(L))


def hooks(ctx, F, C):
    fs = ctx.facts(*[R + x + "Resolver.cpp" for x in
                     ("", "CHA", "RTA", "DTA", "OTF", "NO")])
    HK = ("preCall", "postCall", "handlePossibleTargets", "otherInst")
    claims, act = {}, {}
    for fn in fs.all_fns():
        m = re.fullmatch(r"(psr::\w*Resolver)::(\w+)", fn.qn)
        if not m:
            continue
        if m[2] == "mutatesHelperAnalysisInformation":
            claims[m[1]] = (fn, [p.ret for p in live(ctx.summary(fs, fn))])
        if m[2] in HK:
            eff = [i.ev.s()[:80] for p in live(ctx.summary(fs, fn)) for i in
                   effects(p) if "init " not in i.ev.s() and (
                       i.ev.kind == "write" or re.match(
                           r"(?:\w+::)*this\.|!?this\.", i.ev.s().lstrip(
                               "!~ ")))]
            if eff:
                act.setdefault(m[1], []).extend(eff)
    ctx.ob("mutates", bool(claims), "-", "no resolver says whether it mutates"
           " helper information")
    for c, (fn, rets) in claims.items():
        e = act.get(c, [])
        ctx.ob("mutates", not e or all(r != FALSE for r in rets), where(fn),
               "%s claims not to change its knowledge while the call graph "
               "is built, but its hooks do: %s" % (c, e[:2]), c)


# ----------------------------------------------------------------- entries
def entries(ctx):
    F = ctx.facts(D + "EntryFunctionUtils.cpp")
    el = r"elem\(\$0\.getAllFunctions\(\)\)"
    for nm in ("getEntryFunctions", "getEntryFunctionsMut"):
        for fn in F.find("psr::" + nm):
            ps = live(ctx.summary(F, fn))
            for p in ps:
                L = lits(p.pc)
                al = '($1.front() == "__ALL__")' in L and \
                    "($1.size() == 1)" in L
                val = Pat(el + r"|\$0\.(?:Mod\.)?getFunction(?:Definition)?"
                          r"\(%s\.getName\(\)\)|as<.*>\(%s\)" % (el, el)) \
                    if al else Pat(r"\$0\.getFunctionDefinition\(elem\(\$1\)"
                                   r"\)")
                ex = [Pat(el + r"\.isDeclaration\(\)"),
                      Pat("!" + el + r"\.hasName\(\)")] if al else \
                    [Pat(r"\(\$0\.getFunctionDefinition\(elem\(\$1\)\) == "
                         r"null\)")]

                def exempt(L):
                    if any(e.ok(x) for e in ex for x in L):
                        return True
                    return al and any(re.fullmatch(
                        "!" + el + r"\.hasExternalLinkage\(\)", x)
                        for x in L) and any(re.fullmatch(
                            r'!\(%s\.getName\(\) == "main"\)' % el, x)
                            for x in L)
                miss = require([p], [
                    ("loop", "$0.getAllFunctions()" if al else "$1"),
                    ("ev", lambda it: inserted(it, val), "an entry point is "
                     "left out")], exempt=exempt)
                for q, t, K in miss:
                    ctx.ob("entry", False, where(fn), "%s when %s" % (
                        t, sorted(K)), fn.qn)
                ctx.ob("entry", t2s(p.ret).startswith("~") or
                       not t2s(p.ret).endswith("{}"), where(fn),
                       "returns %s" % t2s(p.ret), fn.qn)
                for it in items([p]):
                    a = added(it.ev)
                    if a and it.loops:
                        K = lits(it.pc)
                        ok = not exempt(K) if al else \
                            "!($0.getFunctionDefinition(elem($1)) == null)" \
                            in K
                        if al:
                            ok = ok and "!elem($0.getAllFunctions())." \
                                "isDeclaration()" in K and (
                                "elem($0.getAllFunctions())."
                                "hasExternalLinkage()" in K or
                                '(elem($0.getAllFunctions()).getName() == '
                                '"main")' in K)
                        ctx.ob("entry", ok and val.ok(a[0]), it.ev.where(),
                               "%s is no valid entry point" % t2s(a[0]),
                               fn.qn)


# ------------------------------------------------------------------ fronts
def fronts(ctx):
    F = ctx.facts(D + "LLVMBasedICFG.cpp")
    for fn in F.find("psr::LLVMBasedICFG::initialize"):
        ps = live(ctx.summary(F, fn, stop=["buildLLVMBasedCallGraph"]))
        for p in ps:
            L = lits(p.pc)
            g = [t2s(i.ev.args[0]) for i in items([p]) if i.ev.kind == "write"
                 and t2s(i.ev.obj) == "this.CG"]
            if "$4" in L:
                want = Pat(r"buildLLVMBasedCallGraph\(\*\$0, \*?\$1, \{?"
                           r"GlobalCtorsDtorsModel::buildModel\(\*\$0, \$2\)"
                           r"\}?, \$3\)")
            else:
                want = pat("buildLLVMBasedCallGraph(*$0, $1, $2, $3)")
            ctx.ob("front", len(g) == 1 and want.ok(g[0]), where(fn),
                   "the call graph is %s" % g)
    for fn in F.find("psr::LLVMBasedICFG::(ctor)"):
        if fn.decl.pt and "CallGraphData" in fn.decl.pt[-1]:
            ctx.ob("front", True, where(fn), "deserializing constructor")
            serial(ctx, F, fn)
        if fn.decl.pt and "psr::CallGraph<" in fn.decl.pt[0]:
            for p in live(ctx.summary(F, fn)):
                ctx.ob("front", [t2s(i.ev.args[0]) for i in items([p])
                       if i.ev.kind == "write" and t2s(i.ev.obj) ==
                       "this.CG"] == ["$0"], where(fn),
                       "the given call graph is not used")
        if len(fn.decl.pt) == 7 and "CallGraphAnalysisType" in fn.decl.pt[1]:
            for p in live(ctx.summary(F, fn, stop=["initialize", "create"])):
                L = lits(p.pc)
                own = {"($4.VT == null)",
                       "($1 == CallGraphAnalysisType::OTF)"} <= L
                for i in items([p]):
                    if call_is(i, "create"):
                        a = [t2s(x) for x in i.ev.args]
                        ok = a[0] == "$1" and a[1] == "$0" and "VTP" in (
                            a[2]) or "VFTable" in a[2]
                        ok = ok and a[3] == "$3" and (
                            a[4] == "$4" if not own else "LLVMAliasSet" in
                            a[4] and "$0" in a[4])
                        ctx.ob("front", ok, i.ev.where(), "the resolver is "
                               "created with (%s)" % ", ".join(a))
                ini = [[t2s(x) for x in i.ev.args] for i in items([p])
                       if call_is(i, "initialize")]
                ctx.ob("front", len(ini) == 1 and ini[0][0] == "$0" and
                       "create" in ini[0][1] and ini[0][2:] ==
                       ["$2", "$5", "$6"], where(fn), "initialized with %s" %
                       ini)
    Q = "psr::LLVMBasedICFG::"
    simple(ctx, F, Q, {
        "getAllFunctionsImpl": "this.IRDB.getAllFunctions()",
        "getFunctionImpl": Pat(r"this\.IRDB\.(?:Mod\.)?getFunction\(\$0\)"),
        "isVirtualFunctionCallImpl": "isVirtualCall($0, this.VTP)",
        "getReturnSitesOfCallAtImpl": Pat(r"(?:this\.)?getSuccsOf\(\$0\)")},
        stop=["isVirtualCall", "getSuccsOf"])
    for fn in F.find(Q + "isIndirectFunctionCallImpl"):
        decide(ctx, "front", fn, ctx.summary(F, fn), {
            "call": "isa<CallBase>($0)",
            "ind": "as<CallBase>($0).isIndirectCall()"},
            lambda A: A["call"] and A["ind"])
    for fn in F.find(Q + "getCallsFromWithinImpl"):
        e = r"elem\(instructions\(\$0\)\)"
        ps = live(ctx.summary(F, fn))
        for p, t, L in require(ps, [("loop", "instructions($0)"), (
                "ev", lambda it: inserted(it, Pat("&?" + e + "|as<CallBase>"
                                                  r"\(%s\)" % e)),
                "a call is left out")], exempt=lambda L: any(
                    re.fullmatch("!isa<CallBase>\\(%s\\)" % e, x)
                    for x in L)):
            ctx.ob("front", False, where(fn), "%s when %s" % (t, sorted(L)))
        for it in items(ps):
            if added(it.ev):
                ctx.ob("front", any(re.fullmatch(
                    "isa<CallBase>\\(%s\\)" % e, x) for x in lits(it.pc)),
                    it.ev.where(), "something that is no call is reported")
    G = ctx.facts(D + "LLVMBasedBackwardICFG.cpp")
    Q = "psr::LLVMBasedBackwardICFG::"
    FW = r"\*?this\.ForwardICFG(?:\.|->)"
    simple(ctx, G, Q, {
        "getAllFunctionsImpl": Pat(FW + r"getAllFunctions\(\)"),
        "getFunctionImpl": Pat(FW + r"getFunction\(\$0\)"),
        "isIndirectFunctionCallImpl": Pat(FW +
                                          r"isIndirectFunctionCall\(\$0\)"),
        "isVirtualFunctionCallImpl": Pat(FW +
                                         r"isVirtualFunctionCall\(\$0\)"),
        "getCalleesOfCallAtImpl": Pat(FW + r"getCalleesOfCallAt\(\$0\)"),
        "getCallersOfImpl": Pat(FW + r"getCallersOf\(\$0\)"),
        "getCallsFromWithinImpl": Pat(FW + r"getCallsFromWithin\(\$0\)"),
        "getReturnSitesOfCallAtImpl": Pat(r"(?:this\.)?getSuccsOf\(\$0\)"),
        "getCallGraphImpl": Pat(FW + r"(?:getCallGraph\(\)|CG)")},
        stop=["getAllFunctions", "getFunction", "isIndirectFunctionCall",
              "isVirtualFunctionCall", "getCalleesOfCallAt", "getCallersOf",
              "getCallsFromWithin", "getSuccsOf", "getCallGraph"])


def simple(ctx, F, Q, table, stop):
    for nm, want in table.items():
        for fn in F.find(Q + nm):
            for p in live(ctx.summary(F, fn, stop=stop)):
                ctx.ob("front", pat(want).ok(p.ret), where(fn),
                       "%s returns %s, expected %s" % (
                           nm, t2s(p.ret)[:200], pat(want)), fn.qn)


def serial(ctx, F, fn):
    """functions are looked up by the key, instructions by the id that the
    writer uses for them"""
    M = r"elem\(\$1\.FToFunctionVertexTy\)"
    f = Pat(r"\$0\.(?:Mod\.)?getFunction\(%s\.first\)" % M)
    i_ = Pat(r"\$0\.getInstruction\(elem\(%s\.second\)\)" % M)
    inl = ["deserialize"]
    ps = live(ctx.summary(F, fn, stop=["addCallEdge", "addFunctionVertex",
                                       "getFunction", "getInstruction"],
                          inline=lambda d: True if last(d.qn) in inl
                          else None))
    n = 0
    for it in items(ps):
        a = [t2s(x) for x in it.ev.args]
        if call_is(it, "addCallEdge"):
            n += 1
            ctx.ob("json", len(a) >= 2 and i_.ok(a[0]) and any(
                f.ok(x) for x in a[1:]), it.ev.where(), "the restored edge "
                "is (%s)" % ", ".join(a))
        if call_is(it, "addFunctionVertex"):
            ctx.ob("json", f.ok(a[0]), it.ev.where(), "the restored vertex "
                   "is %s" % a[0])
    ctx.ob("json", n > 0, where(fn), "no edge is restored")
    for w in F.find("psr::LLVMBasedICFG::printAsJsonImpl"):
        ps = live(ctx.summary(F, w, stop=["getInstructionId"],
                              inline=lambda d: True if last(d.qn) ==
                              "printAsJson" and "CallGraph::" in d.qn
                              else None))
        key = r"elem\(this\.CG\.CallersOf\)\.first\.getName\(\)(?:\.str\(\))?"
        idp = r"this\.IRDB\.getInstructionId\(elem\(elem\(this\.CG\." \
              r"CallersOf\)\.second\)\)"
        k = [i for i in items(ps) if last(i.ev.name) == "operator[]" and
             Pat(key).ok(i.ev.args[0])]
        v = [i for i in items(ps) if added(i.ev) and Pat(idp).ok(
            added(i.ev)[0])]
        ctx.ob("json", k and v, where(w), "functions are not written by name "
               "or call sites not by instruction id")


# ----------------------------------------------------------------- vtables
def vtables(ctx):
    F = ctx.facts(D + "LLVMVFTableProvider.cpp")
    Q = "psr::LLVMVFTableProvider::"
    for fn in F.find(Q + "getVFTableOrNull"):
        decide(ctx, "vft", fn, ctx.summary(F, fn), {
            "has": "this.TypeVFTMap has $0"},
            lambda A: pat("&this.TypeVFTMap[$0]") if A["has"] else
            Pat("null"))
    for fn in F.find(Q + "hasVFTable"):
        decide(ctx, "vft", fn, ctx.summary(F, fn), {
            "has": "this.TypeVFTMap has $0"}, lambda A: A["has"])
