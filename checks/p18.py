"""P18: the monotone framework solvers compute a fixed point."""
import re
from spec import *
from p12 import live, whole
from p20 import iff, over, calls, writes
from p16 import tri, one
from facts import CheckError

EXPLAIN = ("Guarded-effect summaries of the instantiated monotone solvers: "
           "per iteration of the work-list loop the value stored for the "
           "target of the edge, the condition under which it is stored and "
           "the edges that are enqueued again are compared with the chaotic "
           "iteration they implement; what the call-string contexts keep.")

INTRA = "psr::IntraMonoSolver::"
INTER = "psr::InterMonoSolver::"
CS = "psr::CallStringCTX::"
A = "this.Analysis"
IM = "this.IMProblem."
LOG = re.compile(r"outs\(\)|errs\(\)|NToString|print\w*\(|\.size\(\)$")


def run(ctx):
    F = ctx.facts("mono.cpp")
    for fn in fns(F, INTRA + "solve", 2):
        intra(ctx, F, fn)
    for fn in fns(F, INTRA + "getResultsAt", 2):
        ps = live(ctx.summary(F, fn))
        ctx.ob("result", len(ps) == 1 and ps[0].ret is not None and
               t2s(ps[0].ret) == A + "[$0]", where(fn),
               "the result at a statement is %s" % (
                   [t2s(p.ret) for p in ps if p.ret is not None]), fn.qn)
    callstring(ctx, F)
    inter(ctx, F)
    ctx.atleast("transfer", 5)
    ctx.atleast("store", 5)
    ctx.atleast("requeue", 5)


def fns(F, qn, n=1):
    r = [f for f in F.find(qn) if f.body is not None]
    if len(r) < n:
        raise CheckError("no %s" % qn)
    return r


def esc(s):
    return re.escape(s)


def topitems(p):
    """events of the path itself"""
    for it in items([p]):
        if not it.loops:
            yield it


def pushed(it, wl="this.Worklist"):
    """(source, target) of the edge the event enqueues, or the container
    whose edges it enqueues"""
    e = it.ev
    if e.kind != "call" or e.obj is None or t2s(e.obj) != wl:
        return None
    n = last(e.name)
    if n in ("push_back", "push_front", "emplace_back", "emplace_front"):
        a = e.args
        if len(a) == 1 and a[0][0] in ("ctor", "il"):
            a = a[0][2]
        if len(a) == 2:
            return t2s(a[0]), t2s(a[1])
        return t2s(e.args[0]) + ".first", t2s(e.args[0]) + ".second"
    if n in ("insert", "append") and len(e.args) == 3:
        b, c = t2s(e.args[1]), t2s(e.args[2])
        m = re.fullmatch(r"begin\((.*)\)|(.*)\.begin\(\)", b)
        k = re.fullmatch(r"end\((.*)\)|(.*)\.end\(\)", c)
        if m and k and (m.group(1) or m.group(2)) == (k.group(1) or
                                                      k.group(2)):
            return (m.group(1) or m.group(2)),
    if n in ("insert",) and len(e.args) == 2:
        x = t2s(e.args[1])
        return x + ".first", x + ".second"
    return None


def other(it, wl="this.Worklist"):
    """does the event change the state of the solver in some other way?"""
    e = it.ev
    if e.kind == "write":
        return t2s(e.obj).startswith("this.")
    if e.kind == "call" and not e.pure and e.obj is not None and \
            t2s(e.obj).startswith((A, wl)) and last(e.name) not in (
                "operator[]", "begin", "end", "front", "back", "size",
                "find", "empty", "at"):
        return True
    return False


def joins(p, N, P, other_out, src):
    """a loop of the path that merges the out-sets of the other predecessors
    into N -> the texts that denote the result, None without such a loop;
    False if the loop does something else"""
    for e in p.ev:
        if e.kind != "loop" or e.loop.container is None or \
                t2s(e.loop.container) != P:
            continue
        l = e.loop
        x = "elem(%s)" % P
        same = r"\((?:{0} == {1}|{1} == {0})\)".format(esc(x), esc(src))
        oth = other_out(x)
        ok = whole(l)
        names = set()
        for q in live(l.paths):
            L = lits(q.pc)
            is_src = tri(L, same)
            hit = [it for it in topitems(q) if it.ev.kind == "call" and
                   last(it.ev.name) == "merge"]
            if is_src:
                # merging the own out-set once more changes nothing
                ok &= not hit
                continue
            if is_src is None and not hit or len(hit) != 1:
                ok = False
                continue
            a = [t2s(y) for y in hit[0].ev.args]
            if oth not in a:
                ok = False
                continue
            cur = a[1 - a.index(oth)]
            m = t2s(hit[0].ev.term)
            # carried by a local variable, or by an element of a local map
            done = False
            for v, en in l.entry.items():
                if t2s(v) == cur and t2s(en) == N and any(
                        k == "next" and t2s(vals.get(v, v)) == m
                        for k, vals, pc in l.carry):
                    done = True
                    names.add(t2s(v))
            for it in topitems(q):
                if it.ev.kind == "write" and t2s(it.ev.args[0]) == m and (
                        t2s(it.ev.obj) == N or t2s(it.ev.obj).startswith(
                            "~")) and cur in (N, t2s(it.ev.obj)):
                    done = True
                    names |= {N, t2s(it.ev.obj)}
            # plain carry without an entry record
            for k, vals, pc in l.carry:
                for v, y in vals.items():
                    if t2s(v) == cur and t2s(y) == m:
                        done = True
                        names.add(cur)
            ok &= done
        return names if ok and names else False
    return None


def ends(l):
    """conditions under which the loop ends"""
    return [lits(pc) for pc in l.exits] + [
        lits(q.pc) for q in l.paths if q.exit in ("break", "return")]


def drained(l):
    e = ends(l)
    return bool(e) and all("empty(this.Worklist)" in x for x in e)


def goes_on(l):
    return [q for q in live(l.paths) if q.exit not in ("break", "return")]


# --------------------------------------------------------- intraprocedural
def intra(ctx, F, fn):
    ps = live(ctx.summary(F, fn, versions=False))
    w = where(fn)
    loops = {}
    for p in ps:
        seen = 0
        ls = [e.loop for e in p.ev if e.kind == "loop"]
        W = [l for l in ls if any("this.Worklist" in n
                                  for pc in ends(l) for n in pc)]
        ctx.ob("done", len(W) == 1 and drained(W[0]), w,
               "the iteration ends although edges are left in the work-list",
               fn.qn)
        if len(W) != 1:
            return
        i = ls.index(W[0])
        initial(ctx, fn, p, ls[:i])
        for q in goes_on(W[0]):
            step(ctx, fn, q)
        final(ctx, fn, p, ls[i + 1:])


def initial(ctx, fn, p, ls):
    w = where(fn)
    cov = [(t2s(l.container), l) for l in ls if l.container is not None]
    ent = [l for c, l in cov if re.search(r"[eE]ntryPoints", c)]
    ctx.ob("edges", len(ent) == 1 and whole(ent[0]), w,
           "not every entry point is prepared", fn.qn)
    for l in ent:
        for q in live(l.paths):
            E = "elem(%s)" % t2s(l.container)
            f = r"this\.IMProblem\.(?:IRDB|getProjectIRDB\(\))\." \
                r"getFunctionDefinition\(%s\)" % esc(E)
            ok = any(re.fullmatch(
                r"this\.CFG\.getAllControlFlowEdges\(%s\)" % f,
                (pushed(it) or ("",))[0]) for it in topitems(q)) or any(
                    it.loops and re.fullmatch(
                        r"this\.CFG\.getAllControlFlowEdges\(%s\)" % f,
                        t2s(it.loops[-1].container or ("none",))) and
                    whole(it.loops[-1]) and pushed(it) ==
                    ("elem(%s).first" % t2s(it.loops[-1].container),
                     "elem(%s).second" % t2s(it.loops[-1].container))
                    for it in items([q]))
            # an entry point that is not defined has no edges
            if any(re.fullmatch(r"!(?:truthy\()?%s\)?|isnull\(%s\)|"
                                r"\((?:null == %s|%s == null)\)" % (
                                    f, f, f, f), x) for x in lits(q.pc)):
                continue
            ctx.ob("edges", ok, w, "the control-flow edges of an entry point "
                   "are not put into the work-list", fn.qn)
            top = False
            for it in items([q]):
                if it.loops and it.loops[-1].container is not None and \
                        re.fullmatch(r"this\.CFG\.getAllInstructionsOf\(%s\)"
                                     % f, t2s(it.loops[-1].container)) and \
                        whole(it.loops[-1]):
                    x = "elem(%s)" % t2s(it.loops[-1].container)
                    s = it.ev.s()
                    if x in s and s.count(IM + "allTop()") and (
                            last(it.ev.name) in (
                                "insert", "try_emplace", "emplace",
                                "insert_or_assign") or
                            it.ev.kind == "write"):
                        top = True
            ctx.ob("init", top or not ok, w, "not every instruction of an "
                   "entry point starts with the top value", fn.qn)
    # seeds
    sd = False
    for it in items([p]):
        if len(it.loops) != 1 or it.loops[0] not in ls:
            continue
        c = t2s(it.loops[0].container or ("none",))
        if c != IM + "initialSeeds()" or not whole(it.loops[0]):
            continue
        x = "elem(%s)" % c
        if it.ev.kind == "call" and it.ev.obj is not None and \
                t2s(it.ev.obj) == "%s[%s.first]" % (A, x) and last(
                    it.ev.name) == "insert" and "%s.second" % x in it.ev.s():
            sd = True
            ctx.ob("seeds", not (lits(it.path.pc)), w,
                   "seeds are only inserted if %s" % sorted(
                       lits(it.path.pc)), fn.qn)
        if it.ev.kind == "write" and t2s(it.ev.obj).startswith(A):
            ctx.ob("seeds", False, w, "the seeds replace what is known", "")
    ctx.ob("seeds", sd, w, "the initial seeds are not inserted at their "
           "nodes", fn.qn)


def edge(ctx, fn, q):
    """the edge that is taken out of the work-list"""
    take = put = None
    n = 0
    for it in topitems(q):
        e = it.ev
        if e.kind == "call" and e.obj is not None and t2s(e.obj) == \
                "this.Worklist":
            if last(e.name) in ("front", "back"):
                take = take or last(e.name)
            if last(e.name) in ("pop_front", "pop_back"):
                put = last(e.name)[4:]
                n += 1
    ctx.ob("take", take is not None and take == put and n == 1, where(fn),
           "the edge that is processed (%s) is not the one that is removed "
           "(%s)" % (take, put), fn.qn)
    return "this.Worklist.%s()" % take if take else None


def step(ctx, fn, q):
    w = where(fn)
    E = edge(ctx, fn, q)
    if E is None:
        return
    S, D = E + ".first", E + ".second"

    def out(n):
        return "%snormalFlow(%s, %s[%s])" % (IM, n, A, n)
    transfer(ctx, fn, q, S, D, out, "this.CFG", "%s[%s]" % (A, D),
             lambda ok: succs(ctx, fn, q, D, ok))


def transfer(ctx, fn, q, S, D, out, cfg, cell, again):
    """N = flow(S); joined with the other predecessors at branch targets;
    stored and enqueued iff it differs from what is known"""
    w = where(fn)
    L = lits(q.pc)
    N = out(S)
    bt = tri(L, esc(cfg) + r"\.isBranchTarget(?:Impl)?\(%s, %s\)" % (
        esc(S), esc(D)))
    j = joins(q, N, "%s.getPredsOf(%s)" % (cfg, D), out, S)
    ctx.ob("join", j is not False, w, "at a join, the facts of the other "
           "predecessors are not merged in (each with the facts that hold "
           "there)", fn.qn)
    ctx.ob("join", not (bt is not False and j is None), w, "the facts "
           "of the other predecessors are not merged in although the target "
           "may be a branch target", fn.qn)
    names = j or {N}
    stored(ctx, fn, q, names, cell, again)


def stored(ctx, fn, q, names, cell, again):
    w = where(fn)
    L = lits(q.pc)
    eq = None
    for l in L:
        b = l.lstrip("!")
        m = re.fullmatch(r"this\.IMProblem\.equal_to\((.*)\)", b)
        if m and any(m.group(1) in ("%s, %s" % (n, cell),
                                    "%s, %s" % (cell, n)) for n in names):
            eq = not l.startswith("!")
    ctx.ob("transfer", eq is not None, w, "the new facts (%s) are not "
           "compared with those stored (%s)" % (sorted(names), cell), fn.qn)
    if eq is None:
        return
    wr = [it for it in items([q]) if it.ev.kind == "write" and
          t2s(it.ev.obj).startswith(A)]
    ins = [it for it in items([q]) if other(it) and it.ev.kind == "call" and
           last(it.ev.name) in ("insert_or_assign", "insert", "emplace",
                                "erase", "clear", "try_emplace", "swap") and
           t2s(it.ev.obj).startswith(A)]
    if eq:
        ctx.ob("store", not wr and not ins, w, "facts that did not change "
               "are stored again", fn.qn)
    else:
        ctx.ob("store", len(wr) == 1 and not wr[0].loops and not ins and
               t2s(wr[0].ev.obj) == cell and t2s(wr[0].ev.args[0]) in names,
               w, "changed facts are not stored for the target of the edge: "
               "%s" % [(x.ev.s())[:150] for x in wr + ins], fn.qn)
    again(not eq)


def succs(ctx, fn, q, D, changed):
    w = where(fn)
    C = "this.CFG.getSuccsOf(%s)" % D
    hit = extra = 0
    for it in items([q]):
        p = pushed(it)
        if p is None:
            continue
        if p == (D, "elem(%s)" % C) and len(it.loops) == 1 and \
                t2s(it.loops[0].container or ("none",)) == C and \
                whole(it.loops[0]) and not lits(it.path.pc):
            hit += 1
        else:
            extra += 1
    if changed:
        ctx.ob("requeue", hit >= 1 and not extra, w, "the edges to the "
               "successors are not enqueued again after the facts changed",
               fn.qn)
    else:
        ctx.ob("requeue", not hit and not extra, w, "edges are enqueued "
               "although nothing changed", fn.qn)


def final(ctx, fn, p, ls):
    w = where(fn)
    ok = 0
    for l in ls:
        c = t2s(l.container) if l.container is not None else ""
        for q in live(l.paths):
            for it in topitems(q):
                if it.ev.kind == "write" and t2s(it.ev.obj) in (
                        "elem(%s).second" % A, "%s[elem(%s).first]" % (A, A)):
                    x = "elem(%s)" % A
                    ok += (c == A and whole(l) and not lits(q.pc) and
                           t2s(it.ev.args[0]) in (
                               "%snormalFlow(%s.first, %s.second)" % (
                                   IM, x, x),
                               "%snormalFlow(%s.first, %s[%s.first])" % (
                                   IM, x, A, x)))
    ctx.ob("final", ok == 1, w, "the facts behind each statement are not "
           "derived from those in front of it", fn.qn)


# ------------------------------------------------------------ call strings
def callstring(ctx, F):
    for fn in fns(F, CS + "push_back"):
        ps = live(ctx.summary(F, fn, versions=True))
        w = where(fn)
        full = set()
        for p in ps:
            ev = [it.ev.s() for it in topitems(p) if it.ev.kind == "call" and
                  not it.ev.pure and it.ev.obj is not None]
            ev = [x.replace("'", "") for x in ev]
            ev = [x for x in ev if not re.search(r"\.(size|empty)\(\)$", x)]
            keep = [x for x in ev if "pop_front" in x]
            ctx.ob("callstring", sorted(ev) == ["this.CallString.pop_front()"]
                   [:len(keep)] + ["this.CallString.push_back($0)"], w,
                   "the call site is not appended (the oldest dropped): %s" %
                   ev, fn.qn)
            for k, v in p.pc.items():
                # sizes asked for behind the insertion are one larger
                t = t2s(k)
                d = t.count("size'()")
                o, n = thr(t.replace("'", ""), v)
                full.add((bool(keep), (o, n - d if isinstance(n, int) else
                                       n)))
        # K = 3 in this instance: dropped iff three are already there
        ctx.ob("callstring", full == {(True, (">=", 3)), (False, ("<", 3))},
               w, "with K = 3, the oldest call site is dropped when %s" %
               sorted(map(str, full)), fn.qn)
    for fn in fns(F, CS + "pop_back"):
        for p in live(ctx.summary(F, fn)):
            w = where(fn)
            e = tri(lits(p.pc), r"empty\(this\.CallString\)")
            ev = [it.ev.s() for it in topitems(p) if it.ev.kind == "call"]
            pop = [x for x in ev if re.search(r"pop|erase|clear", x)]
            if e:
                ok = not pop
            else:
                ok = e is False and pop == ["this.CallString.pop_back()"] \
                    and t2s(p.ret) == "this.CallString.back()"
            ctx.ob("callstring", ok, w, "taking the last call site does %s "
                   "and yields %s" % (pop, t2s(p.ret)), fn.qn)


def thr(s, v):
    """`size > 2` -> (">=", 3)"""
    n = r"this\.CallString\.size\(\)"
    for rx, op, off, negop in (
            (r"\((\d+) < %s\)" % n, ">=", 1, "<"),
            (r"\(%s < (\d+)\)" % n, "<", 0, ">="),
            (r"\((\d+) <= %s\)" % n, ">=", 0, "<"),
            (r"\(%s <= (\d+)\)" % n, "<", 1, ">="),
            (r"\(%s == (\d+)\)" % n, ">=", 0, "<"),
            (r"\((\d+) == %s\)" % n, ">=", 0, "<")):
        m = re.fullmatch(rx, s)
        if m:
            return (op if v else negop), int(m.group(1)) + off
    return s, v


# --------------------------------------------------------- interprocedural
ICF = "this.ICF."
CALLEES = r"this\.ICF\.(?:getCallGraph\(\)\.)?getCalleesOfCallAt\({0}\)"
CALLERS = r"this\.ICF\.(?:getCallGraph\(\)\.)?getCallersOf\({0}\)"
FUN = r"this\.ICF\.getFunctionOf(?:Impl)?\({0}\)"
STOP = [INTER + x for x in (
    "addToWorklist", "addCalleesToWorklist", "processCall", "processExit",
    "processNormal", "initialize")]


def inter(ctx, F):
    kw = dict(copies=("CallStringCTX",))
    dispatch(ctx, F, kw)
    starting(ctx, F, kw)
    entering(ctx, F, kw)
    requeue(ctx, F, kw)
    normal(ctx, F, kw)
    callflow(ctx, F, kw)
    exitflow(ctx, F, kw)
    for fn in fns(F, INTER + "getResultsAt"):
        ps = live(ctx.summary(F, fn, **kw))
        ok = False
        for it in items(ps):
            if it.ev.kind == "call" and last(it.ev.name) == "insert" and \
                    it.loops and all(map(whole, it.loops)) and \
                    not lits(it.path.pc):
                x = "elem(%s[$0]).second" % A
                a = [t2s(y) for y in it.ev.args]
                if len(it.loops) == 2 and t2s(
                        it.loops[1].container or ("none",)) == x and \
                        a == ["elem(%s)" % x]:
                    a = [x]
                elif len(it.loops) != 1:
                    continue
                ok |= t2s(it.loops[0].container or ("none",)) == \
                    A + "[$0]" and a in ([x + ".begin()", x + ".end()"], [x],
                            ["begin(%s)" % x, "end(%s)" % x]) and any(
                    p.ret is not None and t2s(p.ret) == t2s(it.ev.obj)
                    for p in ps)
        ctx.ob("result", ok, where(fn), "the result at a statement is not "
               "the union over all its contexts", fn.qn)


def dispatch(ctx, F, kw):
    for fn in fns(F, INTER + "solve"):
        ps = live(ctx.summary(F, fn, stop=STOP, **kw))
        w = where(fn)
        for p in ps:
            ev = [e for e in p.ev if e.kind == "call" and
                  e.name == INTER + "initialize"]
            ls = [e.loop for e in p.ev if e.kind == "loop"]
            ctx.ob("done", len(ev) == 1 and len(ls) == 1 and drained(ls[0]),
                   w, "the iteration ends although edges are left", fn.qn)
            for l in ls:
                for q in goes_on(l):
                    E = edge(ctx, fn, q)
                    if not E:
                        continue
                    L = lits(q.pc)
                    cs = tri(L, r"isa<CallBase>\(%s\.first\)" % esc(E))
                    ex = tri(L, r"isa<ReturnInst>\(%s\.first\)|this\.ICF\."
                             r"isExitInst(?:Impl)?\(%s\.first\)" % (
                                 esc(E), esc(E)))
                    got = [last(it.ev.name) for it in topitems(q)
                           if it.ev.kind == "call" and it.ev.name in STOP and
                           t2s(it.ev.args[0]) == E]
                    want = (["addCalleesToWorklist", "processCall"] if cs
                            else ["processExit"] if ex else
                            ["processNormal"])
                    ctx.ob("dispatch", cs is not None and (
                        cs or ex is not None) and got == want, w,
                        "an edge with %s is handled by %s" % (
                            "a call" if cs else "a return" if ex else
                            "another instruction", got), fn.qn)


def empty_ctx(s):
    return s in ("CallStringCTX{}",)


def starting(ctx, F, kw):
    for fn in fns(F, INTER + "initialize"):
        ps = live(ctx.summary(F, fn, **kw))
        x = r"elem\(this\.IMProblem\.initialSeeds\(\)\)"
        ed = r"this\.ICF\.getAllControlFlowEdges\(%s\)" % FUN.format(
            x + r"\.first")
        filled(ctx, fn, ps, ed, [r"this\.IMProblem\.initialSeeds\(\)"])
        ins = [it for it in items(ps) if it.ev.kind == "call" and
               last(it.ev.name) == "insert" and it.ev.obj is not None and
               re.fullmatch(r"this\.Analysis\[%s\.first\]\[CallStringCTX\{\}"
                            r"\]" % x, t2s(it.ev.obj)) and all(
                   re.fullmatch(r"(?:begin\(|end\()?%s\.second(?:\.begin\(\)|"
                                r"\.end\(\)|\))?" % x, t2s(a))
                   for a in it.ev.args)]
        iff(ctx, "seeds", fn, ps, ins, [], "inserting the seeds at their "
            "nodes under the empty context",
            free=[r"empty\(.*\)"])
        ctx.ob("seeds", bool(ins), where(fn), "the seeds are not inserted "
               "under the empty context", fn.qn)
        # the top value must not overwrite the seeds
        for p in ps:
            for l in [e.loop for e in p.ev if e.kind == "loop"]:
                for q in live(l.paths):
                    ev = list(q.ev)
                    at = [i for i, e in enumerate(ev) if any(
                        e is it.ev for it in ins)]
                    late = [e for e in ev[at[0] + 1:] if at and (
                        e.kind == "write" and t2s(e.obj).startswith(A) or
                        e.kind == "loop" and any(
                            y.ev.kind == "write" for y in items(
                                e.loop.paths)))] if at else []
                    ctx.ob("seeds", not late, where(fn), "what is known is "
                           "overwritten after the seeds were inserted", fn.qn)


def filled(ctx, fn, ps, ed, outer):
    """all edges of a function are enqueued; all their nodes start with top
    under the empty context"""
    w = where(fn)
    push = [it for it in items(ps) if re.fullmatch(
        ed, (pushed(it) or ("",))[0])]
    ctx.ob("edges", bool(push), w, "the control-flow edges of the function "
           "are not put into the work-list", fn.qn)
    for it in push:
        over(ctx, "edges", fn, it, outer, "enqueuing the edges")
    src = lst = False
    for it in items(ps):
        if it.ev.kind != "write":
            continue
        o, v = t2s(it.ev.obj), t2s(it.ev.args[0])
        m = re.fullmatch(r"this\.Analysis\[(.*)\]\[CallStringCTX\{\}\]", o)
        if not m:
            ctx.ob("init", not o.startswith(A), w, "facts are set at %s" % o,
                   fn.qn)
            continue
        ctx.ob("init", v == IM + "allTop()", w, "statements start with %s" %
               v, fn.qn)
        n = m.group(1)
        if re.fullmatch(r"elem\(%s\)\.first" % ed, n) and whole(it.loops[-1]):
            src = True
        elif re.fullmatch(r"(?:%s\.back\(\)|elem\(%s\))\.second" % (ed, ed),
                          n):
            lst = True
    ctx.ob("init", src and lst, w, "not every statement of the function "
           "starts with the top value", fn.qn)


def entering(ctx, F, kw):
    for fn in fns(F, INTER + "addCalleesToWorklist"):
        ps = live(ctx.summary(F, fn, **kw))
        w = where(fn)
        S = "$0.first"
        C = CALLEES.format(esc(S))
        c = r"elem\(%s\)" % C
        ed = r"this\.ICF\.getAllControlFlowEdges\(%s\)" % c
        seen = r"this\.AddedFunctions has %s" % c
        new = r"(?:truthy\()?this\.AddedFunctions\.(?:insert|emplace)\(%s" \
            r"\)\.second\)?" % c
        first = "!" + seen
        if any(re.fullmatch(new, x.lstrip("!")) for it in items(ps)
               for x in lits(it.pc)):
            first = new
        for p in ps:
            ls = [e.loop for e in p.ev if e.kind == "loop"]
            ok = len(ls) == 1 and re.fullmatch(C, t2s(
                ls[0].container or ("none",)))
            ctx.ob("callees", bool(ok), w, "not every callee is entered",
                   fn.qn)
            for l in ls:
                ctx.ob("callees", whole(l), w, "once a callee is known, the "
                       "callees behind it are not entered", fn.qn)
        filled(ctx, fn, ps, ed, [C])
        pushes = []
        for it in items(ps):
            p = pushed(it)
            if p is None or len(p) < 2:
                continue
            loops = [t2s(l.container or ("none",)) for l in it.loops]
            st = r"this\.ICF\.getStartPointsOf\(%s\)" % c
            ex = r"this\.ICF\.getExitPointsOf\(%s\)" % c
            rs = r"this\.ICF\.getReturnSitesOfCallAt\(%s\)" % esc(S)
            if p[0] == S and re.fullmatch(r"elem\(%s\)" % st, p[1]):
                over(ctx, "callees", fn, it, [C, st], "the call edges")
                pushes.append((0, it))
            elif re.fullmatch(r"elem\(%s\)" % ex, p[0]) and re.fullmatch(
                    r"elem\(%s\)" % rs, p[1]):
                ok = len(loops) == 3 and any(re.fullmatch(
                    ex, x) for x in loops) and any(re.fullmatch(rs, x)
                                                   for x in loops)
                ctx.ob("callees", ok and all(map(whole, it.loops)), w,
                       "the return edges: done for each of %s" % loops, fn.qn)
                pushes.append((1, it))
            else:
                ctx.ob("callees", False, w, "an edge from %s to %s is "
                       "enqueued" % p, fn.qn)
        for k, what in ((0, "enqueuing the call edges"),
                        (1, "enqueuing the return edges")):
            iff(ctx, "callees", fn, ps, [it for j, it in pushes if j == k],
                [first], what, free=[r"empty\(.*\)"])
        add = [it for it in items(ps) if it.ev.kind == "call" and
               it.ev.obj is not None and t2s(it.ev.obj) ==
               "this.AddedFunctions" and last(it.ev.name) in (
                   "insert", "emplace")]
        ctx.ob("callees", all(re.fullmatch(c, t2s(it.ev.args[0]))
                              for it in add), w,
               "another function is marked as entered", fn.qn)


def requeue(ctx, F, kw):
    for fn in fns(F, INTER + "addToWorklist"):
        ps = live(ctx.summary(F, fn, **kw))
        w = where(fn)
        S, D = "$0.first", "$0.second"
        iscall = r"isa<CallBase>\(\$0\.second\)"
        isexit = r"isa<ReturnInst>\(\$0\.second\)|this\.ICF\.isExitInst" \
                 r"(?:Impl)?\(\$0\.second\)"
        d = esc(D)
        sc = r"this\.ICF\.getSuccsOf\(%s\)" % d
        ce = CALLEES.format(d)
        st = r"this\.ICF\.getStartPointsOf\(elem\(%s\)\)" % ce
        cr = CALLERS.format(FUN.format(d))
        rs = r"this\.ICF\.(?:getSuccsOf|getReturnSitesOfCallAt)" \
             r"\(elem\(%s\)\)" % cr
        G = {k: [] for k in ("self", "succ", "call", "ret")}
        for it in items(ps):
            p = pushed(it)
            if p is None:
                continue
            if p == (S, D) or p == ("$0.first", "$0.second"):
                G["self"].append(it)
            elif p[0] == D and re.fullmatch(r"elem\(%s\)" % sc, p[-1]):
                G["succ"].append(it)
                over(ctx, "requeue", fn, it, [sc], "the successors")
            elif p[0] == D and re.fullmatch(r"elem\(%s\)" % st, p[-1]):
                G["call"].append(it)
                over(ctx, "requeue", fn, it, [ce, st], "the start points of "
                     "the callees")
            elif p[0] == D and re.fullmatch(r"elem\(%s\)" % rs, p[-1]):
                G["ret"].append(it)
                over(ctx, "requeue", fn, it, [cr, rs], "the return sites of "
                     "the callers")
            else:
                ctx.ob("requeue", False, w, "an edge %s is enqueued" % (p,),
                       fn.qn)
        iff(ctx, "requeue", fn, ps, G["succ"], [], "enqueuing the edges to "
            "the successors")
        iff(ctx, "requeue", fn, ps, G["call"], [iscall], "enqueuing the "
            "edges into the callees")
        iff(ctx, "requeue", fn, ps, G["ret"], [isexit], "enqueuing the "
            "edges back to the callers")
        for k in ("succ", "call", "ret"):
            ctx.ob("requeue", bool(G[k]), w, "the %s edges are not enqueued "
                   "again" % k, fn.qn)


CT = "elem(%s[$0.first]).first" % A
FACTS = {"%s[$0.first][%s]" % (A, CT), "elem(%s[$0.first]).second" % A}


def canon(s):
    return s.replace("elem(%s[$0.first]).second" % A,
                     "%s[$0.first][%s]" % (A, CT))


def ctxloop(ctx, fn, p):
    """the loop over all contexts at the source of the edge"""
    ls = [e.loop for e in p.ev if e.kind == "loop"]
    ok = len(ls) == 1 and t2s(ls[0].container or ("none",)) == \
        A + "[$0.first]" and whole(ls[0])
    ctx.ob("contexts", ok, where(fn), "not every context at the source of "
           "the edge is processed", fn.qn)
    return ls[0] if ok else None


class CPath:
    """a path with the facts at the source written in one way"""


def recalled(ctx, fn, q):
    def again(changed):
        got = [it for it in topitems(q) if it.ev.kind == "call" and
               it.ev.name == INTER + "addToWorklist"]
        if changed:
            ctx.ob("requeue", len(got) == 1 and t2s(got[0].ev.args[0]) in (
                "pair{$0.first, $0.second}", "$0",
                "{$0.first, $0.second}"), where(fn),
                "the edge is not enqueued again after the facts changed",
                fn.qn)
        else:
            ctx.ob("requeue", not got, where(fn), "edges are enqueued "
                   "although nothing changed", fn.qn)
    return again


def normal(ctx, F, kw):
    for fn in fns(F, INTER + "processNormal"):
        for p in live(ctx.summary(F, fn, stop=STOP, **kw)):
            l = ctxloop(ctx, fn, p)
            for q in live(l.paths) if l else ():
                f = facts_of(q)

                def out(n):
                    return "%snormalFlow(%s, %s)" % (
                        IM, n, f if n == "$0.first" else "%s[%s][%s]" % (
                            A, n, CT))
                transfer(ctx, fn, q, "$0.first", "$0.second", out,
                         "this.ICF", "%s[$0.second][%s]" % (A, CT),
                         recalled(ctx, fn, q))


def facts_of(q):
    """how the path names the facts at the source"""
    for it in items([q]):
        if it.ev.kind == "call" and re.search(r"Flow$", it.ev.name):
            for a in it.ev.args:
                if t2s(a) in FACTS:
                    return t2s(a)
    return "%s[$0.first][%s]" % (A, CT)


def callflow(ctx, F, kw):
    for fn in fns(F, INTER + "processCall"):
        w = where(fn)
        seen = set()
        for p in live(ctx.summary(F, fn, stop=STOP, **kw)):
            L = lits(p.pc)
            f1, f2 = FUN.format(r"\$0\.first"), FUN.format(r"\$0\.second")
            intra_ = tri(L, r"\((?:{0} == {1}|{1} == {0})\)".format(f1, f2))
            if intra_ is None:
                ctx.ob("callflow", False, w, "call and call-to-return edges "
                       "are not told apart", fn.qn)
                continue
            seen.add(intra_)
            l = ctxloop(ctx, fn, p)
            for q in live(l.paths) if l else ():
                fl = [it.ev for it in topitems(q) if it.ev.kind == "call" and
                      re.search(r"Flow$", it.ev.name) and it.ev.obj is not
                      None and t2s(it.ev.obj) == "this.IMProblem"]
                if len(fl) != 1:
                    ctx.ob("transfer", False, w, "%d flow functions are "
                           "applied" % len(fl), fn.qn)
                    continue
                a = [t2s(x) for x in fl[0].args]
                if intra_:
                    ok = last(fl[0].name) == "callToRetFlow" and len(
                        a) == 4 and a[:2] == ["$0.first", "$0.second"] and \
                        re.fullmatch(CALLEES.format(r"\$0\.first"), a[2]) \
                        and a[3] in FACTS
                    cell = "%s[$0.second][%s]" % (A, CT)
                else:
                    ok = last(fl[0].name) == "callFlow" and len(a) == 3 and \
                        a[0] == "$0.first" and re.fullmatch(f2, a[1]) and \
                        a[2] in FACTS
                    k = "CallStringCTX{%s}" % CT
                    cell = "%s[$0.second][%s]" % (A, k)
                    n = [it.ev for it in topitems(q) if it.ev.obj is not
                         None and t2s(it.ev.obj) == k or any(
                             k in t2s(x) for x in it.ev.args)]
                    ctx.ob("context", bool(n) and n[0].s() ==
                           k + ".push_back($0.first)" and sum(
                               x.obj is not None and t2s(x.obj) == k and
                               not x.pure for x in n) == 1, w,
                           "the callee is not entered under the context "
                           "extended by the call", fn.qn)
                ctx.ob("transfer", bool(ok), w, "%s(%s) is applied to the "
                       "%s edge" % (last(fl[0].name), ", ".join(a)[:200],
                                    "call-to-return" if intra_ else "call"),
                       fn.qn)
                stored(ctx, fn, q, {t2s(fl[0].term)}, cell,
                       recalled(ctx, fn, q))
        ctx.ob("callflow", seen == {True, False}, w, "call or call-to-return "
               "edges are not processed", fn.qn)


def exitflow(ctx, F, kw):
    for fn in fns(F, INTER + "processExit"):
        w = where(fn)
        K = "CallStringCTX{%s}" % CT
        for p in live(ctx.summary(F, fn, stop=STOP, **kw)):
            l = ctxloop(ctx, fn, p)
            for q in live(l.paths) if l else ():
                e = tri(lits(q.pc), r"empty\((?:CallStringCTX\{)?%s\}?"
                        r"\.CallString\)" % esc(CT))
                ctx.ob("context", e is not None, w, "the empty context is "
                       "not told apart", fn.qn)
                fl = [it for it in items([q]) if it.ev.kind == "call" and
                      last(it.ev.name) == "returnFlow"]
                ok = bool(fl)
                sites = set()
                for it in fl:
                    a = [t2s(x) for x in it.ev.args]
                    m = re.fullmatch(r"elem\((.*)\)", a[0])
                    ok &= len(a) == 5 and m is not None and re.fullmatch(
                        FUN.format(r"\$0\.first"), a[1]) is not None and \
                        a[2] == "$0.first" and a[4] in FACTS and \
                        len(it.loops) == 1 and whole(it.loops[0]) and \
                        not lits(it.path.pc)
                    if m:
                        sites.add(m.group(1))
                ctx.ob("transfer", ok and len(sites) == 1, w, "the return "
                       "flow is not applied for every call site", fn.qn)
                if len(sites) != 1:
                    continue
                V = sites.pop()
                fill = [it.ev.s() for it in topitems(q) if it.ev.kind ==
                        "call" and it.ev.obj is not None and t2s(it.ev.obj)
                        == V and not it.ev.pure and last(it.ev.name) not in
                        ("begin", "end")]
                cr = CALLERS.format(FUN.format(r"\$0\.first"))
                if e:
                    good = len(fill) == 1 and re.search(
                        r"\.(?:append|insert)\(.*begin\(%s\), end\(%s\)\)$" %
                        (cr, cr), fill[0]) or not fill and re.fullmatch(
                            cr, V)
                else:
                    good = len(fill) == 1 and re.search(
                        r"\.(?:push|emplace)_back\(%s\.pop_back\(\)\)$" %
                        esc(K), fill[0])
                ctx.ob("context", bool(good), w, "with%s a calling context, "
                       "the call sites are %s" % ("out" if e else "", fill),
                       fn.qn)
                returned(ctx, fn, q, V, K if e is False else None)


def returned(ctx, fn, q, V, K):
    w = where(fn)
    keys = {K} if K else {CT, "CallStringCTX{%s}" % CT}
    fl = [it for it in items([q]) if it.ev.kind == "call" and
          last(it.ev.name) == "returnFlow"]
    T = t2s(fl[0].ev.term)
    acc = {t2s(it.ev.obj) for it in items([q]) if it.ev.kind == "call" and
           last(it.ev.name) == "insert" and it.ev.obj is not None and
           any(T in t2s(a) for a in it.ev.args)}
    ctx.ob("returned", len(acc) == 1 and any(x.endswith("[%s]" % k) for x in
                                              acc for k in keys), w,
           "the returned facts are collected in %s" % sorted(acc), fn.qn)
    if len(acc) != 1:
        return
    O = acc.pop()
    # the return sites of every call site
    R = None
    for e in q.ev:
        if e.kind != "loop" or e.loop.container is None:
            continue
        for r in live(e.loop.paths):
            for it in topitems(r):
                m = it.ev.kind == "write" and re.fullmatch(
                    r"this\.Analysis\[elem\((.*)\)\]\[(.*)\]",
                    t2s(it.ev.obj))
                if m and m.group(2) in keys and m.group(1) == t2s(
                        e.loop.container):
                    R = e.loop
    ctx.ob("returned", R is not None and whole(R), w, "the returned facts "
           "are not stored at every return site", fn.qn)
    if R is None:
        return
    rc = t2s(R.container)
    src = [it for it in items([q]) if it.ev.kind == "call" and it.ev.obj is
           not None and t2s(it.ev.obj) == rc and last(it.ev.name) in (
               "insert", "append")]
    rs = ICF + "getReturnSitesOfCallAt(elem(%s))" % V
    ctx.ob("returned", len(src) >= 1 and all(
        all(map(whole, it.loops)) and rs in it.ev.s() and
        [t2s(x.container or ("none",)) for x in it.loops] in (
            [V], [V, rs]) and (len(it.loops) == 2) == (
                len(it.ev.args) == 1 and t2s(it.ev.args[0]) ==
                "elem(%s)" % rs) and
        not lits(it.path.pc) for it in src), w,
        "the facts do not reach the return sites of every call site", fn.qn)
    for r in live(R.paths):
        cell = [t2s(it.ev.obj) for it in topitems(r) if it.ev.kind == "write"
                and t2s(it.ev.obj).startswith("%s[elem(%s)]" % (A, rc))]
        eq = None
        for x in lits(r.pc):
            m = re.fullmatch(r"!?this\.IMProblem\.equal_to\((.*)\)", x)
            if m and any(m.group(1) in (
                    "%s, %s[elem(%s)][%s]" % (O, A, rc, k),
                    "%s[elem(%s)][%s], %s" % (A, rc, k, O)) for k in keys):
                eq = not x.startswith("!")
        ctx.ob("returned", eq is not None, w, "the returned facts are not "
               "compared with those at the return site", fn.qn)
        if eq is None or eq:
            continue
        val = None
        for it in topitems(r):
            if it.ev.kind == "write" and t2s(it.ev.obj) in cell:
                val = it.ev.args[0]
        ins = [it.ev.s() for it in topitems(r) if it.ev.kind == "call" and
               it.ev.obj is not None and val is not None and
               it.ev.obj == val and last(it.ev.name).startswith("insert")]
        txt = t2s(val) if val is not None else ""
        has = lambda x: any(x + ".begin()" in s or "begin(%s)" % x in s
                            for s in ins) or x in txt
        ctx.ob("returned", len(cell) == 1 and has(O) and any(
            has("%s[elem(%s)][%s]" % (A, rc, k)) for k in keys), w,
            "the return site does not get the union of its facts and the "
            "returned ones", fn.qn)
        got = [it for it in topitems(r) if it.ev.kind == "call" and (
            it.ev.name == INTER + "addToWorklist" or pushed(it))]
        ctx.ob("return-requeue", bool(got), w, "the successors of a return "
               "site are not enqueued when the returned facts change it",
               fn.qn)
