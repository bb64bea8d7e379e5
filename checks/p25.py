"""P25: stepwise, interruptible and continued solving reach the same final
result as an uninterrupted run."""
from ide import *
from facts import walk_ex, walk_st, stmt_exprs, fn_exprs

MIX = "psr::IDESolverAPIMixin"
PUBLIC = {"solve": (True, False), "continueSolving": (False, False),
          "solveUntil": (True, True), "continueUntil": (False, True),
          "solveWithTimeout": (True, True),
          "continueWithTimeout": (False, True),
          "solveWithAsyncCancellation": (True, True),
          "continueWithAsyncCancellation": (False, True)}
EXPLAIN = ("Typestate of the solving protocol (fresh, more, done, finalized) "
           "over the dataflow summaries of every public solving entry point "
           "(lvalue and rvalue overloads, all cancellation styles), plus a "
           "lower-bound dataflow on the number of steps between two "
           "cancellation checks.")


def lower(e, env):
    """lower bound of an unsigned expression"""
    t = e[0]
    if t == "i":
        return e[1] if isinstance(e[1], int) else 0
    if t in ("icast", "cast"):
        return lower(e[2], env)
    if t in ("cp", "mv", "ctor") and len(e[3]) == 1:
        return lower(e[3][0], env)
    if t == "call":
        if last(e[2]) == "max" and e[2].startswith("std::") and \
                len(e[4]) >= 2:
            return max(lower(a, env) for a in e[4][:2])
        if last(e[2]) == "max" and len(e[4]) == 1 and e[4][0][0] == "il":
            return max(lower(a, env) for a in e[4][0][1])
        if last(e[2]) == "min" and len(e[4]) >= 2:
            return min(lower(a, env) for a in e[4][:2])
        if last(e[2]) == "clamp" and len(e[4]) >= 3:
            return lower(e[4][1], env)
        return 0
    if t == "cond":
        c = e[1]
        a, b = lower(e[2], env), lower(e[3], env)
        # x ? x : c  /  x == 0 ? c : x
        def var(x):
            while x[0] in ("icast", "cast", "tobool"):
                x = x[2] if x[0] != "tobool" else x[1]
            return x[1] if x[0] == "v" else None
        v = var(c)
        if v is not None and var(e[2]) == v:
            a = max(a, 1)
        if c[0] == "bin" and c[1] in ("==", "!=", ">"):
            z = c[3]
            while z[0] in ("icast", "cast"):
                z = z[2]
            if z[0] == "i" and z[1] == 0 and var(c[2]) is not None:
                if c[1] == "==" and var(e[3]) == var(c[2]):
                    b = max(b, 1)
                if c[1] != "==" and var(e[2]) == var(c[2]):
                    a = max(a, 1)
        return min(a, b)
    if t == "bin":
        a, b = lower(e[2], env), lower(e[3], env)
        if e[1] == "+":
            return a + b
        if e[1] == "*":
            return a * b
        if e[1] == "|":
            return max(a, b)
        return 0
    if t == "v":
        return env(e[1])
    return 0


def var_lower(fn, did, depth=0):
    """minimum over every value ever assigned to a local"""
    if depth > 4:
        return 0
    vals = []
    env = lambda d: (10 ** 9 if d == did else var_lower(fn, d, depth + 1))
    for s in walk_st(fn.body):
        if s[0] == "decl":
            for d in s[2]:
                if d[0] == did:
                    vals.append(lower(d[3], env) if d[3] is not None else 0)
    ifs = []
    for e in stmt_exprs(fn.body):
        for x in walk_ex(e):
            if x[0] == "asg" and x[2][0] == "v" and x[2][1] == did:
                if x[1] == "=":
                    vals.append(lower(x[3], env))
                elif x[1] in ("+=", "|="):
                    pass
                else:
                    vals.append(0)
            if x[0] == "un" and x[1] in ("--", "post--", "pre--") and \
                    x[2][0] == "v" and x[2][1] == did:
                vals.append(0)
            if x[0] == "un" and x[1] == "&" and x[2][0] == "v" and \
                    x[2][1] == did:
                vals.append(0)
    return min(vals) if vals else 0


def guarded_positive(fn, did):
    """if (x == 0) x = 1; as the last write before the loop continues"""
    hits = 0
    for s in walk_st(fn.body):
        if s[0] == "if" and s[4] is not None:
            c = s[4]
            vs = {x[1] for x in walk_ex(c) if x[0] == "v"}
            if did in vs:
                for e in stmt_exprs(s[5]):
                    for x in walk_ex(e):
                        if x[0] == "asg" and x[2][0] == "v" and \
                                x[2][1] == did and lower(x[3],
                                                         lambda d: 0) > 0:
                            hits += 1
    return hits


def cancel_lit(L, pos=True):
    for x in L:
        neg = x.startswith("!")
        b = x.lstrip("!")
        if re.fullmatch(r"\(.* < \$0\)", b):
            # elapsed < timeout
            if neg == pos:
                return True
            continue
        if re.fullmatch(r"\(\$0 < .*\)", b):
            if neg != pos:
                return True
            continue
        if neg == pos:
            continue
        if "invoke($" in b or ".load(" in b or re.match(r"\(?\$0\(", b) or \
                "truthy($0" in b or \
                "$0" in b and "next" not in b and "initialize" not in b:
            return True
    return False


def run(ctx):
    F = ctx.facts(TU)
    stops = ["next", "initialize", "finalize", "nextN"]
    done = re.compile(r"!this\.(next\(\)|nextN\(.*\)|initialize\(\))")
    for name, (starts, intr) in PUBLIC.items():
        for fn in F.find(MIX + "::" + name):
            ps = ctx.summary(F, fn, stop=stops)
            w = where(fn)
            for p in ps:
                if p.exit in ("noreturn", "throw"):
                    continue
                L = lits(p.pc)
                evs = [e for e in p.ev if e.kind == "call"]
                nfin = sum(last(e.name) == "finalize" for e in evs)
                nin = sum(last(e.name) == "initialize" for e in evs)
                inloop = [it for it in items([p]) if it.loops and
                          it.ev.kind == "call" and last(it.ev.name) in
                          ("finalize", "initialize")]
                cond = " & ".join(sorted(L))[:300]
                ctx.ob("protocol-start", nin == (1 if starts else 0) and
                       not inloop, w,
                       "%s must %s (path: %s)" % (
                           name, "initialize exactly once" if starts else
                           "not re-initialize", cond), name)
                isdone = any(done.fullmatch(x) for x in L)
                ret = p.ret is not None and any(
                    x[0] == "call" and last(x[1]) == "finalize"
                    for x in subterms(p.ret))
                if ret or not intr:
                    ctx.ob("result-only-at-fixpoint", isdone and ret and
                           nfin == 1, w, "%s hands out a result although the "
                           "solver may have steps left (path: %s)" %
                           (name, cond), name)
                else:
                    ctx.ob("no-result-means-interrupted",
                           cancel_lit(L) and nfin == 0, w,
                           "%s returns no result on a path without a "
                           "cancellation request (path: %s)" % (name, cond),
                           name)
            # a not interrupted, finished run must deliver
            if intr:
                ctx.ob("result-delivered", any(
                    p.ret is not None and any(
                        x[0] == "call" and last(x[1]) == "finalize"
                        for x in subterms(p.ret)) for p in ps), w,
                    "%s never returns a result" % name, name)
    # stepping loops end only when the solver is done or cancelled
    for name in ("continueUntilImpl", "continueWithAsyncCancellationImpl",
                 "continueImpl", "nextN"):
        for fn in F.find(MIX + "::" + name, need=False):
            ps = ctx.summary(F, fn, stop=["next"] if name == "nextN"
                             else stops)
            w = where(fn)
            for p in ps:
                for e in p.ev:
                    if e.kind != "loop":
                        continue
                    for x in e.loop.exits:
                        L = lits(x)
                        ok = any(done.fullmatch(z) for z in L) or \
                            cancel_lit(L) or \
                            (name == "nextN" and any(
                                "$0" in z for z in L))
                        ctx.ob("loop-exit", ok, w, "stops stepping although "
                               "the solver has steps left and nobody asked "
                               "to stop (%s)" % " & ".join(sorted(L))[:200],
                               name)
                if name == "nextN" and p.exit == "return":
                    L = lits(p.pc)
                    fin = any(done.fullmatch(z) for z in L)
                    ctx.ob("step-result", is_t(p.ret, "false") == fin and
                           (fin or is_t(p.ret, "true")), w,
                           "nextN must return false exactly when the solver "
                           "is done (path: %s)" % " & ".join(sorted(L))[:200],
                           name)
                if name == "nextN":
                    for e in p.ev:
                        if e.kind == "loop":
                            for q in e.loop.paths:
                                n = sum(x.kind == "call" and
                                        last(x.name) == "next" for x in q.ev)
                                ctx.ob("step-count", n == 1, w, "one "
                                       "iteration must perform one step",
                                       name)
    # progress between two cancellation checks
    n = 0
    for fn in F.all_fns():
        if fn.decl.cls != MIX:
            continue
        for e in stmt_exprs(fn.body):
            for x in walk_ex(e):
                if x[0] == "call" and last(x[2]) == "nextN" and x[4]:
                    n += 1
                    a = x[4][0]
                    while a[0] in ("icast", "cast"):
                        a = a[2]
                    lb = lower(a, lambda d: var_lower(fn, d))
                    if lb < 1 and a[0] == "v" and guarded_positive(fn, a[1]):
                        lb = 1
                    ctx.ob("progress", lb >= 1, "%s:%d" %
                           (rel(fn.file), x[6]),
                           "the number of steps until the next cancellation "
                           "check can become 0, then the solver never "
                           "advances", fn.qn)
    ctx.atleast("progress", 1)
    # a run interrupted after its last step can be continued
    for fn in F.find(SOLVER + "::doNext"):
        ps = ctx.summary(F, fn, opaque=iface, stop=["propagate"])
        w = where(fn)
        pops = {t2s(e.obj) for p in ps for e in p.ev if e.kind == "call" and
                last(e.name) in ("pop_back", "pop_front", "pop")}
        ctx.ob("step-takes-edge", len(pops) == 1, w,
               "a step must take exactly one edge off one worklist", fn.qn)
        for wl in pops:
            guard = any(p.exit == "return" and "empty(%s)" % wl in lits(p.pc)
                        and not any(e.kind == "call" and
                                    t2s(e.obj) == wl and not e.pure
                                    for e in p.ev) and is_t(p.ret, "false")
                        for p in ps)
            ctx.ob("continue-after-last-step", guard, w,
                   "a solver that was interrupted right after its last step "
                   "cannot be continued: the step takes an edge from an empty "
                   "worklist", fn.qn)
            for p in ps:
                if p.exit != "return":
                    continue
                L = lits(p.pc)
                popped = [e for e in p.ev if e.kind == "call" and
                          t2s(e.obj) == wl and last(e.name).startswith("pop")]
                prop = [e for e in p.ev if e.kind == "call" and
                        last(e.name) == "propagate"]
                more = "!empty(%s)" % wl in L
                ctx.ob("step-result", is_t(p.ret, "true" if more else "false")
                       or is_t(p.ret, "!empty(%s)" % wl) or
                       is_t(p.ret, "not(empty(%s))" % wl), w,
                       "a step must report whether the worklist has more "
                       "edges", fn.qn)
                if popped:
                    src = r"%s\.(back|front|top)\(\)" % re.escape(wl)
                    ok = len(popped) == 1 and len(prop) == 1 and \
                        len(prop[0].args) == 4 and all(
                            re.fullmatch(src + s, t2s(a)) for a, s in zip(
                                prop[0].args,
                                (r"\.first\.DSource", r"\.first\.Target",
                                 r"\.first\.DTarget", r"\.second")))
                    if ok:
                        rd = re.search(r"\.(back|front|top)\(\)",
                                       t2s(prop[0].args[0])).group(1)
                        pp = last(popped[0].name)
                        ok = {"back": "pop_back", "front": "pop_front",
                              "top": "pop"}[rd] == pp
                    ctx.ob("step-processes-edge", ok, w, "the edge taken off "
                           "the worklist is not the one that is propagated",
                           fn.qn)
    for fn in F.find(SOLVER + "::doInitialize"):
        ps = ctx.summary(F, fn, opaque=iface, stop=["submitInitialSeeds"])
        for p in ps:
            if p.exit == "return":
                L = lits(p.pc)
                wl = next((x for x in L if "empty(" in x), None)
                more = wl is not None and wl.startswith("!")
                ctx.ob("initialize-result", sum(
                    last(e.name) == "submitInitialSeeds" for e in p.ev
                    if e.kind == "call") == 1 and
                    (is_t(p.ret, "true" if more else "false") or
                     "empty(" in t2s(p.ret)), where(fn),
                    "initialize must seed the worklist and report whether "
                    "it has edges", fn.qn)
    for fn in F.find(SOLVER + "::doFinalize"):
        ps = ctx.summary(F, fn, opaque=iface, stop=["computeValues",
                                                    "emitESGAsDot"])
        for p in ps:
            L = lits(p.pc)
            nv = sum(e.kind == "call" and last(e.name) == "computeValues" and
                     t2s(e.obj) == "this" for e in p.ev)
            want = any(re.fullmatch(r"this\.\w+\.computeValues\(\)", x)
                       for x in L)
            ctx.ob("finalize-values", nv == (1 if want else 0), where(fn),
                   "finalize must run the value phase exactly when it is "
                   "enabled", fn.qn)
    ctx.atleast("result-only-at-fixpoint", 30)
    ctx.atleast("loop-exit", 8)
    ctx.atleast("continue-after-last-step", 2)
