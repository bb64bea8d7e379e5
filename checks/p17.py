"""P17: the flow-function building blocks denote what they document."""
import re
from spec import *
import ff as FF

EXPLAIN = ("Denotational evaluation of the flow-function factories: the "
           "object or closure a factory returns is applied to a symbolic "
           "fact, the returned set is read off the effects of every path, "
           "and compared with the documented function under every truth "
           "assignment of the conditions; structural judgement of the "
           "argument/parameter pairing in the inter-procedural mappers.")

T = "psr::FlowFunctionTemplates::"
SAME = r"(@S == {x})"


def others(ctx, rule, fn, outs):
    """a flow function has no effects besides its result (what is computed
    for one fact must not depend on the facts asked before)"""
    for o in outs:
        for e in o.other:
            if re.search(r"(computeTargets|getInstance)$", e.name.split(
                    "<")[0]):
                continue
            if e.kind == "write" and e.obj[0] == "loc" and e.obj[1] == "ff" \
                    or e.kind == "write" and e.obj[0] == "fld" or \
                    e.kind == "call" and e.obj is not None and \
                    stateful(e.obj):
                ctx.ob(rule, False, "%s:%d" % (fn.file, e.line),
                       "applying the flow function changes its own state: "
                       "%s" % e.s(), fn.qn)
    ctx.ob(rule, True, where(fn), "", fn.qn)


def stateful(o):
    while o[0] in ("fld", "elem", "deref") and len(o) > 1 and \
            isinstance(o[1], tuple):
        if o[0] == "fld":
            return True
        o = o[1]
    return o[0] == "glob" and o[1] != "S" or o[0] == "prm"


def flat(den):
    return [o for p, os in den for o in os]


def run(ctx):
    F = ctx.facts("flowfn.cpp")
    templates(ctx, F)
    zeroed(ctx, F)
    stores(ctx, F)
    along(ctx, F)
    callee(ctx, F)
    caller(ctx, F)


def one(F, qn, n=None):
    r = [f for f in F.all_fns() if f.qn == qn and f.body is not None and
         (n is None or len(f.ps) == n)]
    if not r:
        raise CheckError("no %s" % qn)
    return r


# ------------------------------------------------------------------ templates
def templates(ctx, F):
    eq = lambda i: SAME.format(x="$%d" % i)
    tab = {
        "identityFlow": ({}, lambda A: ["@S"]),
        "generateFlow": ({"from": eq(1)}, lambda A: ["@S", "$0"] if
                         A["from"] else ["@S"]),
        "generateFlowIf": ({"pred": "std::invoke($1, @S)"}, lambda A:
                           ["@S", "$0"] if A["pred"] else ["@S"]),
        "generateManyFlows": ({"from": eq(1)}, lambda A: ["@S", "*$0"] if
                              A["from"] else ["@S"]),
        "killFlow": ({"fact": eq(0)}, lambda A: [] if A["fact"] else ["@S"]),
        "killFlowIf": ({"pred": "std::invoke($0, @S)"}, lambda A:
                       [] if A["pred"] else ["@S"]),
        "killManyFlows": ({"in": "$0 has @S"}, lambda A: [] if A["in"] else
                          ["@S"]),
        "killAllFlows": ({}, lambda A: []),
        "generateFlowAndKillAllOthers": (
            {"from": eq(1)}, lambda A: ["@S", "$0"] if A["from"] else []),
        "generateManyFlowsAndKillAllOthers": (
            {"from": eq(1)}, lambda A: ["@S", "*$0"] if A["from"] else []),
        "transferFlow": (
            {"from": eq(1), "to": eq(0)}, lambda A: ["@S", "$0"] if A["from"]
            else [] if A["to"] else ["@S"]),
        "unionFlows": ({}, lambda A: ["*$0.computeTargets(@S)",
                                      "*$1.computeTargets(@S)"]),
        "lambdaFlow": ({}, lambda A: ["*std::invoke($0, @S)"]),
    }
    for n, (atoms, exp) in tab.items():
        for fn in one(F, T + n):
            outs = flat(FF.denote(ctx, F, fn))
            FF.same_fn(ctx, "denotation", fn, outs, atoms,
                       lift(outs, exp, n))
            others(ctx, "pure", fn, outs)
    # the container a range is turned into holds all of its elements
    for fn in one(F, "psr::detail::makeContainer"):
        ps = FF.live(ctx.summary(F, fn, keep_mem=2))
        for p in ps:
            o = FF.result(p, p.ret)
            ctx.ob("denotation", o.plain() == {"*$0"}, where(fn), "makeContainer yields %s "
                   "instead of the elements of the range" % sorted(
                       o.plain()), fn.qn)


def lift(outs, exp, n):
    return exp


def zeroed(ctx, F):
    c, = one(F, "psr::ZeroedFlowFunction::computeTargets")
    k, = one(F, "psr::ZeroedFlowFunction::(ctor)", 2)
    dele = zero = None
    for ini in k.inits or []:
        for v in [str(ini[1])]:
            if str(k.ps[0].id if hasattr(k.ps[0], "id") else k.ps[0][0]) in v:
                dele = dele or ini[0]
            elif str(k.ps[1][0]) in v:
                zero = zero or ini[0]
    ctx.ob("zeroed", bool(dele and zero), where(k), "the delegate and the "
           "zero value are not both stored", k.qn)
    if not (dele and zero):
        return
    outs = []
    e = FF.Engine(F, keep_mem=2)
    st = None
    ps = FF.live(ctx.summary(F, c, keep_mem=2))
    for p in ps:
        o = FF.result(p, p.ret)
        o.lits = frozenset(l.replace("$0", "@S") for l in o.lits)
        o.res = frozenset(FF.Entry(x.t.replace("$0", "@S"), x.whole, x.guard,
                                   x.loops, x.ls) for x in o.res)
        outs.append(o)
    Z, D = "this." + zero, "this." + dele
    for o in outs:
        isz = any(re.fullmatch(r"\((@S == %s|%s == @S)\)" % (
            re.escape(Z), re.escape(Z)), l) for l in o.lits)
        got = set(o.plain())
        want = {"*%s.computeTargets(@S)" % D}
        alt = [want | {Z}, want | {"@S"}] if isz else [want]
        ctx.ob("zeroed", got in alt, where(c), "%s fact: the result is %s" % (
            "the zero" if isz else "a non-zero", sorted(got)), c.qn)
    ctx.ob("zeroed", len(outs) >= 2, where(c), "the zero fact is not "
           "distinguished", c.qn)


def stores(ctx, F):
    P, B = "$0.getPointerOperand()", \
        "$0.getPointerOperand().stripPointerCasts()"
    fns = one(F, "psr::strongUpdateStore")
    ctx.ob("store", len(fns) >= 2, "flowfn", "strongUpdateStore variants")
    for fn in fns:
        gen = "std::invoke($1, @S)" if len(fn.ps) == 2 else \
            "(@S == $0.getValueOperand())|($0.getValueOperand() == @S)"
        atoms = {"nocast": "(%s == %s)" % (P, B), "ptr": "(%s == @S)" % P,
                 "base": "(%s == @S)" % B, "gen": gen.split("|")[-1]}

        def exp(A):
            if A["nocast"] and A["ptr"] != A["base"]:
                return None
            if A["ptr"] or A["base"]:
                return []
            if A["gen"]:
                return ["@S", P] if A["nocast"] else ["@S", P, B]
            return ["@S"]
        outs = flat(FF.denote(ctx, F, fn))
        for o in outs:
            # both are the same value when there is no cast
            if any(l == atoms["nocast"] for l in o.lits):
                o.res = frozenset(FF.Entry(P, e.whole, e.guard, e.loops, e.ls)
                                  if e.t == B else e for e in o.res)
                o.lits = frozenset(l.replace(B, P) if l != atoms["nocast"]
                                   else l for l in o.lits)
        FF.same_fn(ctx, "store", fn, outs, atoms, exp)
        others(ctx, "pure", fn, outs)


# -------------------------------------------------------------- call mappers
ZERO = r"~?(?:.*isLLVMZeroValue\(@S\)|\(.*LLVMZeroValue::getInstance\(\) " \
       r"== @S\))"
CONST = "isa<Constant>(@S)"


def prepare(outs):
    for o in outs:
        s = FF.fields(o)
        o.sub = s
        o.lits = frozenset(FF.resub(l, s) for l in o.lits)
        o.res = frozenset(FF.Entry(
            FF.resub(e.t, s), e.whole,
            frozenset(FF.resub(g, s) for g in e.guard),
            tuple(FF.resub(x, s) for x in e.loops), e.ls) for e in o.res)
    return outs


def tri(o, rx):
    """truth of an atom on the path: True/False/None"""
    for l in o.lits:
        if re.fullmatch(rx, l.lstrip("!")):
            return not l.startswith("!")
    return None


def roles(fn):
    """parameter index by name-independent position is fixed by the public
    signature"""
    return {n: "$%d" % i for i, n in enumerate(fn)}


def passthru(ctx, rule, fn, outs, cond, what):
    """the source itself is returned exactly if cond(zero, const, ...)"""
    for A in assigns(list(cond.atoms)):
        n = 0
        for o in outs:
            t = {k: tri(o, r) for k, r in cond.atoms.items()}
            if cond.dflt and t[cond.dflt] is None and any(
                    e.kind == "loop" for e in o.p.ev[o.n0:]):
                t[cond.dflt] = False
            if any(t[k] is not None and t[k] != A[k] for k in t):
                continue
            w = cond.f(A, o)
            if w is None:
                continue
            n += 1
            has = any(e.t == "@S" and not e.loops and not e.guard
                      for e in o.res)
            ctx.ob(rule, has == w, where(fn), "%s: the source fact is %s when "
                   "%s" % (what, "kept" if has else "dropped", fmtA(A)),
                   fn.qn)
        if not n:
            ok = cond.f(A, None) is None
            ctx.ob(rule, ok, where(fn), "%s: no way through when %s" % (
                what, fmtA(A)), fn.qn)


class Cond:
    def __init__(self, f, dflt=None, **atoms):
        self.dflt = dflt
        self.f, self.atoms = f, atoms


def along(ctx, F):
    for fn in one(F, "psr::mapFactsAlongsideCallSite"):
        outs = prepare(flat(FF.denote(ctx, F, fn)))
        others(ctx, "pure", fn, outs)
        arg = r"elem\(\$0\.args\(\)\)(?:\.get\(\))?|" \
              r"\$0\.getArgOperand\(.*\)"
        at = dict(zero=ZERO, const=re.escape(CONST), glob=r"\$2",
                  isarg=r"\((?:%s) == @S\)|\(@S == (?:%s)\)" % (arg, arg),
                  prop=r"std::invoke\(\$1, (?:%s|@S)\)" % arg)

        def f(A, o):
            if A["zero"]:
                return True
            if A["const"]:
                return A["glob"]
            return not A["isarg"]
        passthru(ctx, "alongside", fn, outs, Cond(f, "isarg", **at),
                 "call-to-return")
        for o in outs:
            t = {k: tri(o, r) for k, r in at.items()}
            ent = [e for e in o.res if e.t != "@S"]
            want = t["isarg"] and t["zero"] is not True and \
                t["const"] is not True
            ok = not ent if not want or t["prop"] is False else \
                t["prop"] is True and len(ent) == 1 and re.fullmatch(
                    r"std::invoke\(\$3, (?:%s|@S)\)" % arg, ent[0].t)
            ctx.ob("alongside", bool(ok), where(fn), "an argument fact is "
                   "mapped to %s when %s" % ([str(e) for e in ent],
                                             sorted(o.lits)), fn.qn)
            # every argument is compared before the fact counts as unrelated
            if not t["isarg"] and t["zero"] is not True and \
                    t["const"] is not True:
                ls = [e.loop for e in o.p.ev[o.n0:] if e.kind == "loop"]
                ok = any(covers(l, Pat(r".*\.args\(\)")) or args_idx(l) for l in ls)
                ctx.ob("alongside", bool(ok), where(fn), "not every argument "
                       "is compared with the fact", fn.qn)


def args_idx(l):
    return any("arg_size()" in x or "arg_end()" in x for pc in l.exits
               for x in lits(pc))


def count(l, o):
    """symbolic positions of the loop's counters: text -> entry text; None if
    one of them does not advance by one each round"""
    r = {}
    for v, en in l.entry.items():
        n = t2s(v)
        for kind, vals, pc in l.carry:
            if kind == "next" and t2s(vals.get(v)) not in (
                    "(%s + 1)" % n, "(1 + %s)" % n):
                return None
        r[n] = FF.resub(t2s(en), o.sub) if en is not None else "?"
    return r


def pos(text, cnt, kind, base):
    """(start offset, counter) of an argument/parameter expression"""
    if text.startswith("&"):
        text = text[1:]
    if text.startswith("*"):
        text = text[1:]
    x = re.fullmatch(r"(\?\w+)(?:\.get\(\))?", text)
    if x and x.group(1) in cnt:
        e = cnt[x.group(1)]
        b = "%s.%s_begin()" % (base, "arg")
        if e == b:
            return 0
        m = re.fullmatch(r"\(%s \+ (\d+)\)" % re.escape(b), e)
        return int(m.group(1)) if m else None
    m = re.fullmatch(re.escape(base) + r"\.(?:getArgOperand|getArg|getOperand)"
                     r"\((.*)\)", text)
    if m and m.group(1) in cnt and cnt[m.group(1)].isdigit():
        return int(cnt[m.group(1)])
    return None


def pairing(ctx, rule, fn, o, e, take, put, cs, fun):
    """an entry generated in the argument/parameter loop pairs argument i with
    parameter i, for all i from the start to the last parameter; returns the
    start or None"""
    l = e.ls[0]
    cnt = count(l, o)
    if cnt is None:
        ctx.ob(rule, False, where(fn), "arguments and parameters do not "
               "advance in step", fn.qn)
        return None
    a, b = (take, put)
    pa = [pos(x, cnt, "arg", cs) for x in (a, b)]
    pp = [pos(x, cnt, "prm", fun) for x in (a, b)]
    ia, ip = (pa[0], pp[1]) if pa[0] is not None else (pa[1], pp[0])
    ok = ia is not None and ia == ip
    ctx.ob(rule, ok, where(fn), "the fact of %s is mapped to %s: argument and "
           "parameter positions differ (%s)" % (a, b, cnt), fn.qn)
    # the loop ends only at the end of the parameters
    good = True
    for pc in l.exits:
        L = [FF.resub(x, o.sub) for x in lits(pc)]
        good &= any(("%s.arg_end()" % fun in x and not x.startswith("!")) or
                    re.search(r"(%s\.arg_size\(\)|NumParams)" %
                              re.escape(fun), x) for x in L)
    good &= all(q.exit in (None, "next", "continue", "noreturn")
                for q in l.paths)
    ctx.ob(rule, bool(good) and bool(l.exits), where(fn), "not every "
           "parameter is visited", fn.qn)
    return ia if ok else None


VA = ["isa<AllocaInst>(*)", "*.getAllocatedType().isArrayTy()",
      "*getArrayElementType().isStructTy()"]
VAN = re.compile(r"struct\.__va_list_tag")


def callee(ctx, F):
    for fn in one(F, "psr::mapFactsToCallee"):
        outs = prepare(flat(FF.denote(ctx, F, fn)))
        others(ctx, "pure", fn, outs)
        at = dict(decl=r"\$1\.isDeclaration\(\)", zero=ZERO,
                  const=re.escape(CONST), glob=r"\$4", pz=r"\$5")

        def f(A, o):
            if A["decl"]:
                return False
            if A["zero"] and not A["const"]:
                return None             # the zero value is a constant
            return A["pz"] if A["zero"] else A["glob"] and A["const"]
        passthru(ctx, "callee", fn, outs, Cond(f, **at), "call")
        anyp = anyv = False
        for o in outs:
            t = {k: tri(o, r) for k, r in at.items()}
            sret = any(re.search(r"hasStructRetAttr\(\)|StructRet", l) and
                       not l.startswith("!") for l in o.lits)
            loops = []
            for e in o.res:
                if e.t == "@S":
                    continue
                if t["decl"]:
                    ctx.ob("callee", False, where(fn), "the facts flow into "
                           "a declaration: %s" % e, fn.qn)
                    continue
                m = re.fullmatch(r"std::invoke\(\$3, (.*)\)", e.t)
                if not m:
                    ctx.ob("callee", False, where(fn), "unexpected fact %s" %
                           e, fn.qn)
                    continue
                if "AllocaInst" in m.group(1) or len(e.ls) == 2:
                    anyv = True
                    va(ctx, fn, o, e, m.group(1), "$1")
                    g = any(somearg(o, l) for l in o.lits | e.guard) or \
                        any(re.match(r"std::invoke\(\$2, .*, @S\)", FF.resub(
                            l, o.sub)) for x in o.p.ev[o.n0:]
                            if x.kind == "loop" and x.loop not in e.ls
                            and args_idx(x.loop)
                            for q in x.loop.paths for l in lits(q.pc))
                    ctx.ob("callee", g, where(fn), "the va_list is tainted "
                           "without a variadic argument holding the fact",
                           fn.qn)
                    continue
                if len(e.ls) != 1:
                    ctx.ob("callee", False, where(fn), "fact %s" % e, fn.qn)
                    continue
                gs = [re.fullmatch(r"std::invoke\(\$2, (.*), @S\)", g)
                      for g in e.guard]
                gs = [g.group(1) for g in gs if g]
                rest = [g for g in e.guard if not re.match(
                    r"std::invoke\(\$2, ", g) and "arg_end()" not in g and
                    "arg_size()" not in g]
                ctx.ob("callee", len(gs) == 1 and not rest, where(fn),
                       "a parameter fact depends on %s" % sorted(e.guard),
                       fn.qn)
                if len(gs) == 1:
                    anyp = True
                    k = pairing(ctx, "callee", fn, o, e, gs[0], m.group(1),
                                "$0", "$1")
                    if k is not None:
                        ctx.ob("callee", k == (1 if sret else 0), where(fn),
                               "the mapping starts at parameter %d %s an "
                               "sret parameter" % (k, "with" if sret else
                                                   "without"), fn.qn)
            if t["decl"] is False:
                n = [e for e in o.res if len(e.ls) == 1]
                n = n or tri(o, r"\(\$1\.arg_begin\(\) == "
                             r"\$1\.arg_end\(\)\)") is True or \
                    tri(o, r"\(\$1\.arg_end\(\) == "
                        r"\$1\.arg_begin\(\)\)") is True
                ctx.ob("callee", bool(n), where(fn), "the parameters are not "
                       "mapped when %s" % sorted(o.lits), fn.qn)
                more = tri(o, r"\(.*\$0\.arg_end\(\) == .*|\(\?\w+ == "
                           r"\$0\.arg_end\(\).*")
                held = tri(o, r"std::any_of\(.*")
                if more is False and held is True:
                    v = [e for e in o.res if len(e.ls) == 2]
                    ctx.ob("callee", bool(v) or inst_loop(o), where(fn),
                           "a variadic argument's fact is lost", fn.qn)
        ctx.ob("callee", anyp, where(fn), "no parameter is ever mapped",
               fn.qn)
        ctx.ob("callee", anyv, where(fn), "variadic arguments are never "
               "mapped", fn.qn)


def somearg(o, l):
    """some of the remaining arguments holds the fact"""
    m = re.match(r"(?:std|llvm)::any_of\((.*)", l)
    if not m:
        return False
    x = m.group(1)
    m = re.match(r"(\?\w+|\$0\.arg_begin\(\)|\(\$0\.arg_begin\(\) \+ 1\)), "
                 r"\$0\.arg_end\(\), ", x)
    return m is not None or "make_range" in x and "$0.arg_end()" in x


def inst_loop(o):
    return any("instructions" in x for e in o.res for x in e.loops)


def va(ctx, fn, o, e, what, fun):
    """every alloca of a __va_list_tag array in the function, nothing else"""
    g = e.guard
    n = [x for x in g if VAN.search(x)]
    ok = len(n) == 1 and not n[0].startswith("!") and "==" in n[0] and \
        any("AllocaInst" in x and not x.startswith("!") for x in g)
    ctx.ob("va_list", ok, where(fn), "the va_list is recognised by %s" %
           sorted(g), fn.qn)
    extra = [x for x in g if not re.search(
        r"AllocaInst|isArrayTy|isStructTy|getArrayNumElements|__va_list_tag|"
        r"invoke", x)]
    neg = [x for x in g if x.startswith("!") and not re.search(
        r"getArrayNumElements", x)]
    ctx.ob("va_list", not extra and not neg, where(fn), "only some va_lists "
           "are considered: %s" % (extra + neg), fn.qn)
    body = all(q.exit in (None, "next", "continue", "noreturn")
               for l in e.ls for q in l.paths)
    ctx.ob("va_list", body, where(fn), "the search for va_lists stops early",
           fn.qn)
    src = e.loops[0] if e.loops else ""
    ctx.ob("va_list", fun in src, where(fn), "va_lists are sought in %s" %
           src, fn.qn)


def caller(ctx, F):
    for fn in one(F, "psr::mapFactsToCaller"):
        outs = prepare(flat(FF.denote(ctx, F, fn)))
        others(ctx, "pure", fn, outs)
        at = dict(zero=ZERO, const=re.escape(CONST), glob=r"\$5", pz=r"\$6")

        def f(A, o):
            if A["zero"] and not A["const"]:
                return None
            return A["pz"] if A["zero"] else A["glob"] and A["const"]
        passthru(ctx, "caller", fn, outs, Cond(f, **at), "return")
        FUN = "$1.getFunction()"
        seen = set()
        for o in outs:
            isret = tri(o, r"isa<ReturnInst>\(\$1\)")
            noval = tri(o, r"\(as<ReturnInst>\(\$1\)\.getReturnValue\(\) == "
                        r"null\)|\(null == as<ReturnInst>.*")
            prop = tri(o, r"std::invoke\(\$3, as<ReturnInst>\(\$1\)"
                       r"\.getReturnValue\(\), @S\)")
            retf = [e for e in o.res if re.fullmatch(
                r"std::invoke\(\$4, \$0\)", e.t)]
            want = isret is True and noval is False and prop is True
            dont = isret is False or noval is True or prop is False
            ctx.ob("caller", bool(retf) == want and (want or dont),
                   where(fn), "the call holds the fact of the returned value"
                   " %s when %s" % ("wrongly" if retf else "not",
                                    sorted(o.lits)), fn.qn)
            nm = 0
            for e in o.res:
                if e.t == "@S" or e in retf:
                    continue
                if re.fullmatch(r"std::invoke\(\$7, ~?\w+\)|\w+\(~?\w+\)|"
                                r"invoke\(\$7, .*", e.t):
                    seen.add("post")
                    continue
                if e.t.startswith("inserter(~"):
                    continue            # judged below
                m = re.fullmatch(r"std::invoke\(\$4, (.*)\)", e.t)
                gs = [re.fullmatch(r"std::invoke\(\$2, (.*), @S\)", g)
                      for g in e.guard]
                gs = [g.group(1) for g in gs if g]
                if m and len(e.ls) == 1 and len(gs) == 1 and not any(
                        VAN.search(g) for g in e.guard):
                    nm += 1
                    seen.add("param")
                    rest = [g for g in e.guard if not re.match(
                        r"std::invoke\(\$2, ", g) and "arg_end()" not in g
                        and "arg_size()" not in g]
                    ctx.ob("caller", not rest, where(fn), "an argument fact "
                           "depends on %s" % rest, fn.qn)
                    k = pairing(ctx, "caller", fn, o, e, gs[0], m.group(1),
                                "$0", FUN)
                    if k is not None:
                        ctx.ob("caller", k == 0, where(fn), "the first %d "
                               "parameters are not mapped back" % k, fn.qn)
                    continue
                if any(VAN.search(g) for g in e.guard) or "$0.arg_end" in e.t:
                    continue
                ctx.ob("caller", False, where(fn), "unexpected fact %s" % e,
                       fn.qn)
            nm = nm or any(re.fullmatch(
                r"\(\$1\.getFunction\(\)\.arg_(begin|end)\(\) == "
                r"\$1\.getFunction\(\)\.arg_(begin|end)\(\)\)", l)
                for l in o.lits)
            ctx.ob("caller", nm >= 1, where(fn), "the parameters are not "
                   "mapped back when %s" % sorted(o.lits), fn.qn)
            # the post-processing sees the finished set
            ev = [e for e in o.p.ev[o.n0:]]
            post = [i for i, e in enumerate(ev) if e.kind == "call" and
                    FF.resub(e.s(), o.sub).startswith("std::invoke($7, ")]
            ins = [i for i, e in enumerate(ev) if e.kind == "loop" or
                   e.kind == "call" and e.name.split("::")[-1].startswith(
                       ("insert", "emplace")) and e.obj is not None]
            ctx.ob("caller", len(post) == 1 and (not ins or post[0] >
                                                 max(ins)), where(fn),
                   "the result is not post-processed once, at the end",
                   fn.qn)
            # variadic arguments
            more = tri(o, r"\(.*\$0\.arg_end\(\) == .*|\(\?\w+ == "
                       r"\$0\.arg_end\(\).*")
            vl = [e.loop for e in ev if e.kind == "loop" and valoop(e.loop)]
            if more is False or vl:
                ctx.ob("va_list", more is False and len(vl) == 1, where(fn),
                       "the variadic arguments are mapped back %s" % (
                           "never" if more is False else "without there "
                           "being any"), fn.qn)
                for l in vl:
                    seen.add("va")
                    vaback(ctx, fn, o, l)
        ctx.ob("caller", {"param", "va"} <= seen, where(fn), "parameters or "
               "variadic arguments are never mapped back (%s)" %
               sorted(seen), fn.qn)


def valoop(l):
    return any(VAN.search(x) for q in l.paths for x in lits(q.pc)) or any(
        e.kind == "loop" and valoop(e.loop) for q in l.paths for e in q.ev)


def vaback(ctx, fn, o, l):
    for it in items([l.paths] if False else l.paths):
        n = it.ev.name.split("::")[-1].split("<")[0]
        if n not in ("transform", "insert", "emplace", "for_each"):
            continue
        L = {FF.resub(x, o.sub) for x in lits(it.pc)}
        ok = any(VAN.search(x) and not x.startswith("!") for x in L) and any(
            re.match(r"std::invoke\(\$2, .*, @S\)", x) for x in L)
        ctx.ob("va_list", ok, where(fn), "the variadic arguments are mapped "
               "back when %s" % sorted(L), fn.qn)
        if n == "transform":
            a = [FF.resub(t2s(x), o.sub) for x in it.ev.args]
            ctx.ob("va_list", a[1] == "$0.arg_end()" and a[0].startswith("?")
                   and a[-1] == "$4", where(fn), "the variadic arguments are "
                   "mapped by %s" % a, fn.qn)
