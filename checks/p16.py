"""P16: taint analysis: configuration and flow functions."""
import re
from spec import *
import ff as FF
from p12 import live, whole
from p20 import iff, over, calls, writes, only

EXPLAIN = ("Denotational evaluation of the taint flow functions: the object "
           "or lambda returned for a statement is applied to a symbolic fact "
           "and compared with the taint semantics of the statement under "
           "every assignment of the conditions; decision tables and effect "
           "rules for the taint configuration (which values get which "
           "category, what is generated, leaked and sanitized at a call, "
           "where the analysis starts).")

IT = "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp"
TC = "lib/PhasarLLVM/TaintConfig/LLVMTaintConfig.cpp"
TB = "lib/PhasarLLVM/TaintConfig/TaintConfigBase.cpp"
Q = "psr::IFDSTaintAnalysis::"
L = "psr::LLVMTaintConfig::"
STOP = FF.KNOWN - {"lambdaFlow"} | {
    "mapFactsToCallee", "mapFactsToCaller", "mapFactsAlongsideCallSite",
    "populateWithMayAliases", "populateWithMustAliases",
    "collectGeneratedFacts", "collectLeakedFacts", "collectSanitizedFacts",
    "isSourceCall", "isSinkCall", "isSanitizerCall", "lambdaFlow"}


def run(ctx):
    F = ctx.facts(IT)
    normal(ctx, F)
    call(ctx, F)
    ret(ctx, F)
    ctr(ctx, F)
    summary(ctx, F)
    preds(ctx, F)
    aliases(ctx, F)
    seeds(ctx, F)
    util(ctx, F)
    asked = util(ctx, ctx.facts("flowfn.cpp"))
    ctx.ob("collect", asked > 0, TC, "no predicate version analysed")
    config(ctx)
    queries(ctx)
    base(ctx)


def one(F, qn):
    r = [f for f in F.all_fns() if f.qn == qn and f.body is not None]
    if not r:
        raise CheckError("no %s" % qn)
    return r[0]


def tri(L, rx):
    for l in L:
        if re.fullmatch(rx, l.lstrip("!")):
            return not l.startswith("!")
    return None


def isS(x):
    return r"\((?:@S == {0}|{0} == @S)\)".format(re.escape(x))


def between(ctx, rule, fn, o, must, may, what):
    got = set(o.plain())
    ok = must <= got and got <= must | may
    ctx.ob(rule, ok, where(fn), "%s: the fact is mapped to %s, expected %s "
           "when %s" % (what, sorted(got), sorted(must),
                        sorted(x for x in o.lits if "@S" in x)), fn.qn)


# ------------------------------------------------------------- normal flows
KINDS = {   # instruction: (operands whose taint it takes)
    "LoadInst": ["getPointerOperand()"],
    "GetElementPtrInst": ["getPointerOperand()"],
    "ExtractValueInst": ["getAggregateOperand()"],
    "InsertValueInst": ["getAggregateOperand()", "getInsertedValueOperand()"],
    "CastInst": ["getOperand(0)"],
}


def normal(ctx, F):
    fn = one(F, Q + "getNormalFlowFunction")
    den = FF.denote(ctx, F, fn, stop=STOP)
    seen = {}
    for p, outs in den:
        ks = [m.group(1) for l in lits(p.pc) for m in [re.fullmatch(
            r"isa<(\w+)>\(\$0\)", l)] if m]
        k = ks[0] if ks else None
        ctx.ob("normal", len(ks) <= 1, where(fn), "kinds %s" % ks, fn.qn)
        for o in outs:
            judge(ctx, fn, k, o, seen)
    for k in list(KINDS) + ["StoreInst", None]:
        ctx.ob("normal", k in seen, where(fn), "%s is not handled" % (
            k or "other instructions"), fn.qn)
    for k, v in seen.items():
        need = {"StoreInst": {"ptr", "val", "else"}, None: {"else"}}.get(
            k, {"from", "to", "else"})
        ctx.ob("normal", need <= v, where(fn), "%s: only %s are told apart" %
               (k, sorted(v)), fn.qn)


def judge(ctx, fn, k, o, seen):
    s = seen.setdefault(k, set())
    if k is None:
        s.add("else")
        between(ctx, "normal", fn, o, {"@S"}, set(), "other instruction")
        return
    me = "as<%s>($0)" % k
    if k == "StoreInst":
        P, V = me + ".getPointerOperand()", me + ".getValueOperand()"
        ip, iv = tri(o.lits, isS(P)), tri(o.lits, isS(V))
        multi = tri(o.lits, re.escape(V) + r"\.hasNUsesOrMore\(2\)")
        if ip:
            s.add("ptr")
            between(ctx, "normal", fn, o, set(), set(), "store")
        elif iv:
            s.add("val")
            must = {P, "alias(%s)" % P}
            may = {V, "@S"}
            got = set(o.plain())
            kept = got & may
            ok = must <= got and got <= must | may | {"alias(%s)" % V} and \
                (kept or multi is False)
            ctx.ob("normal", bool(ok), where(fn), "store: a tainted value "
                   "taints %s" % sorted(got), fn.qn)
        elif ip is False and iv is False:
            s.add("else")
            between(ctx, "normal", fn, o, {"@S"}, set(), "store")
        else:
            ctx.ob("normal", False, where(fn), "store: a fact is mapped to "
                   "%s without being compared with both operands" %
                   sorted(o.plain()), fn.qn)
        return
    if k not in KINDS:
        ctx.ob("normal", o.plain() == {"@S"} or False, where(fn),
               "%s: the fact is mapped to %s" % (k, sorted(o.plain())), fn.qn)
        return
    ops = [me + "." + x for x in KINDS[k]]
    st = [tri(o.lits, isS(x)) for x in ops]
    to = tri(o.lits, isS(me))
    if any(st):
        s.add("from")
        f = ops[st.index(True)]
        multi = tri(o.lits, re.escape(f) + r"\.hasNUsesOrMore\(2\)")
        must = {me} if multi is False else {me, "@S"}
        between(ctx, "normal", fn, o, must, {"@S", f}, k)
    elif to and not any(x is None for x in st):
        s.add("to")
        between(ctx, "normal", fn, o, set(), set(), k)
    elif to is False and all(x is False for x in st):
        s.add("else")
        between(ctx, "normal", fn, o, {"@S"}, set(), k)
    else:
        ctx.ob("normal", False, where(fn), "%s: a fact is mapped to %s "
               "without being compared with the operands" % (
                   k, sorted(o.plain())), fn.qn)


# ---------------------------------------------------------------- call flows
def call(ctx, F):
    fn = one(F, Q + "getCallFlowFunction")
    n = 0
    for p, outs in FF.denote(ctx, F, fn, stop=STOP):
        A = r"this\.%s\((?:as<CallBase>\(\$0\)|\$0), \$1\)"
        src, snk = (tri(lits(p.pc), A % x) for x in ("isSourceCall",
                                                     "isSinkCall"))
        r = t2s(p.ret)
        n += 1
        if src or snk:
            ctx.ob("call", all(not o.res for o in outs) and bool(outs),
                   where(fn), "facts enter a source or sink: %s" % r, fn.qn)
        elif src is False and snk is False:
            ctx.ob("call", plain_map(r, "mapFactsToCallee",
                                     r"(?:as<CallBase>\(\$0\)|\$0), \$1"),
                   where(fn), "the callee gets %s" % r, fn.qn)
        else:
            ctx.ob("call", False, where(fn), "a call is handled without "
                   "asking whether it is a source or sink", fn.qn)
    ctx.ob("call", n >= 3, where(fn), "sources and sinks are not told apart",
           fn.qn)


def plain_map(r, name, args):
    """the library's mapping with default predicates and flags"""
    m = re.fullmatch(r"%s(?:<.*>)?\(%s(.*)\)" % (name, args), r)
    return bool(m) and "false" not in m.group(1) and "lambda" not in \
        m.group(1)


def lamval(ctx, F, p, lam, args, fn, k=None):
    """[(lits, value text, path)] of a captured lambda on symbolic args"""
    e = FF.Engine(F, stop=STOP, keep_mem=2)
    e.stack, e.filestack = [fn.id], [fn.file]
    st = p.copy()
    st.exit = None
    st.ret = None
    out = []
    for x, v in e.call_lambda(lam, tuple(args), st, fn.line):
        if x.exit in ("noreturn", "throw"):
            continue
        if v is None:
            out.append((lits(x.pc), None, x))
            continue
        for y, b in e.branch(x, v):
            out.append((lits(y.pc), b, y))
    return out


def ret(ctx, F):
    fn = one(F, Q + "getRetFlowFunction")
    for p, outs in FF.denote(ctx, F, fn, stop=STOP):
        t = p.ret
        ok = t is not None and t[0] == "call" and last(t[1].split("<")[0]) \
            == "mapFactsToCaller" and len(t[3]) >= 8
        ctx.ob("ret", ok, where(fn), "returns %s" % t2s(t), fn.qn)
        if not ok:
            continue
        a = t[3]
        ctx.ob("ret", t2s(a[0]) in ("as<CallBase>($0)", "$0") and
               t2s(a[1]) == "$2" and t2s(a[5]) == "true" and
               t2s(a[6]) == "true" and "lambda" not in t2s(a[4]), where(fn),
               "maps back with %s" % [t2s(x) for x in a], fn.qn)
        f, s = ("glob", "Formal"), ("glob", "S")
        eqfs = r"\((?:@Formal == @S|@S == @Formal)\)"
        ptr = r"@Formal\.getType\(\)\.isPointerTy\(\)"
        ctx.ob("ret", a[2][0] == "lam", where(fn), "formals are mapped by %s"
               % t2s(a[2]), fn.qn)
        if a[2][0] == "lam":
            for Ls, b, x in lamval(ctx, F, p, a[2], (f, s), fn):
                e, q = tri(Ls, eqfs), tri(Ls, ptr)
                ctx.ob("ret", b == bool(e and q) and (
                    b or e is False or q is False), where(fn), "a %s formal "
                    "that %s the fact is %s" % (
                        "pointer" if q else "non-pointer", "is" if e else
                        "is not", "returned" if b else "dropped"), fn.qn)
        rv = t2s(a[3])
        if a[3][0] == "lam":
            for Ls, b, x in lamval(ctx, F, p, a[3], (f, s), fn):
                e = tri(Ls, eqfs)
                ctx.ob("ret", b == e, where(fn), "a returned value that %s "
                       "the fact is %s" % ("is" if e else "is not",
                                           "returned" if b else "dropped"),
                       fn.qn)
        else:
            ctx.ob("ret", "equal_to" in rv or "binary_function" in rv,
                   where(fn), "returned values are mapped by %s" % rv, fn.qn)
        post = a[7]
        ok = False
        if post[0] == "lam":
            for Ls, b, x in lamval(ctx, F, p, post, (("glob", "Res"),), fn):
                cs = [it for it in items([x]) if last(it.ev.name) ==
                      "populateWithMayAliases"]
                ok = len(cs) == 1 and [t2s(y) for y in cs[0].ev.args] in (
                    ["@Res", "$0"], ["@Res", "as<CallBase>($0)"])
                ctx.ob("ret", ok, where(fn), "the returned facts' aliases "
                       "are not added", fn.qn)
        ctx.ob("ret", ok, where(fn), "the returned facts are post-processed "
               "by %s" % t2s(post), fn.qn)


def ctr(ctx, F):
    fn = one(F, Q + "getCallToRetFlowFunction")
    for p, outs in FF.denote(ctx, F, fn, stop=STOP):
        t = p.ret
        ok = t is not None and t[0] == "call" and last(t[1].split("<")[0]) \
            == "mapFactsAlongsideCallSite" and len(t[3]) >= 3 and \
            t[3][1][0] == "lam" and t2s(t[3][2]) == "true"
        ctx.ob("ctr", ok, where(fn), "returns %s" % t2s(t), fn.qn)
        if not ok:
            continue
        decl = r"anyof\(\$2, elem\(\$2\)\.isDeclaration\(\)\)|\?\w+|~?\w+"
        n = 0
        for Ls, b, x in lamval(ctx, F, p, t[3][1], (("glob", "S"),), fn):
            new = Ls - lits(p.pc)
            san = tri(Ls, r"[~?]?\w+ has @S")
            ptr = tri(Ls, r"@S\.getType\(\)\.isPointerTy\(\)")
            dcl = tri(Ls, decl)
            n += 1
            want = not san and (dcl is True or ptr is False)
            known = san is not None
            ctx.ob("ctr", known and b == want and (
                b or san or dcl is False and ptr is True), where(fn),
                "an argument %s the call when %s" % (
                    "survives" if b else "does not survive", sorted(Ls)),
                fn.qn)
        ctx.ob("ctr", n >= 4, where(fn), "arguments are not told apart",
               fn.qn)
        # what counts as sanitized
        cs = calls([p], "collectSanitizedFacts")
        for it in cs:
            ctx.ob("ctr", any("$2" == t2s(l.container) for l in it.loops),
                   where(fn), "the sanitized facts are collected for %s" %
                   [t2s(l.container) for l in it.loops], fn.qn)
        ctx.ob("ctr", bool(cs), where(fn), "sanitized arguments bypass the "
               "call", fn.qn)


# -------------------------------------------------------------- summary flow
def summary(ctx, F):
    fn = one(F, Q + "getSummaryFlowFunction")
    CB = r"(?:as<CallBase>\(\$0\)|\$0)"
    seen = set()
    for p, outs in FF.denote(ctx, F, fn, stop=STOP):
        # roles of the locals
        role = {}
        env = {}
        FF.run(p.ev, env, [])
        for k, v in env.items():
            for e in v:
                m = re.fullmatch(r"(collect\w+)\((.*)\)", e.t)
                if m and e.whole:
                    role[t2s(k)] = m.group(1)
                    want = r"(?:\*?this\.Config(?:\.get\(\))?, )%s, \$1" % CB
                    ctx.ob("summary", re.fullmatch(want, m.group(2)) is not
                           None, where(fn), "%s is asked with %s" % (
                               m.group(1), m.group(2)), fn.qn)
        R = {v: k for k, v in role.items()}
        LP = {sub(l, role) for l in lits(p.pc)}
        if tri(LP, r'\$1\.getName\(\)\.equals\("\$sSS1poiyS2S_SStFZ"\)|'
               r'\(\$1\.getName\(\) == "\$sSS1poiyS2S_SStFZ"\)'):
            seen.add("swift")
            for o in outs:
                hit = any(not l.startswith("!") and re.search(
                    r"getArgOperand\([13]\) == @S", l) for l in o.lits)
                between(ctx, "summary", fn, o, {"@S", "$0"} if hit else
                        {"@S"}, set(), "string append")
            for i in "13":
                ctx.ob("summary", any(re.search(
                    r"getArgOperand\(%s\) == @S" % i, l) for o in outs
                    for l in o.lits), where(fn), "operand %s of the string "
                    "append does not matter" % i, fn.qn)
            continue
        ctx.ob("summary", len(R) == 3, where(fn), "only %s are collected" %
               sorted(R), fn.qn)
        if len(R) != 3:
            continue
        g, l, k = (empty(LP, R[x], x) for x in (
            "collectGeneratedFacts", "collectLeakedFacts",
            "collectSanitizedFacts"))
        sr = [it for it in items([p]) if it.ev.kind == "call" and
              last(it.ev.name) in ("insert", "emplace") and it.ev.obj is not
              None and t2s(it.ev.obj) == R["collectSanitizedFacts"]]
        if sr and k is True:
            continue                    # just inserted: cannot be empty
        isret = tri(LP, CB + r"\.hasStructRetAttr\(\)")
        for it in sr:
            a = t2s(it.ev.args[0])
            ok = re.fullmatch(CB + r"\.getArgOperand\(0\)", a) and isret and \
                any(l2.startswith("!") and l2.endswith(
                    " has " + a) for l2 in LP)
            ctx.ob("summary", bool(ok), where(fn), "%s is killed when %s" % (
                a, sorted(LP)), fn.qn)
            follow = tri(LP, r"\$1\.isDeclaration\(\)") is False and \
                g is not False and l is not False and not any(
                    x == "!empty(collectSanitizedFacts)" for x in LP)
            ctx.ob("summary", not (follow and certain(p, R)), where(fn),
                   "a call is summarized because of its sret parameter "
                   "alone", fn.qn)
        rt = t2s(p.ret)
        lib = tri(LP, r"this\.Llvmfdff\.(?:LLVMFdff has|contains\()\s?\$1\)?")
        if rt in ("null", "nullptr", "shared_ptr{}") or not outs:
            seen.add("none")
            ctx.ob("summary", g is True and l is True and k is True and
                   lib is False, where(fn), "there is no summary when %s" %
                   sorted(LP), fn.qn)
            continue
        for o in outs:
            # the sets as seen by the lambda
            LO = {sub(x, role) for x in o.lits}
            LO = {collapse(x) for x in LO}
            if rt in ("null",):
                continue
            if contradict(LO, g, l, k):
                continue
            if lib is True and g is True and l is True and k is True:
                seen.add("library")
                library(ctx, fn, o)
                continue
            if g is True and l is True and k is True:
                ctx.ob("summary", False, where(fn), "a summary is used for "
                       "an ordinary call: %s" % sorted(o.plain()), fn.qn)
                continue
            z = tri(LO, r".*LLVMZeroValue.*== @S\)|.*isLLVMZeroValue\(@S\)")
            lk = tri(LO, r"collectLeakedFacts has @S")
            kl = tri(LO, r"collectSanitizedFacts has @S")
            eff = [e for e in o.other if last(e.name) in (
                "insert", "emplace") and "Leaks" in t2s(e.obj)]
            rep = [e for e in o.other if last(e.name) == "onResult"]
            if g is not True and z:
                seen.add("generate")
                got = {collapse(x) for x in o.plain()}
                need = {"*collectGeneratedFacts",
                        "alias(collectGeneratedFacts)"}
                ctx.ob("summary", need <= got and any(
                    "LLVMZeroValue" in x or x == "@S" for x in got) and
                    len(got) <= 4, where(fn), "zero generates %s" %
                    sorted(got), fn.qn)
                ctx.ob("summary", not eff and not rep, where(fn), "zero "
                       "leaks", fn.qn)
                continue
            if g is False and z is None:
                ctx.ob("summary", False, where(fn), "the generated facts "
                       "are lost", fn.qn)
                continue
            seen.add("leak" if lk else "kill" if kl else "pass")
            # a leak is recorded, and reported when it is new
            ctx.ob("summary", bool(eff) == (lk is True) and len(eff) <= 1 and
                   (lk is not None or l is True), where(fn),
                   "a fact is %srecorded as a leak when %s" % (
                       "" if eff else "not ", sorted(LO)), fn.qn)
            for e in eff:
                ctx.ob("summary", t2s(e.obj) == "this.Leaks[$0]" and
                       t2s(e.args[0]) == "@S", where(fn), "the leak is "
                       "recorded as %s" % e.s(), fn.qn)
            new = tri(LO, r"this\.Leaks\[\$0\]\.insert\(@S\)\.second")
            ctx.ob("summary", len(rep) == (1 if lk and new else 0),
                   where(fn), "a %s leak is reported %d times" % (
                       "new" if new else "known or no", len(rep)), fn.qn)
            for e in rep:
                ctx.ob("summary", [t2s(x) for x in e.args[:2]] == [
                    "$0", "@S"], where(fn), "reports %s" % e.s(), fn.qn)
            ctx.ob("summary", kl is not None or k is True or
                   o.plain() == set() and False, where(fn), "sanitized facts "
                   "are not told apart when %s" % sorted(LO), fn.qn)
            between(ctx, "summary", fn, o, set() if kl else {"@S"}, set(),
                    "call")
    ctx.ob("summary", {"swift", "none", "library", "generate", "leak", "kill",
                       "pass"} <= seen, where(fn), "only these cases occur: "
           "%s" % sorted(seen), fn.qn)


def certain(p, R):
    return all(any(x == "empty(%s)" % R[c] for x in lits(p.pc)) for c in (
        "collectGeneratedFacts", "collectLeakedFacts"))


def sub(s, role):
    for k, v in role.items():
        s = re.sub(re.escape(k) + r"(?!\w)", v, s)
    return s


def collapse(s):
    s = re.sub(r"(collect\w+)\([^()]*(?:\([^()]*\)[^()]*)*\)", r"\1", s)
    return re.sub(r"alias\(\*?(collect\w+)\)", r"alias(\1)", s)


def empty(Ls, name, role):
    return tri(Ls, r"empty\((?:%s|%s)\)" % (re.escape(name), role))


def contradict(LO, g, l, k):
    """infeasible: the sets were (not) empty before"""
    for n, v in (("collectGeneratedFacts", g), ("collectLeakedFacts", l),
                 ("collectSanitizedFacts", k)):
        if v is True and n + " has @S" in LO:
            return True
    return False


def library(ctx, fn, o):
    """library summaries: a fact that is an argument of the call also flows
    where the summary of its parameter says"""
    got = {e for e in o.res if e.t != "@S"}
    ctx.ob("library", any(e.t == "@S" and not e.guard for e in o.res),
           where(fn), "the fact itself is lost", fn.qn)
    kinds = set()
    for e in got:
        G = set(e.guard)
        src = [g for g in G if re.match(r"\(.*== @S\)|\(@S ==", g)]
        par = [g for g in G if re.match(r"!?isa<Parameter>\(", g)]
        fnd = [g for g in G if re.search(r"end\(", g)]
        rest = G - set(src) - set(par) - set(fnd)
        isp = bool(par) and not par[0].startswith("!")
        kinds.add(isp)
        ok = len(src) == 1 and not src[0].startswith("!") and len(par) == 1 \
            and len(fnd) == 1 and fnd[0].startswith("!") and not rest
        ctx.ob("library", ok, where(fn), "a summary applies when %s" %
               sorted(G), fn.qn)
        want = r"(?:as<CallBase>\(\$0\)|\$0)\.getArgOperand\(.*\.Index\)" \
            if isp else r"\$0|as<CallBase>\(\$0\)"
        ctx.ob("library", re.fullmatch(want, e.t) is not None, where(fn),
               "the summary of a %s generates %s" % (
                   "parameter" if isp else "return value", e.t), fn.qn)
        ctx.ob("library", all(q.exit in (None, "next", "continue")
                              for l in e.ls for q in l.paths), where(fn),
               "not all summarized flows are considered", fn.qn)
        c = e.loops[0] if e.loops else ""
        ctx.ob("library", "args()" in c and "$1.args()" in c, where(fn),
               "the summary is applied for %s" % c, fn.qn)
    ctx.ob("library", kinds == {True, False}, where(fn), "parameters and "
           "return values of a summary are not both applied", fn.qn)


# ---------------------------------------------------------------- predicates
def preds(ctx, F):
    for name, cat in (("isSourceCall", "Source"), ("isSinkCall", "Sink")):
        fn = one(F, Q + name)
        ps = live(ctx.summary(F, fn))
        CBK = r"this\.Config\.(?:get(?:Registered)?)?%sCallBack(?:\(\))?" % \
            cat
        res = CBK + r"(?:\.operator\(\)\(\$0\)|\(\$0\))"
        n = set()
        for p in ps:
            Ls = lits(p.pc)
            arg = tri(Ls, r"this\.Config\.(?:self\(\)\.)?is%s(?:Impl)?\(&elem"
                      r"\(\$1\.args\(\)\)\)|anyof\(\$1\.args\(\), .*is%s.*" %
                      (cat, cat))
            cb = tri(Ls, r"truthy\(%s\)" % CBK)
            em = tri(Ls, r"empty\(%s\)" % res)
            has = tri(Ls, res + r" has (?:\$0)")
            r = t2s(p.ret)
            if arg:
                n.add("arg")
                ok = r == "true"
            elif cb is False:
                n.add("nocb")
                ok = r == "false"
            elif em:
                n.add("empty")
                ok = r == "false"
            elif has:
                n.add("call")
                ok = r == "true"
            elif cb and has is False:
                n.add("ops")
                an = re.fullmatch(r"anyof\(\$0\.(?:arg_begin|args)\(\), %s has"
                                  r" elem\(\$0\.(?:arg_begin|args)\(\)\)"
                                  r"(?:\.get\(\))?\)" % res, r)
                ok = bool(an)
            else:
                ok = False
            ctx.ob("predicate", ok, where(fn), "%s returns %s when %s" % (
                name, r, sorted(Ls)), fn.qn)
        ctx.ob("predicate", {"arg", "nocb", "call", "ops"} <= n, where(fn),
               "%s tells only %s apart" % (name, sorted(n)), fn.qn)
        for it in items(ps):
            for l in it.loops:
                ctx.ob("predicate", t2s(l.container) == "$1.args()" and
                       all(q.exit in (None, "next", "continue") or
                           q.exit == "return" and t2s(q.ret) == "true"
                           for q in l.paths), where(fn), "%s does not ask "
                       "about every parameter" % name, fn.qn)


def aliases(ctx, F):
    fn = one(F, Q + "populateWithMayAliases")
    skip = one(F, "psr::canSkipAtContext") if [
        f for f in F.all_fns() if f.qn == "psr::canSkipAtContext"] else None
    cst = one(F, "psr::isCompiletimeConstantData")
    ps = live(ctx.summary(F, fn, stop=["canSkipAtContext",
                                       "isCompiletimeConstantData"]))
    AL = r"this\.PT\.getAliasSet\(elem\((?:\$0|~\w+)\)(?:, .*)?\)"
    ins = calls(ps, "insert|emplace")
    a = [it for it in ins if re.fullmatch(r"elem\(%s\)" % AL,
                                          t2s(it.ev.args[0]))]
    b = [it for it in ins if it not in a]
    only(ctx, "alias", fn, a, [r"elem\(%s\)" % AL], "an alias is added")
    only(ctx, "alias", fn, b, [r"as<LoadInst>\(elem\(%s\)\)\.getPointerOperand"
                               r"\(\)\.stripPointerCasts\(\)" % AL],
         "a loaded location is added")
    W = [r"!canSkipAtContext\(elem\(%s\), \$1\)" % AL,
         r"!isCompiletimeConstantData\(elem\(%s\)\)" % AL]
    iff(ctx, "alias", fn, ps, a, W, "an alias is added",
        free=[r"isa<LoadInst>.*"])
    iff(ctx, "alias", fn, ps, b, W + [r"isa<LoadInst>\(elem\(%s\)\)" % AL],
        "a loaded location is added")
    for it in a[:1] + b[:1]:
        over(ctx, "alias", fn, it, [r"\$0|~\w+", AL], "an alias is added")
    for p in ps:
        w = [it for it in items([p]) if it.ev.kind == "write" or
             it.ev.kind == "call" and last(it.ev.name) in ("swap",)]
        direct = all(t2s(it.ev.obj) == "$0" for it in ins)
        ctx.ob("alias", direct or any(t2s(it.ev.obj) == "$0" and not it.loops
                                      for it in w), where(fn), "the aliases "
               "are not stored", fn.qn)
    # the facts themselves stay
    if skip is not None:
        decide(ctx, "alias", skip, live(ctx.summary(F, skip)), {
            "inst": "isa<Instruction>($0)",
            "fun": "(as<Instruction>($0).getFunction() == $1.getFunction())",
            "blk": "(as<Instruction>($0).getParent() == $1.getParent())",
            "later": "$1.comesBefore(as<Instruction>($0))",
            "arg": "isa<Argument>($0)",
            "afun": "(as<Argument>($0).getParent() == $1.getFunction())"},
            lambda A: None if A["inst"] and A["arg"] else
            (not A["fun"] or A["blk"] and A["later"]) if A["inst"] else
            A["arg"] and not A["afun"])
    decide(ctx, "alias", cst, live(ctx.summary(F, cst)), {
        "glob": "isa<GlobalVariable>($0)", "fun": "isa<Function>($0)",
        "data": "isa<ConstantData>($0)",
        "ro": "as<GlobalVariable>($0).isConstant()"},
        lambda A: None if A["glob"] and (A["fun"] or A["data"]) else
        A["ro"] if A["glob"] else A["fun"] or A["data"])


def seeds(ctx, F):
    fn = one(F, Q + "initialSeeds")
    ps = live(ctx.summary(F, fn, stop=["addSeedsForStartingPoints"]))
    for p in ps:
        z = [it for it in items([p]) if it.ev.kind == "call" and
             last(it.ev.name) == "addSeedsForStartingPoints"]
        a = [t2s(x) for x in z[0].ev.args] if z else []
        ctx.ob("seeds", len(z) == 1 and not z[0].loops and
               a[0] == "this.EntryPoints" and any(re.search(
                   r"getZeroValue\(\)|LLVMZeroValue", x) for x in a) and
               a[-1].endswith("BOTTOM"), where(fn), "the entry points are "
               "seeded with %s" % a, fn.qn)
    add = calls(ps, "addSeed")
    only(ctx, "seeds", fn, add, [
        r"elem\(.*getStartPointsOf\(this\.IRDB\.getFunction\(\"main\"\)\)\)",
        r"&?elem\(.*\.args\(\)\)"], "main's arguments are seeded")
    iff(ctx, "seeds", fn, ps, add, [r"this\.TaintMainArgs",
                                    r"this\.EntryPoints has \"main\""],
        "main's arguments are seeded")
    for it in add:
        over(ctx, "seeds", fn, it, [r".*getStartPointsOf\(.*\)",
                                    r".*\.args\(\)"], "main's arguments")


# ------------------------------------------------------------------ utilities
def cbl(ps, CBK, names):
    """the local was initialised by the callback's answer about the call"""
    if len(names) != 1:
        return False
    n = names.pop()
    return any(it.ev.kind == "init" and t2s(it.ev.obj) == "~" + n and
               re.fullmatch(CBK + r"(\.operator\(\))?\(\$2\)",
                            t2s(it.ev.args[0])) for it in items(ps))


def util(ctx, F):
    asked = 0
    for name, cat, ret in (("collectGeneratedFacts", "Source", True),
                           ("collectLeakedFacts", "Sink", False),
                           ("collectSanitizedFacts", "Sanitizer", False)):
        fns = [f for f in F.all_fns() if f.qn == "psr::" + name and f.body
               is not None]
        ctx.ob("collect", bool(fns), TC, "no %s" % name)
        for fn in fns:
            ps = live(ctx.summary(F, fn, keep_mem=2))
            CBK = r"\$1\.(?:getRegistered)?%sCallBack(?:\(\))?" % cat
            IS = r"\$1\.(?:self\(\)\.)?is%s(?:Impl)?" % cat
            ARG = r"(?:&?elem\(\$3\.args\(\)\)|\$3\.getArg\((.*)\))"
            ev = [it for it in items(ps) if it.ev.kind == "call" and
                  last(it.ev.name) in ("insert", "emplace", "copy_if",
                                       "copy")]
            kinds = {"cb": [], "self": [], "arg": []}
            pred = "$4" if len(fn.ps) > 4 and "lambda" not in fn.ps[4][2] \
                else None
            asked += pred is not None
            for it in ev:
                a = [t2s(x) for x in it.ev.args]
                if any(re.search(CBK + r"(\.operator\(\))?\(\$2\)", x)
                       for x in a) or last(it.ev.name) == "copy_if":
                    kinds["cb"].append(it)
                elif a and a[0] == "$2":
                    kinds["self"].append(it)
                elif a and re.match(r"\$2\.getArgOperand\(", a[0]):
                    kinds["arg"].append(it)
                else:
                    m = [re.fullmatch(r"(begin|end)\(~(\w+)\)", x) for x in a]
                    if len(a) == 2 and all(m) and [x.group(1) for x in m] == \
                            ["begin", "end"] and cbl(ps, CBK, {
                                x.group(2) for x in m}):
                        kinds["cb"].append(it)
                        continue
                    ctx.ob("collect", False, where(fn), "%s adds %s" % (
                        name, a), fn.qn)
            if pred:
                for it in kinds["cb"]:
                    ctx.ob("collect", last(it.ev.name) == "copy_if" and
                           t2s(it.ev.args[-1]) == "$4", where(fn), "the "
                           "callback's values are not filtered", fn.qn)
            if len(fn.ps) == 4 and not ev:
                # forwards to the general version with a constant predicate
                cs = calls(ps, name)
                ctx.ob("collect", bool(cs), where(fn), "%s does nothing" %
                       name, fn.qn)
                continue
            ctx.ob("collect", bool(kinds["cb"]), where(fn), "the %s callback "
                   "is not asked" % cat, fn.qn)
            if kinds["cb"]:
                iff(ctx, "collect", fn, ps, kinds["cb"],
                    [r"truthy\(%s\)" % CBK], "the callback's values are "
                    "added", free=[r".*is%s.*" % cat, r"truthy\((?!\$1).*",
                                   r".*\$4.*", r".*<.*", r".*arg_size.*"])
            if ret:
                iff(ctx, "collect", fn, ps, kinds["self"], [
                    IS + r"\(\$2\)"], "the call itself is added",
                    free=[r"truthy.*", r".*getArg\(.*", r".*elem\(.*",
                          r".*arg_size.*"])
            else:
                ctx.ob("collect", not kinds["self"], where(fn), "%s adds the "
                       "call itself" % name, fn.qn)
            ctx.ob("collect", bool(kinds["arg"]), where(fn), "%s adds no "
                   "arguments" % name, fn.qn)
            for it in kinds["arg"]:
                Ls = lits(it.pc)
                g = [re.fullmatch(IS + r"\(" + ARG + r"\)", x) for x in Ls]
                g = [x for x in g if x]
                i = re.fullmatch(r"\$2\.getArgOperand\((.*)\)",
                                 t2s(it.ev.args[0])).group(1)
                ok = len(g) == 1 and (g[0].group(1) == i or re.fullmatch(
                    r"elem\(\$3\.args\(\)\)\.getArgNo\(\)", i))
                ctx.ob("collect", ok, where(fn), "argument %s is added when "
                       "%s" % (i, sorted(Ls)), fn.qn)
                if pred:
                    ctx.ob("collect", any(x.startswith(("$4", "($4)")) and
                                          "$2.getArgOperand(%s)" % i in x
                                          for x in Ls), where(fn),
                           "the predicate is not asked about argument %s" %
                           i, fn.qn)
                l = it.loops[-1] if it.loops else None
                ok = l is not None and (
                    t2s(l.container) == "$3.args()" if l.kind == "range"
                    else counted(l, "$3.arg_size()")) and not any(
                        q.exit in ("break", "return") for q in l.paths)
                ctx.ob("collect", bool(ok), where(fn),
                       "%s does not visit every parameter" % name, fn.qn)
    return asked


def counted(l, size):
    """for (I = 0; I < size; ++I)"""
    for v, en in l.entry.items():
        n = t2s(v)
        if t2s(en) == "0" and l.exits and all(any(
                x == "!(%s < %s)" % (n, size) or x in (
                    "(%s == %s)" % (n, size), "(%s == %s)" % (size, n))
                for x in lits(pc)) for pc in l.exits) and all(
                    t2s(vals.get(v)) in ("(%s + 1)" % n, "(1 + %s)" % n)
                    or vals.get(v) == v or v[0] == "ind"
                    for k, vals, pc in l.carry if k == "next"):
            return True
    return False


# -------------------------------------------------------------- configuration
def config(ctx):
    F = ctx.facts(TC)
    for f in F.find(L + "addTaintCategory"):
        ps = live(ctx.summary(F, f, stop=["toTaintCategory"] + (
            ["addTaintCategory"] if "StringRef" in f.ps[1][2] else [])))
        if "StringRef" in f.ps[1][2]:
            cs = calls(ps, "addTaintCategory")
            only(ctx, "category", f, cs, [r"\$0", r"toTaintCategory\(\$1\)"],
                 "a named category is added")
            iff(ctx, "category", f, ps, cs, [
                r"!\(toTaintCategory\(\$1\) == TaintCategory::None\)"],
                "a named category is added")
            continue
        sets = {"Source": "SourceValues", "Sink": "SinkValues",
                "Sanitizer": "SanitizerValues"}
        got = {}
        for p in ps:
            Ls = lits(p.pc)
            c = [m.group(1) for x in Ls for m in [re.fullmatch(
                r"\(\$1 == TaintCategory::(\w+)\)", x)] if m]
            ins = [(t2s(it.ev.obj), t2s(it.ev.args[0])) for it in items([p])
                   if it.ev.kind == "call" and last(it.ev.name) in
                   ("insert", "emplace")]
            want = [("this." + sets[c[0]], "$0")] if c and c[0] in sets else \
                []
            got[c[0] if c else None] = True
            ctx.ob("category", ins == want, where(f), "category %s adds the "
                   "value to %s" % (c, ins), f.qn)
        ctx.ob("category", set(sets) <= set(got), where(f), "categories %s" %
               sorted(str(x) for x in got), f.qn)
    for n, s in (("addSourceValue", "SourceValues"), ("addSinkValue",
                 "SinkValues"), ("addSanitizerValue", "SanitizerValues")):
        f = one(F, L + n)
        ps = live(ctx.summary(F, f))
        ins = calls(ps, "insert|emplace", r"this\." + s)
        only(ctx, "category", f, ins, [r"\$0"], n)
        ctx.ob("category", len(list(items(ps))) == len(ins), where(f),
               "%s does more" % n, f.qn)
    for n, s in (("isSourceImpl", "SourceValues"), ("isSinkImpl",
                 "SinkValues"), ("isSanitizerImpl", "SanitizerValues")):
        f = one(F, L + n)
        decide(ctx, "category", f, live(ctx.summary(F, f)), {
            "in": "this.%s has $0" % s}, lambda A: A["in"])
    f = one(F, L + "getCategoryImpl")
    st = ["isSource", "isSink", "isSanitizer", "isSourceImpl", "isSinkImpl",
          "isSanitizerImpl"]
    decide(ctx, "category", f, live(ctx.summary(F, f)), {
        k: Pat(r"this\.(?:self\(\)\.)?%sValues has \$0|this\.(?:self\(\)\.)?is%s(?:Impl)?"
               r"\(\$0\)" % (c, c)) for k, c in (
                   ("src", "Source"), ("snk", "Sink"), ("san", "Sanitizer"))},
        lambda A:
        "TaintCategory::" + ("Source" if A["src"] else "Sink" if A["snk"] else
                             "Sanitizer" if A["san"] else "None"),
        pure=False)
    defs(ctx, F)
    functions(ctx, F)
    variables(ctx, F)
    annotations(ctx, F)


def defs(ctx, F):
    fn = one(F, "psr::findAllFunctionDefs")
    ps = live(ctx.summary(F, fn))
    E = r"elem\(~\w+\.subprograms\(\)\)"
    add = calls(ps, "push_back|emplace_back")
    dbg = [it for it in add if it.loops]
    dire = [it for it in add if not it.loops]
    G = r"\$0\.getFunction\(%s\.getLinkageName\(\)\)" % E
    only(ctx, "functions", fn, dbg, [G], "a function is found by debug info")
    name = {r"\(%s\.getName\(\) == \$1\)" % E, r"\(%s\.getLinkageName\(\) == "
            r"\$1\)" % E, r"\(\$1 == %s\.get(?:Linkage)?Name\(\)\)" % E}
    seen = set()
    for it in dbg:
        Ls = lits(it.pc)
        hit = [x for x in Ls if any(re.fullmatch(n, x) for n in name)]
        seen |= {"Linkage" in x for x in hit}
        bad = [x for x in Ls if x.startswith("!") and not any(
            re.fullmatch(n, x[1:]) for n in name) and not re.match(
                r"!empty\(|!\(\$0\.getFunction|!\(1 < |!\(~\w+\.size", x)]
        ctx.ob("functions", len(hit) == 1 and not bad, where(fn), "a function "
               "is found when %s" % sorted(Ls), fn.qn)
        ctx.ob("functions", any(re.match(r"!\(%s == null\)" % G, x) or
                                re.fullmatch(r"truthy\(%s\)" % G, x)
                                for x in Ls), where(fn), "a function that is "
               "not in the module is found", fn.qn)
        over(ctx, "functions", fn, it, [r"~\w+\.subprograms\(\)"], "functions"
             " are sought")
    ctx.ob("functions", seen == {True, False}, where(fn), "source and linkage "
           "names are not both compared", fn.qn)
    only(ctx, "functions", fn, dire, [r"\$0\.getFunction\(\$1\)"],
         "a function is found by its IR name")
    iff(ctx, "functions", fn, ps, dire, [r"empty\(~\w+\)",
        r"!\(\$0\.getFunction\(\$1\) == null\)"], "a function is found by its"
        " IR name", free=[r".*subprograms.*", r".*size\(\).*"])


def functions(ctx, F):
    fn = one(F, L + "addAllFunctions")
    ps = live(ctx.summary(F, fn, stop=["findAllFunctionDefs",
                                       "addTaintCategory"]))
    D = r"elem\(\$1\.Functions\)"
    FN = r"findAllFunctionDefs\(\$0, %s\.Name\)\[0\]" % D
    NE = r"!empty\(findAllFunctionDefs\(.*\)\)"
    add = calls(ps, "addTaintCategory")
    rest = list(add)
    for vals, cat in (("SourceValues", "Source"), ("SinkValues", "Sink"),
                      ("SanitizerValues", "Sanitizer")):
        V = r"elem\(%s\.%s\)" % (D, vals)
        its = [it for it in add if vals in t2s(it.ev.args[0])]
        rest = [it for it in rest if it not in its]
        only(ctx, "functions", fn, its, [r"%s\.getArg\(%s\)" % (FN, V),
                                         r"TaintCategory::" + cat],
             "a %s parameter is tagged" % cat)
        iff(ctx, "functions", fn, ps, its, [
            NE, r"\(%s < %s\.arg_size\(\)\)" % (V, FN)],
            "a %s parameter is tagged" % cat)
        for it in its[:1]:
            over(ctx, "functions", fn, it, [r"\$1\.Functions",
                                            D + r"\." + vals],
                 "the %s parameters" % cat)
    alls = [it for it in rest if re.search(r"args\(\)", t2s(it.ev.args[0]))]
    rest = [it for it in rest if it not in alls]
    only(ctx, "functions", fn, alls, [r"&?elem\(%s\.args\(\)\)" % FN,
                                      r"TaintCategory::Sink"],
         "all parameters are tagged")
    iff(ctx, "functions", fn, ps, alls, [NE, D + r"\.HasAllSinkParam"],
        "all parameters are tagged")
    for it in alls[:1]:
        over(ctx, "functions", fn, it, [r"\$1\.Functions", FN +
                                        r"\.args\(\)"], "all parameters")
    U = r"elem\(%s\.users\(\)\)" % FN
    only(ctx, "functions", fn, rest, [r"(?:as<CallBase>\()?%s\)?" % U,
                                      D + r"\.ReturnCat"],
         "the calls are tagged")
    iff(ctx, "functions", fn, ps, rest, [
        NE, r"isa<CallBase>\(%s\)" % U, callee_is(U, FN)],
        "a call is tagged")
    for it in rest[:1]:
        over(ctx, "functions", fn, it, [r"\$1\.Functions", FN +
                                        r"\.users\(\)"], "the calls")


def callee_is(U, FN):
    C = r"as<CallBase>\(%s\)" % U
    c = r"%s\.getCalled(?:Operand|Function)\(\)(?:\.stripPointerCasts" \
        r"\w*\(\))?" % C
    return r"\((?:%s == %s|%s == %s)\)|%s\.isCallee\(.*\)" % (
        c, FN, FN, c, C)


def variables(ctx, F):
    fn = [f for f in F.find(L + "(ctor)") if len(f.ps) == 2]
    ctx.ob("variables", len(fn) == 1, TC, "constructors: %d" % len(fn))
    for fn in fn:
        ps = live(ctx.summary(F, fn, stop=["addTaintCategory",
                                           "addAllFunctions"]))
        D = r"elem\(\$1\.Variables\)"
        cs = calls(ps, "addAllFunctions")
        only(ctx, "variables", fn, cs, [r"\$0", r"\$1"], "the functions are "
             "configured")
        add = calls(ps, "addTaintCategory")
        loc = [it for it in add if "DbgDeclare" in t2s(it.ev.args[0])]
        gep = [it for it in add if it not in loc]
        I = r"elem\(instructions\(.*elem\(\$0\.getAllFunctions\(\)\)\)\)"
        DD = r"as<DbgDeclareInst>\(&?%s\)" % I
        only(ctx, "variables", fn, loc, [DD + r"\.getAddress\(\)", D +
                                         r"\.Cat"], "a variable is tagged")
        iff(ctx, "variables", fn, ps, loc, [
            r"isa<DbgDeclareInst>\(.*\)",
            r"%s\.getVariable\(\)\.getName\(\)\.equals\(%s\.Name\)|\(%s\."
            r"getVariable\(\)\.getName\(\) == %s\.Name\)" % (DD, D, DD, D),
            r"\(%s\.Line == .*getLine\(\)\)|\(.*getLine\(\) == .*Line\)" % D], "a variable is tagged",
            free=[r".*isa<GetElementPtrInst>.*", r".*StructMembers.*",
                  r".*Scope.*", r".*isa<StructType>.*"])
        G = r"as<GetElementPtrInst>\(&?%s\)" % I
        only(ctx, "variables", fn, gep, [G, D + r"\.Cat"], "a struct member "
             "is tagged")
        for it in gep:
            Ls = {x for x in lits(it.pc)}
            nm = [x for x in Ls if re.match(G + r"\.getName\(\)", x) or
                  ("getName()" in x and "GetElementPtr" in x)]
            ok = len(nm) == 1 and not nm[0].startswith("!") and re.search(
                D + r"\.Name", nm[0])
            ctx.ob("variables", bool(ok), where(fn), "a struct member is "
                   "tagged when its access is named %s" % nm, fn.qn)
            st = [x for x in Ls if re.search(r" has &?%s" % D, x) or
                  re.search(D + r"\.Scope", x)]
            ctx.ob("variables", any(not x.startswith("!") for x in st),
                   where(fn), "a struct member is tagged although the "
                   "variable's scope is no struct", fn.qn)
        mem = [it for it in calls(ps, "insert|emplace") if re.search(
            D, " ".join(t2s(x) for x in it.ev.args))]
        for it in mem:
            Ls = lits(it.pc)
            ctx.ob("variables", any("DW_TAG_structure_type" in x and not
                                    x.startswith("!") for x in Ls) and any(
                re.search(D + r"\.Scope", x) and not x.startswith("!")
                for x in Ls), where(fn), "a variable counts as struct member "
                "when %s" % sorted(Ls), fn.qn)
        for it in loc[:1] + gep[:1]:
            over(ctx, "variables", fn, it, [
                r"\$1\.Variables", r"\$0\.getAllFunctions\(\)",
                r"instructions\(.*"], "variables are tagged")


def annotations(ctx, F):
    fn = [f for f in F.find(L + "(ctor)") if len(f.ps) == 1 and
          "IRDB" in f.ps[0][2]]
    ctx.ob("annotations", len(fn) == 1, TC, "constructors: %d" % len(fn))
    for fn in fn:
        ps = live(ctx.summary(F, fn, stop=["addTaintCategory",
                                           "getAnnotationString", "getValue",
                                           "getFunction",
                                           "getOriginalValueOrOriginalArg"]))
        add = calls(ps, "addTaintCategory")
        ctx.ob("annotations", bool(add), where(fn), "annotations are ignored",
               fn.qn)
        kinds = set()
        for it in add:
            a = [t2s(x) for x in it.ev.args]
            Ls = lits(it.pc)
            ctx.ob("annotations", re.fullmatch(
                r".*getAnnotationString\(.*\)\.(?:substr\(4(?:, .*)?\)|"
                r"drop_front\(4\))", a[1]) is not None, where(fn),
                "the category is %s" % a[1], fn.qn)
            outer = t2s(it.loops[0].container) if it.loops else ""
            if "users()" in a[0] and "Value(" not in a[0]:
                kinds.add("global")
                U = r"elem\(.*getFunction\(.*\.users\(\)\)"
                ok = re.fullmatch(r"(?:as<CallBase>\()?%s\)?" % U, a[0]) and \
                    any(re.match(r"isa<CallBase>\(elem\(.*users", x)
                        for x in Ls) and any(
                    "getCalled" in x and not x.startswith("!") for x in Ls)
                ctx.ob("annotations", bool(ok), where(fn), "a function "
                       "annotation applies to %s when %s" % (a[0], sorted(
                           Ls)), fn.qn)
                for l in it.loops:
                    ctx.ob("annotations", whole(l), where(fn), "not all "
                           "annotated functions' calls are tagged", fn.qn)
            else:
                k = "ptr" if len(it.loops) > 1 else "var"
                kinds.add(k)
                ok = re.fullmatch(r".*getOriginalValueOrOriginalArg\(.*"
                                  r"getValue\(.*\).*\)", a[0])
                ctx.ob("annotations", bool(ok), where(fn), "a variable "
                       "annotation applies to %s" % a[0], fn.qn)
                ctx.ob("annotations", any(re.match(
                    r"isa<CallBase>\(elem\(.*users\(\)\)\)", x) for x in Ls),
                    where(fn), "annotations are no calls", fn.qn)
                for l in it.loops:
                    ctx.ob("annotations", whole(l), where(fn), "not all "
                           "annotations are considered", fn.qn)
        ctx.ob("annotations", kinds == {"global", "ptr", "var"}, where(fn),
               "only these annotations are read: %s" % sorted(kinds), fn.qn)
        txt = " ".join(it.ev.s() for it in items(ps)) + " ".join(
            x for it in items(ps) for x in lits(it.pc))
        for s in ("llvm.var.annotation", "llvm.global.annotations",
                  "llvm.ptr.annotation"):
            ctx.ob("annotations", s in txt, where(fn), "%s is not read" % s,
                   fn.qn)
        # the intrinsic is overloaded: its name carries a type suffix
        ctx.ob("annotations", not re.search(
            r"== (?:\w+\{)?\"llvm\.ptr\.annotation\"", txt), where(fn), "only "
            "one overload of llvm.ptr.annotation is read", fn.qn)


# --------------------------------------------------------------------- queries
def queries(ctx):
    F = ctx.facts(TC)
    for n, cat in (("forAllGeneratedValuesAtImpl", "Source"),
                   ("forAllLeakCandidatesAtImpl", "Sink"),
                   ("forAllSanitizedValuesAtImpl", "Sanitizer")):
        fn = one(F, L + n)
        ps = live(ctx.summary(F, fn))
        hs = [it for it in items(ps) if it.ev.kind == "call" and
              it.ev.obj is not None and t2s(it.ev.obj) == "$2"]
        SET = r"this\." + cat + "Values"
        CBK = r"this\.%sCallBack" % cat
        groups = {
            "cb": (r"elem\(%s\.operator\(\)\(\$0\)\)" % CBK,
                   [r"truthy\(%s\)" % CBK], [CBK + r"\.operator\(\)\(\$0\)"]),
            "arg": (r"\$0\.getOperand\(elem\(\$1\.args\(\)\)\.getArgNo\(\)\)",
                    [r"!\(\$1 == null\)", SET +
                     r" has &elem\(\$1\.args\(\)\)"], [r"\$1\.args\(\)"])}
        if cat == "Source":
            groups["op"] = (r"elem\(\$0\.operand_values\(\)\)",
                            [r"\(\$1 == null\)", SET +
                             r" has elem\(\$0\.operand_values\(\)\)"],
                            [r"\$0\.operand_values\(\)"])
            groups["self"] = (r"\$0", [SET + r" has \$0"], [])
        used = []
        for k, (val, when, loops) in groups.items():
            its = [it for it in hs if re.fullmatch(val, t2s(it.ev.args[0]))]
            used += its
            only(ctx, "queries", fn, its, [val], "%s: the %s values" % (n, k))
            iff(ctx, "queries", fn, ps, its, when, "%s: a %s value is "
                "reported" % (n, k), free=[
                    r"\(\$0 == null\)", r"truthy\(\$2\)"])
            for it in its:
                over(ctx, "queries", fn, it, loops, n)
        for it in hs:
            ctx.ob("queries", it in used, where(fn), "%s reports %s" % (
                n, t2s(it.ev.args[0])), fn.qn)
    for n, cat in (("generatesValuesAtImpl", "Source"),
                   ("mayLeakValuesAtImpl", "Sink"),
                   ("sanitizesValuesAtImpl", "Sanitizer")):
        fn = one(F, L + n)
        at = {"cb": "truthy(this.%sCallBack)" % cat,
              "none": "empty(this.%sCallBack.operator()($0))" % cat,
              "nofun": "($1 == null)",
              "arg": "anyof($1.args(), this.%sValues has &elem($1.args()))" %
              cat}
        if cat == "Source":
            at["self"] = "this.SourceValues has $0"
            at["op"] = "anyof($0.operand_values(), this.SourceValues has " \
                "elem($0.operand_values()))"

        def exp(A):
            if A["cb"] and not A["none"] or not A["nofun"] and A["arg"]:
                return True
            return bool(A.get("self") or A.get("op"))
        ps = anynorm(live(ctx.summary(F, fn)))
        decide(ctx, "queries", fn, ps, at, exp, pure=False)
    fn = one(F, L + "makeInitialSeedsImpl")
    ps = live(ctx.summary(F, fn, keep_mem=2))
    ins = calls(ps, "insert|emplace")
    S = r"elem\(this\.SourceValues\)"
    inst = [it for it in ins if "Argument" not in t2s(it.ev.args[0])]
    arg = [it for it in ins if it not in inst]
    X = r"(?:as<Instruction>\()?%s\)?" % S
    only(ctx, "seeds", fn, inst, [X], "an instruction is seeded")
    iff(ctx, "seeds", fn, ps, inst, [r"isa<Instruction>\(%s\)" % S],
        "an instruction is seeded", free=[r".*Argument.*"])
    for it in inst:
        ctx.ob("seeds", re.fullmatch(r"~\w+\[%s\]" % X, t2s(it.ev.obj)) is
               not None, where(fn), "an instruction is seeded at %s" %
               t2s(it.ev.obj), fn.qn)
        over(ctx, "seeds", fn, it, [r"this\.SourceValues"], "the sources")
    A = r"(?:as<Argument>\()%s\)" % S
    only(ctx, "seeds", fn, arg, [A], "a parameter is seeded")
    iff(ctx, "seeds", fn, ps, arg, [
        r"isa<Argument>\(%s\)" % S,
        r"!%s\.getParent\(\)\.isDeclaration\(\)" % A],
        "a parameter is seeded", free=[r"isa<Instruction>.*"])
    for it in arg:
        ctx.ob("seeds", re.fullmatch(
            r"~\w+\[elem\(.*getStartPointsOf\(%s\.getParent\(\)\)\)\]" % A,
            t2s(it.ev.obj)) is not None, where(fn), "a parameter is seeded "
            "at %s" % t2s(it.ev.obj), fn.qn)
        over(ctx, "seeds", fn, it, [r"this\.SourceValues",
                                    r".*getStartPointsOf.*"], "the sources")


# ------------------------------------------------------------ JSON and strings
def base(ctx):
    F = ctx.facts(TB)
    read, dflt = {}, False
    to = [f for f in F.all_fns() if f.qn == "psr::to_string" and
          "TaintCategory" in f.ps[0][2]]
    ctx.ob("strings", len(to) == 1, TB, "to_string(TaintCategory)")
    names = {}
    for fn in to:
        for p in live(ctx.summary(F, fn)):
            for x in lits(p.pc):
                m = re.fullmatch(r"\(\$0 == TaintCategory::(\w+)\)", x)
                if m:
                    names[m.group(1)] = t2s(p.ret)
        for c, s in names.items():
            ctx.ob("strings", s == '"%s"' % c, where(fn), "%s is named %s" % (
                c, s), fn.qn)
        ctx.ob("strings", set(names) >= {"Source", "Sink", "Sanitizer",
                                         "None"}, where(fn), "named: %s" %
               sorted(names), fn.qn)
    fr = one(F, "psr::toTaintCategory")
    for p in live(ctx.summary(F, fr)):
        r = t2s(p.ret)
        got = dict(re.findall(r"\.CaseLower\((?:StringLiteral\{)?\"(\w+)\"\}?, "
                              r"TaintCategory::(\w+)\)", r))
        for x in lits(p.pc):
            m = re.fullmatch(r'\$0\.(?:equals_insensitive|equals_lower)\("(\w+)"'
                             r'\)', x)
            if m and r.startswith("TaintCategory::"):
                got[m.group(1)] = r[len("TaintCategory::"):]
        read.update(got)
        dflt |= "Default(TaintCategory::None)" in r or \
            r == "TaintCategory::None"
    ctx.ob("strings", read == {"source": "Source", "sink": "Sink",
                               "sanitizer": "Sanitizer"}, where(fr),
           "categories are read as %s" % read, fr.qn)
    ctx.ob("strings", dflt, where(fr), "unknown categories are not None",
           fr.qn)
    load(ctx, F)


def load(ctx, F):
    # functions
    fn = one(F, "psr::loadFunc") if [f for f in F.all_fns() if f.qn ==
                                     "psr::loadFunc"] else one(F, "loadFunc")
    ps = live(ctx.summary(F, fn, keep_mem=True, stop=["toTaintCategory"]))
    W = [it for it in items(ps) if it.ev.kind in ("write", "call")]

    def eff(rx, args):
        out = []
        for it in W:
            o = t2s(it.ev.obj) if it.ev.obj is not None else ""
            if re.fullmatch(rx, o) and (
                    it.ev.kind == "write" or last(it.ev.name) in (
                        "push_back", "emplace_back")):
                out.append(it)
        return out
    for fld, key in (("SourceValues", "source"), ("SinkValues", "sink"),
                     ("SanitizerValues", "sanitizer")):
        its = eff(r".*%s" % fld, 1)
        ctx.ob("json", bool(its), where(fn), "%s are not read" % fld, fn.qn)
        for it in its:
            txt = " ".join([t2s(x) for x in it.ev.args] + [
                t2s(l.container) for l in it.loops])
            ks = set(re.findall(r'"(\w+)"', txt))
            ctx.ob("json", key in ks and not ks & ({"source", "sink",
                                                    "sanitizer"} - {key}),
                   where(fn), "%s are read from %s" % (fld, sorted(ks)),
                   fn.qn)
            ctx.ob("json", bool(it.loops) and all(whole(l) for l in it.loops),
                   where(fn), "not all %s are read" % fld, fn.qn)
    for fld, key in (("Name", "name"), ("ReturnCat", "ret")):
        keyed(ctx, fn, W, fld, key)
    hs = eff(r".*HasAllSinkParam", 1)
    ctx.ob("json", bool(hs) and all(
        t2s(it.ev.args[0]) == "true" and any(
            '"all"' in x and not x.startswith("!") for x in lits(it.pc))
        for it in hs if it.loops), where(fn), "all-sinks are read when %s" % [
            sorted(lits(it.pc)) for it in hs][:1], fn.qn)
    fn = one(F, "psr::loadVar") if [f for f in F.all_fns() if f.qn ==
                                    "psr::loadVar"] else one(F, "loadVar")
    ps = live(ctx.summary(F, fn, keep_mem=True, stop=["toTaintCategory"]))
    W = [it for it in items(ps) if it.ev.kind in ("write", "call")]
    for fld, key in (("Name", "name"), ("Line", "line"), ("Scope", "scope"),
                     ("Cat", "cat")):
        keyed(ctx, fn, W, fld, key)


def keyed(ctx, fn, W, fld, key):
    its = [it for it in W if it.ev.kind == "write" and re.fullmatch(
        r".*[.>]%s" % fld, t2s(it.ev.obj)) or it.ev.kind == "call" and
        last(it.ev.name) == "operator=" and re.fullmatch(
            r".*\.%s" % fld, t2s(it.ev.obj))]
    its = [it for it in its if '"' in t2s(it.ev.args[0])] or its
    ctx.ob("json", bool(its), where(fn), "%s is not read" % fld, fn.qn)
    for it in its:
        ks = set(re.findall(r'"(\w+)"', t2s(it.ev.args[0])))
        ctx.ob("json", ks == {key}, where(fn), "%s is read from %s" % (
            fld, t2s(it.ev.args[0])), fn.qn)
