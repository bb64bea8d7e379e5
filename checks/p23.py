"""P23: linear constant propagation: arithmetic, flow and edge functions."""
import re
from itertools import product as cart
from spec import *
import ff as FF
from p12 import live, whole
from p16 import one, tri, isS
from p20 import iff, over, calls, only

EXPLAIN = ("Decision tables over the paths of the arithmetic that folds two "
           "constants and of the edge functions; denotational evaluation of "
           "the flow functions on a symbolic fact, per kind of instruction; "
           "effect rules for the seeds.")

LC = "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp"
Q = "psr::IDELinearConstantAnalysis::"
STOP = FF.KNOWN - {"lambdaFlow"} | {
    "mapFactsToCallee", "mapFactsToCaller", "mapFactsAlongsideCallSite",
    "isIntegerLikeType"}
BOT = Pat(r"(?:LatticeDomain\{)?Bottom\{\}\}?")
ZERO = r"(?:this\.isZeroValue\({0}\)|(?:LLVMZeroValue::)?isLLVMZeroValue\({0}\)" \
    r"|\((?:LLVMZeroValue::getInstance\(\)|this\.getZeroValue\(\)) == {0}\)" \
    r"|\({0} == (?:LLVMZeroValue::getInstance\(\)|this\.getZeroValue\(\))\))"


def run(ctx):
    F = ctx.facts(LC)
    arith(ctx, F)
    normal(ctx, F)
    call(ctx, F)
    ret(ctx, F)
    ctr(ctx, F)
    summary(ctx, F)
    edges(ctx, F)
    seeds(ctx, F)
    strip(ctx, F)
    for r in ("arith", "normal", "edges"):
        ctx.atleast(r, 20)


# ----------------------------------------------------------------- arithmetic
SYM = {"And": "&", "Or": "|", "Xor": "^", "UDiv": "/", "SDiv": "/",
       "URem": "%", "SRem": "%"}
COMM = {"And", "Or", "Xor"}


def arith(ctx, F):
    fn = one(F, "psr::lca::executeBinOperation")
    ps = live(ctx.summary(F, fn))
    a, b = "*as<long>($1)", "*as<long>($2)"
    ra, rb = re.escape(a), re.escape(b)
    seen = {}
    for p in ps:
        L = lits(p.pc)
        got = t2s(p.ret) if p.ret is not None else "nothing"
        bot = bool(BOT.ok(got))
        ops = [m.group(1) for l in L for m in [re.fullmatch(
            r"\(\$0 == Instruction::BinaryOps::(\w+)\)", l)] if m]
        # a value that is not a constant gives no constant
        if tri(L, r"isa<long>\(\$1\)") is not True or \
                tri(L, r"isa<long>\(\$2\)") is not True:
            ctx.ob("arith", bot, where(fn), "an operand that may not be a "
                   "constant gives %s" % got[:120], fn.qn)
            continue
        if len(ops) != 1:
            ctx.ob("arith", bot, where(fn), "operation %s: %s" % (
                ops, got[:120]), fn.qn)
            continue
        op = ops[0]
        if bot:
            seen.setdefault(op, set()).add("bot")
            why = refuse(L, op, ra, rb)
            ctx.ob("arith", why, where(fn), "%s of two constants is given up "
                   "when %s" % (op, sorted(l for l in L if "Ops" not in l)),
                   fn.qn)
            continue
        seen.setdefault(op, set()).add("val")
        if op in ("Add", "Sub", "Mul"):
            m = re.fullmatch(r"(?:LatticeDomain\{)?(~\w+)\}?", got)
            ov = [l for l in L if re.match(r"!?(?:llvm::)?\w+Overflow\(", l)]
            r = m and m.group(1)
            args = {"(%s, %s, %s)" % (a, b, r)} | (
                {"(%s, %s, %s)" % (b, a, r)} if op != "Sub" else set())
            ok = r is not None and any(
                re.fullmatch(r"!(?:llvm::)?%sOverflow" % op, l.split("(")[0])
                and l[l.index("("):] in args for l in ov)
            ctx.ob("arith", bool(ok), where(fn), "%s gives %s under %s" % (
                op, got[:100], ov), fn.qn)
            ctx.ob("arith", any(re.fullmatch(
                r"(?:llvm::)?isIntN\(\$3, %s\)" % re.escape(r or "-"), l)
                for l in L), where(fn), "%s: the result is not known to fit "
                "the operands' type" % op, fn.qn)
            continue
        if op not in SYM:
            ctx.ob("arith", False, where(fn), "%s gives %s" % (op, got[:100]),
                   fn.qn)
            continue
        val = {"(%s %s %s)" % (a, SYM[op], b)}
        if op in COMM:
            val.add("(%s %s %s)" % (b, SYM[op], a))
        g = re.fullmatch(r"(?:LatticeDomain\{)?(\(.*\))\}?", got)
        ctx.ob("arith", bool(g) and g.group(1) in val, where(fn),
               "%s gives %s" % (op, got[:120]), fn.qn)
        if SYM[op] in "/%":
            z = tri(L, r"\(%s == 0\)|\(0 == %s\)" % (rb, rb))
            ctx.ob("arith", z is False, where(fn), "%s: the divisor may be "
                   "zero" % op, fn.qn)
            minn = tri(L, MIN.format(ra))
            neg = tri(L, NEG1.format(rb))
            sgn = {x: tri(L, r"\(%s < 0\)" % x) for x in (ra, rb)}
            ctx.ob("arith", minn is False or neg is False or
                   False in sgn.values(), where(fn),
                   "%s: MIN / -1 is computed" % op, fn.qn)
            if op[0] == "U":
                ctx.ob("arith", list(sgn.values()) == [False, False],
                       where(fn), "%s of sign-extended negative values is "
                       "computed" % op, fn.qn)
            if op == "SDiv":
                ctx.ob("arith", any(re.fullmatch(
                    r"(?:llvm::)?isIntN\(\$3, %s\)" % re.escape(
                        "(%s / %s)" % (a, b)), l) for l in L), where(fn),
                    "SDiv: the quotient is not known to fit the operands' "
                    "type", fn.qn)
    for op in ["Add", "Sub", "Mul"] + list(SYM):
        ctx.ob("arith", "val" in seen.get(op, ()), where(fn), "%s of two "
               "constants is never computed" % op, fn.qn)
    # who calls it with which width: P06 lca-value; the width is the operand's
    for c in F.find("psr::lca::BinOp::computeTarget"):
        for p in live(ctx.summary(F, c, stop=["executeBinOperation"])):
            for it in items([p]):
                if it.ev.kind == "call" and \
                        last(it.ev.name) == "executeBinOperation":
                    w = t2s(it.ev.args[-1])
                    ctx.ob("arith", len(it.ev.args) == 4 and re.fullmatch(
                        r"as<ConstantInt>\(this\.(?:Lop|Rop)\)\.(?:Val\.|"
                        r"getValue\(\)\.)?getBitWidth\(\)|"
                        r"(?:as<ConstantInt>\()?this\.(?:Lop|Rop)\)?\."
                        r"getType\(\)\.get(?:Integer|ScalarSizeIn)Bit"
                        r"(?:Width|s)\(\)", w) is not None, it.ev.where(),
                        "folded at width %s" % w, c.qn)


MIN = r"\((?:\S*min(?:\(\))? == {0}|{0} == \S*min(?:\(\))?)\)"
NEG1 = r"\(-1 == {0}\)|\({0} == -1\)"


def refuse(L, op, ra, rb):
    """may the result be given up on this path?"""
    t = lambda rx: tri(L, rx)
    if op in ("Add", "Sub", "Mul"):
        return any(re.match(r"(?:llvm::)?%sOverflow\(" % op, l) or
                   re.match(r"!(?:llvm::)?isIntN\(\$3, ", l) for l in L)
    if op in ("UDiv", "URem", "SDiv", "SRem"):
        z = t(r"\(%s == 0\)|\(0 == %s\)" % (rb, rb))
        o = t(MIN.format(ra)) and t(NEG1.format(rb))
        n = op[0] == "U" and (t(r"\(%s < 0\)" % ra) or t(r"\(%s < 0\)" % rb))
        f = any(re.match(r"!(?:llvm::)?isIntN\(\$3, ", l) for l in L)
        return bool(z or o or n or f)
    return op not in SYM


# ------------------------------------------------------------- flow functions
def kinds(L):
    return [m.group(1) for l in L for m in [re.fullmatch(
        r"isa<(\w+)>\(\$0\)", l)] if m]


EXCL = {"AllocaInst", "StoreInst", "GetElementPtrInst", "LoadInst",
        "BinaryOperator", "ExtractValueInst", "CallBase", "CastInst",
        "ReturnInst", "PHINode", "CmpInst", "SelectInst", "InsertValueInst"}


def zeroS(L):
    return tri(L, ZERO.format("@S"))


def normal(ctx, F):
    fn = one(F, Q + "getNormalFlowFunction")
    den = FF.denote(ctx, F, fn, stop=STOP)
    seen = {}
    for p, outs in den:
        L = lits(p.pc)
        ks = kinds(L)
        if len([k for k in ks if k in EXCL]) > 1:
            continue
        k = ks[0] if ks else None
        for o in outs:
            judge(ctx, fn, L, k, o, seen.setdefault(k, set()))
    need = {"AllocaInst": {"gen", "keep"}, "StoreInst": {"const", "val"},
            "GetElementPtrInst": {"gen", "keep"}, "LoadInst": {"gen", "keep"},
            "BinaryOperator": {"gen", "keep", "const"},
            "ExtractValueInst": {"gen", "keep"}, None: {"keep"}}
    for k, v in need.items():
        ctx.ob("normal", v <= seen.get(k, set()), where(fn), "%s: only %s" % (
            k or "other instructions", sorted(seen.get(k, set()))), fn.qn)


def res(ctx, rule, fn, o, gen, what, seen):
    me = {"$0"} | {x for x in o.plain() if re.fullmatch(r"as<\w+>\(\$0\)", x)}
    got = set(o.plain())
    extra = got - {"@S"}
    ok = "@S" in got and (bool(extra) and extra <= me if gen else not extra)
    ctx.ob(rule, ok and not o.other, where(fn), "%s: the fact is mapped to %s "
           "when %s" % (what, sorted(got), sorted(
               l for l in o.lits if "@S" in l or "ConstantInt" in l)), fn.qn)
    seen.add("gen" if gen else "keep")


def judge(ctx, fn, L, k, o, seen):
    A = frozenset(L) | frozenset(o.lits)
    me = "as<%s>($0)" % k
    rme = r"(?:as<%s>\(\$0\)|\$0)" % k
    if k == "AllocaInst":
        ints = [l for l in A if re.search(r"getAllocatedType\(\)", l) and
                not l.startswith("!")]
        no = [l for l in A if re.search(r"getAllocatedType\(\)", l) and
              l.startswith("!")]
        isint = bool(ints)
        if not isint:
            ctx.ob("normal", len(no) >= 2, where(fn), "an alloca is skipped "
                   "although its type may be an integer type", fn.qn)
        z = zeroS(A)
        if isint and z is None:
            ctx.ob("normal", False, where(fn), "alloca: %s for any fact" %
                   sorted(o.plain()), fn.qn)
            return
        res(ctx, "normal", fn, o, isint and z, "alloca", seen)
        return
    if k == "StoreInst":
        v = rme + r"\.(?:getValueOperand\(\)|getOperand\(0\))"
        c = tri(A, r"isa<ConstantInt>\(%s\)" % v)
        i = tri(A, v + r"\.getType\(\)\.isIntegerTy\(\)")
        got = sorted(o.plain())
        if c:
            seen.add("const")
            ctx.ob("normal", len(got) == 1 and re.fullmatch(
                r"\*strongUpdateStore\(%s, @?(?:\w+::)*isLLVMZeroValue\)\."
                r"computeTargets\(@S\)|\*strongUpdateStore\(%s, lambda@\d+\)"
                r"\.computeTargets\(@S\)" % (rme, rme), got[0]) is not None,
                where(fn), "store of a constant: the fact is mapped to %s" %
                got, fn.qn)
            for q in (o.p.ret,):
                lam(ctx, "normal", fn, q)
        elif i:
            seen.add("val")
            ctx.ob("normal", got == [
                "*strongUpdateStore(%s).computeTargets(@S)" % me], where(fn),
                "store: the fact is mapped to %s" % got, fn.qn)
        else:
            ctx.ob("normal", i is False and got == ["@S"], where(fn),
                   "store of something else: the fact is mapped to %s" % got,
                   fn.qn)
        return
    if k in ("GetElementPtrInst", "LoadInst", "ExtractValueInst"):
        ty = {"GetElementPtrInst": r"getResultElementType\(\)",
              "LoadInst": r"getType\(\)",
              "ExtractValueInst": r"getType\(\)"}[k]
        src = {"GetElementPtrInst": ["getPointerOperand()", "getOperand(0)"],
               "LoadInst": ["getPointerOperand()", "getOperand(0)"],
               "ExtractValueInst": ["getAggregateOperand()", "getOperand(0)"]
               }[k]
        i = tri(A, rme + r"\." + ty + r"\.isIntegerTy\(\)")
        use = i
        if k == "ExtractValueInst":
            b = tri(A, r"isa<(?:BinaryOpIntrinsic|WithOverflowInst)>\(%s\."
                    r"(?:getAggregateOperand\(\)|getOperand\(0\))\)" % rme)
            use = False if False in (i, b) else i and b
        s = [tri(A, r"\((?:@S == {0}|{0} == @S)\)".format(
            rme + r"\." + re.escape(x))) for x in src]
        s = True if True in s else False if False in s else None
        if use is None or use and s is None:
            ctx.ob("normal", False, where(fn), "%s: %s regardless of %s" % (
                k, sorted(o.plain()), "the fact" if use else "its type"),
                fn.qn)
            return
        res(ctx, "normal", fn, o, use and s, k, seen)
        return
    if k == "BinaryOperator":
        binop(ctx, fn, A, o, seen, "normal", [
            rme + r"\.getOperand\(0\)", rme + r"\.getOperand\(1\)"])
        return
    res(ctx, "normal", fn, o, False, k or "other instruction", seen)


def lam(ctx, rule, fn, t):
    """a lambda that decides whether the constant flows must be `is zero`"""
    for z in FF.subs(t) if t is not None else ():
        if z[0] == "lam" and len(z) > 1 and hasattr(z[1], "qn"):
            ctx.ob(rule, False, where(fn), "custom zero predicate", fn.qn)


def binop(ctx, fn, A, o, seen, rule, ops):
    s = [tri(A, r"\((?:@S == {0}|{0} == @S)\)".format(x)) for x in ops]
    c = [tri(A, r"isa<ConstantInt>\(%s\)" % x) for x in ops]
    z = zeroS(A)
    if True in s:
        gen = True
    elif z and c == [True, True]:
        gen = True
        seen.add("const")
    elif z and False in c:
        gen = False
    elif s != [False, False]:
        ctx.ob(rule, False, where(fn), "binary operation: %s without looking "
               "at both operands" % sorted(o.plain()), fn.qn)
        return
    elif z is False or False in c:
        gen = False
    else:
        ctx.ob(rule, False, where(fn), "binary operation: %s for a fact that "
               "is no operand" % sorted(o.plain()), fn.qn)
        return
    res(ctx, rule, fn, o, gen, "binary operation", seen)


def lambdas(F, t):
    """the closures in the arguments of a call term"""
    return [z for z in FF.subs(t) if z[0] == "clo" or z[0] == "lambda"]


def rx(**d):
    return {k: Pat(v) for k, v in d.items()}


def callbody(ctx, F, fn, n):
    """the predicates handed to a helper, in the order of the source"""
    ls = [f for f in F.all_fns() if f.qn.startswith(fn.qn + "(") and
          "(lambda)" in f.qn and f.body is not None and not any(
              "isDeclaration" in x for p in live(ctx.summary(F, f))
              if p.ret is not None for x in [t2s(p.ret), *lits(p.pc)])]
    ls.sort(key=lambda f: f.line)
    return ls if len(ls) == n else None


def dispatch(ctx, rule, F, fn, name, args, nlam):
    """the paths that hand the flow to the helper `name`"""
    den = FF.denote(ctx, F, fn, stop=STOP)
    hit = []
    for p, outs in den:
        t = t2s(p.ret) if p.ret is not None else ""
        if t.startswith(name + "("):
            hit.append(p)
            ctx.ob(rule, re.match(re.escape(name) + r"\(" + args, t)
                   is not None, where(fn), "%s: %s" % (name, t[:160]), fn.qn)
        else:
            for o in outs:
                ctx.ob(rule, o.plain() == {"@S"}, where(fn), "the fact is "
                       "mapped to %s when %s" % (sorted(o.plain()),
                                                 sorted(lits(p.pc))), fn.qn)
    ctx.ob(rule, bool(hit), where(fn), "%s is not used" % name, fn.qn)
    ls = callbody(ctx, F, fn, nlam)
    ctx.ob(rule, ls is not None, where(fn), "the predicates handed to %s are "
           "not found" % name, fn.qn)
    return den, hit, ls or []


def carries(ctx, rule, F, fn, f):
    """the actual (or returned) value carries the fact: it is the fact, or the
    fact is zero and it is a constant"""
    decide(ctx, rule, f, live(ctx.summary(F, f)), rx(
        E=r"\((?:\$0 == \$1|\$1 == \$0)\)", Z=ZERO.format(r"\$1"),
        C=r"isa<ConstantInt>\(\$0\)"),
        lambda A: A["E"] or A["Z"] and A["C"], pure=False,
        what="value carries fact")


def call(ctx, F):
    fn = one(F, Q + "getCallFlowFunction")
    den, hit, ls = dispatch(ctx, "call", F, fn, "mapFactsToCallee",
                            r"as<CallBase>\(\$0\), \$1, ", 1)
    for p, _ in den:
        d = tri(lits(p.pc), r"\$1\.(?:isDeclaration|empty)\(\)")
        c = tri(lits(p.pc), r"isa<CallBase>\(\$0\)")
        h = p in hit
        ctx.ob("call", h and d is not True or not h and (
            d is True or c is False), where(fn), "a call of a function with a "
            "body %s" % ("is skipped" if not h else "of a declaration"),
            fn.qn)
        if h:
            t = t2s(p.ret)
            ctx.ob("call", t.endswith("true, true)"), where(fn), "globals and "
                   "zero are not propagated into the callee: %s" % t, fn.qn)
    for f in ls:
        carries(ctx, "call", F, fn, f)


def ret(ctx, F):
    fn = one(F, Q + "getRetFlowFunction")
    den, hit, ls = dispatch(ctx, "return", F, fn, "mapFactsToCaller",
                            r"as<CallBase>\(\$0\), \$2, ", 2)
    ctx.ob("return", len(hit) == len(den), where(fn), "some returns are not "
           "mapped", fn.qn)
    for p in hit:
        t = t2s(p.ret)
        ctx.ob("return", "true, true" in t, where(fn), "globals and zero are "
               "not propagated to the caller: %s" % t[:200], fn.qn)
    if ls:
        decide(ctx, "return", ls[0], live(ctx.summary(F, ls[0])), rx(
            E=r"\((?:\$0 == \$1|\$1 == \$0)\)",
            P=r"\$[01]\.getType\(\)\.isPointerTy\(\)"),
            lambda A: A["E"] and A["P"], pure=False, what="pointer argument")
        carries(ctx, "return", F, fn, ls[1])


def ctr(ctx, F):
    fn = one(F, Q + "getCallToRetFlowFunction")
    den, hit, ls = dispatch(ctx, "call-to-return", F, fn,
                            "mapFactsAlongsideCallSite",
                            r"as<CallBase>\(\$0\), ", 1)
    for p, _ in den:
        body = tri(lits(p.pc), r"anyof\(\$2, \(*(?:not\(|!)elem\(\$2\)"
                   r"\.isDeclaration\(\)\)+|!allof\(\$2, elem\(\$2\)\.isDeclaration\(\)\)")
        alld = tri(lits(p.pc), r"allof\(\$2, elem\(\$2\)\.isDeclaration"
                   r"\(\)\)|noneof\(\$2, \(*(?:not\(|!)elem\(\$2\)"
                   r"\.isDeclaration\(\)\)+")
        b = body if body is not None else (not alld if alld is not None
                                           else None)
        h = p in hit
        ctx.ob("call-to-return", b is None and False or b == h, where(fn),
               "facts %s when %s" % ("are killed" if h else "are kept",
                                     sorted(lits(p.pc))), fn.qn)
        if h:
            a = t2s(p.ret)
            ctx.ob("call-to-return", re.search(r"lambda@\d+, false", a)
                   is not None, where(fn), "globals bypass the callee: %s" %
                   a, fn.qn)
    for f in ls:
        decide(ctx, "call-to-return", f, live(ctx.summary(F, f)), rx(
            P=r"\$0\.getType\(\)\.isPointerTy\(\)"),
            lambda A: not A["P"], pure=False, what="kept argument")


def summary(ctx, F):
    fn = one(F, Q + "getSummaryFlowFunction")
    den = FF.denote(ctx, F, fn, stop=STOP)
    seen = set()
    for p, outs in den:
        L = lits(p.pc)
        b = tri(L, r"isa<(?:BinaryOpIntrinsic|WithOverflowInst)>\(\$0\)")
        if t2s(p.ret) in ("null", "FlowFunctionPtrType{null}"):
            ctx.ob("summary", b is False, where(fn), "an arithmetic intrinsic "
                   "has no summary", fn.qn)
            continue
        ctx.ob("summary", b is True, where(fn), "a summary for another call",
               fn.qn)
        for o in outs:
            A = frozenset(L) | frozenset(o.lits)
            me = r"(?:as<\w+>\(\$0\)|\$0)\."
            binop(ctx, fn, A, o, seen, "summary", [
                me + r"(?:getLHS\(\)|get(?:Arg)?Operand\(0\))",
                me + r"(?:getRHS\(\)|get(?:Arg)?Operand\(1\))"])
    ctx.ob("summary", {"gen", "keep", "const"} <= seen, where(fn), "only %s" %
           sorted(seen), fn.qn)


# ------------------------------------------------------------- edge functions
ID = Pat(r"(?:EdgeFunction\{)?EdgeIdentity\{(?:EmptyType\{\})?\}\}?")
ALLB = Pat(r"(?:EdgeFunction\{)?AllBottom\{(?:EmptyType\{\})?\}\}?")


def gen(x):
    return Pat(r"(?:EdgeFunction\{)?(?:lca::)?GenConstant\{"
               r"(?:ConstantEdgeFunction\{)?as<ConstantInt>\(%s\)"
               r"\.getSExtValue\(\)\}*" % x)


def bop(me, i):
    op = (r"\.getOpcode\(\)", r"\.getBinaryOp\(\)")[i]
    lr = (r"\.getOperand\(0\)", r"\.getOperand\(1\)") if not i else (
        r"\.(?:getLHS\(\)|get(?:Arg)?Operand\(0\))",
        r"\.(?:getRHS\(\)|get(?:Arg)?Operand\(1\))")
    return Pat(r"(?:EdgeFunction\{)?(?:lca::)?BinOp\{%s%s, %s%s, %s%s, \$1\}*"
               % (me, op, me, lr[0], me, lr[1]))


def table(ctx, rule, fn, ps, atoms, expect, kind=None):
    """every path: whatever the unknown atoms are, one of the accepted
    results is returned"""
    n = 0
    for p in live(ps):
        L = lits(p.pc)
        ks = [k for k in kinds(L) if k in EXCL]
        if len(ks) > 1:
            continue
        k = ks[0] if ks else None
        got = t2s(p.ret)
        known = {a: tri(L, rx.replace("ME", r"(?:as<\w+>\(\$0\)|\$0)"))
                 for a, rx in atoms.items()}
        free = [a for a in known if known[a] is None]
        for vs in cart([True, False], repeat=len(free)):
            A = {**known, **dict(zip(free, vs))}
            e = expect(A, k)
            if e is None:
                continue
            n += 1
            es = e if isinstance(e, list) else [e]
            if not any(x.ok(got) for x in es):
                ctx.ob(rule, False, where(fn), "%s: %s when %s" % (
                    k or "edge", got[:150], sorted(
                        a for a in A if A[a])), fn.qn)
                break
        else:
            ctx.ob(rule, True, where(fn), "", fn.qn)
    return n


def edges(ctx, F):
    fn = one(F, Q + "getNormalEdgeFunction")
    v = r"ME\.(?:getValueOperand\(\)|getOperand\(0\))"
    q = r"ME\.(?:getPointerOperand\(\)|getOperand\(1\))"
    eq = lambda a, b: r"\((?:{0} == {1}|{1} == {0})\)".format(a, b)
    atoms = {"z1": ZERO.format(r"\$1"), "z3": ZERO.format(r"\$3"),
             "same": eq(r"\$1", r"\$3"), "me": eq("ME", r"\$3"),
             "p": eq(q, r"\$3"),
             "ps": eq(q + r"\.stripPointerCasts\(\)", r"\$3"),
             "cv": r"isa<ConstantInt>\(%s\)" % v,
             "l": eq(r"ME\.getOperand\(0\)", r"\$1"),
             "r": eq(r"ME\.getOperand\(1\)", r"\$1"),
             "cl": r"isa<ConstantInt>\(ME\.getOperand\(0\)\)",
             "cr": r"isa<ConstantInt>\(ME\.getOperand\(1\)\)"}
    me = r"(?:as<\w+>\(\$0\)|\$0)"

    def exp(A, k):
        if A["same"] and A["z1"] != A["z3"] or A["me"] and A["z3"] or \
                A["z3"] and not A["z1"]:
            return None
        if A["z1"] and A["z3"]:
            return ID
        if k == "AllocaInst":
            return ALLB if A["z1"] else ID
        if k == "StoreInst":
            if A["p"] and not A["ps"] and False:
                return None
            if (A["p"] or A["ps"]) and A["z1"]:
                # zero reaches the stored-to location only for constants
                return gen(v.replace("ME", me)) if A["cv"] else None
            return ID
        if k == "BinaryOperator":
            if not A["me"] or A["same"]:
                return ID
            return linear(A, bop(me, 0))
        return ID
    table(ctx, "edges", fn, ctx.summary(F, fn), atoms, exp)

    fn = one(F, Q + "getSummaryEdgeFunction")
    lh = r"ME\.(?:getLHS\(\)|get(?:Arg)?Operand\(0\))"
    rh = r"ME\.(?:getRHS\(\)|get(?:Arg)?Operand\(1\))"
    atoms = {"z1": ZERO.format(r"\$1"), "bi": r"isa<BinaryOpIntrinsic>\(\$0\)",
             "wo": r"isa<WithOverflowInst>\(\$0\)",
             "sat": r"isa<SaturatingInst>\(\$0\)",
             "same": eq(r"\$1", r"\$3"), "me": eq("ME", r"\$3"),
             "l": eq(lh, r"\$1"), "r": eq(rh, r"\$1"),
             "cl": r"isa<ConstantInt>\(%s\)" % lh,
             "cr": r"isa<ConstantInt>\(%s\)" % rh}

    def exs(A, k):
        if A["bi"] != (A["wo"] or A["sat"]) or A["wo"] and A["sat"]:
            return None
        if not A["bi"] or not A["me"] or A["same"]:
            return ID
        if A["sat"]:
            return ALLB
        return linear(A, bop(me, 1))
    table(ctx, "edges", fn, ctx.summary(F, fn), atoms, exs)

    fn = one(F, Q + "getCallEdgeFunction")
    act = r"as<CallBase>\(\$0\)\.get(?:Arg)?Operand\((?:\w+::)*" \
        r"(?:getFunctionArgumentNr\(as<Argument>\(\$3\)\)|" \
        r"as<Argument>\(\$3\)\.getArgNo\(\))\)"
    table(ctx, "edges", fn, ctx.summary(F, fn, stop=[
        "getFunctionArgumentNr"]), {
        "z1": ZERO.format(r"\$1"), "z3": ZERO.format(r"\$3"),
        "arg": r"isa<Argument>\(\$3\)", "c": r"isa<ConstantInt>\(%s\)" % act},
        lambda A, k: ID if not A["z1"] or A["z3"] or not A["arg"] or
        not A["c"] else gen(act))
    fn = one(F, Q + "getReturnEdgeFunction")
    rv = r"as<ReturnInst>\(\$2\)\.getReturnValue\((?:0)?\)"
    table(ctx, "edges", fn, ctx.summary(F, fn), {
        "z3": ZERO.format(r"\$3"), "z5": ZERO.format(r"\$5"),
        "null": r"\(%s == null\)" % rv, "c": r"isa<ConstantInt>\(%s\)" % rv},
        lambda A, k: None if A["null"] and A["c"] else ID if not A["z3"] or A["z5"] or not A["c"] else gen(rv))
    fn = one(F, Q + "getCallToRetEdgeFunction")
    table(ctx, "edges", fn, ctx.summary(F, fn), {}, lambda A, k: ID)


def linear(A, b):
    """what the result of a binary operation is on the edge from $1"""
    if A["z1"]:
        # zero is no operand; it gets here only when both are constant
        if A["l"] or A["r"] or not (A["cl"] and A["cr"]):
            return None
        return b
    if A["l"] and A["cl"] or A["r"] and A["cr"]:
        return None          # facts are not constants
    if not A["l"] and not A["r"]:
        return None          # the fact is no operand
    if A["l"] and A["r"] or A["l"] and not A["cr"] or \
            A["r"] and not A["cl"]:
        return ALLB
    return b


# ---------------------------------------------------------------------- seeds
def seeds(ctx, F):
    fn = one(F, Q + "initialSeeds")
    ps = live(ctx.summary(F, fn, stop=["forallStartingPoints"]))
    h = calls(ps, "forallStartingPoints")
    only_ep = [t2s(x) for it in h for x in it.ev.args[:2]]
    ctx.ob("seeds", only_ep == ["this.EntryPoints", "this.ICF"] and
           all(not lits(it.pc) for it in h), where(fn), "the starting points "
           "are those of %s" % only_ep, fn.qn)
    ls = callbody(ctx, F, fn, 1)
    ctx.ob("seeds", ls is not None, where(fn), "no callback", fn.qn)
    for f in ls or ():
        qs = live(ctx.summary(F, f))
        add = calls(qs, "addSeed")
        z = [it for it in add if re.search(r"ero", t2s(it.ev.args[1]))]
        g = [it for it in add if it not in z]
        for it in z:
            ctx.ob("seeds", not it.loops and not lits(it.pc) and
                   t2s(it.ev.args[0]) == "$0" and re.search(
                       r"Bottom|bottomElement", t2s(it.ev.args[2])),
                   where(f), "zero is seeded with %s" % [
                       t2s(x) for x in it.ev.args], f.qn)
        ctx.ob("seeds", bool(z) and bool(g), where(f), "zero or the globals "
               "are not seeded", f.qn)
        for it in g:
            a = [t2s(x) for x in it.ev.args]
            gv = re.fullmatch(r"&?(?:as<GlobalVariable>\(&?)?(elem\(.*\))\)?",
                              a[1]) if a[1].startswith(("as<", "elem", "&")) \
                else None
            ctx.ob("seeds", a[0] == "$0" and "globals()" in a[1] and
                   re.fullmatch(r"(?:LatticeDomain\{)?as<ConstantInt>\(.*"
                                r"elem\(.*globals\(\)\).*\.getInitializer\(\)"
                                r"\)\.getSExtValue\(\)\}?", a[2]) is not None,
                   where(f), "a global is seeded with %s" % a, f.qn)
            over(ctx, "seeds", f, it, [r".*globals\(\)"], "the globals")
        iff(ctx, "seeds", f, qs, g, [r"[^!].*\.hasInitializer\(\)",
                                     r"isa<ConstantInt>\(.*getInitializer"
                                     r"\(\)\)"], "a global is seeded",
            free=(r"isa<GlobalVariable>\(.*",))


def strip(ctx, F):
    fn = one(F, Q + "stripBottomResults")
    ps = live(ctx.summary(F, fn))
    er = calls(ps, "erase")
    ctx.ob("strip", bool(er), where(fn), "nothing is removed", fn.qn)
    iff(ctx, "strip", fn, ps, er, [r"isa<Bottom>\(.*\.second\)"],
        "an entry is removed", free=(r"\(.*end\(\$0\).*\)",))
    for it in er:
        for l in it.loops:
            ctx.ob("strip", all(q.exit != "break" for q in l.paths),
                   where(fn), "the loop is left early", fn.qn)
