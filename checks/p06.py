"""P06: the shipped edge functions obey the composition and join algebra."""
from spec import *
from facts import FL_CONST

EXPLAIN = ("Every compose/join/computeTarget of the shipped edge functions is "
           "summarised into abstract paths and compared, under every "
           "assignment of its atoms, with the decision table that the "
           "algebra prescribes.")
SHORT = ["isConstant", "joinWith", "composeWith", "computeTarget",
         "defaultComposeOrNull", "defaultJoinOrNull", "create",
         "initEdgeFunctionCleaner"]
T, O = "$0", "$1"
EFT = Pat(r"(?:EdgeFunction\{)*\$0\}*")      # This, as an edge function
BOT = Pat(r"(?:EdgeFunction\{)?AllBottom\{.*\}+")
TOP = Pat(r"(?:EdgeFunction\{)?AllTop\{.*\}+")
NUL = Pat(r"EdgeFunction\{null\}|null|EdgeFunction\{\}")


def isa(n, x=O):
    return Pat(r"isa<(?:\w+::)*%s>\(%s\)" % (n, re.escape(x)))


def eq(a, b):
    return pat(["({a} == {b})", "({b} == {a})"], a=a, b=b)


def ISNULL(nm):
    """`nm` applied to (This, Other) gave no answer"""
    d = Pat(r"(?:\w+::)*%s\(\$0, \$1\)" % nm)
    return d, pat(["({d}.VTAndHeapAlloc.getOpaqueValue() == null)",
                   "({d} == null)", "!{d}"], d=d)


EQ = Pat(r"\((?:EdgeFunction\{)?\$0\}? == \$1\)|"
         r"\(\$1 == (?:EdgeFunction\{)?\$0\}?\)")
OJT = Pat(r"\$1\.joinWith\((?:EdgeFunction\{)*\$0\}*\)")
CREATE = Pat(r"(?:JoinEdgeFunction::)?create\((?:EdgeFunction\{)*\$0\}*, \$1\)")


def tab(ctx, F, rule, qn, atoms, expect, n=1, stop=SHORT, sel=None,
        pure=False, eff=None, one=False, need=True):
    fns = [f for f in F.find(qn, need=need) if sel is None or sel(f)]
    for fn in fns:
        ps = ctx.summary(F, fn, stop=stop)
        decide(ctx, rule, fn, ps, atoms, expect, pure=pure, eff=eff,
               inst=fn.qn)
    ctx.atleast(rule, n)
    return fns


def eqfor(f, n):
    """equality operator between two values of this class"""
    return len(f.decl.pt) == 2 and all(re.match(
        r"(?:const )?(?:psr::)?%s<" % n, x) for x in f.decl.pt)


def kinds(A, *ns):
    """an edge function is of at most one kind; bottom and top are constant"""
    return sum(1 for n in ns if A.get(n)) <= 1


def excl(f):
    """exclude impossible assignments of the kind atoms"""
    def g(A):
        if sum(1 for n in ("I", "B", "T", "J") if A.get(n)) > 1:
            return None
        if A.get("C") is False and (A.get("B") or A.get("T")):
            return None
        if A.get("C") and A.get("I"):
            return None
        return f(A)
    return g


def generic(ctx, F):
    K = {"I": isa("EdgeIdentity"), "B": isa("AllBottom"), "T": isa("AllTop")}
    KC = dict(K, C=Pat(r"\$1\.isConstant\(\)"))
    tab(ctx, F, "identity-compose", "psr::EdgeIdentity::compose", KC,
        excl(lambda A: O), 3)
    tab(ctx, F, "identity-join", "psr::EdgeIdentity::join", dict(K, E=EQ),
        excl(lambda A: None if A["E"] and not A["I"] else EFT if
             A["I"] or A["T"] else [BOT, O] if A["B"] else OJT), 3)
    tab(ctx, F, "identity-value", "psr::EdgeIdentity::computeTarget", {},
        lambda A: "$0", 3)
    # bottom/top are constants
    tab(ctx, F, "bottom-compose", "psr::AllBottom::compose", KC,
        excl(lambda A: O if A["C"] else EFT), 3)
    tab(ctx, F, "bottom-join", "psr::AllBottom::join", KC,
        excl(lambda A: [O, EFT] if A["B"] else EFT), 3)
    tab(ctx, F, "top-compose", "psr::AllTop::compose", KC,
        excl(lambda A: EFT if A["I"] else [O, EFT] if A["T"] else O), 3)
    tab(ctx, F, "top-join", "psr::AllTop::join", KC,
        excl(lambda A: [O, EFT] if A["T"] else O), 3)
    for n, v in (("AllBottom", r"Bottom\{\}|this\.BottomValue|"
                  r"psr::BinaryDomain::BOTTOM|BinaryDomain::BOTTOM"),
                 ("AllTop", r"Top\{\}|this\.TopValue|"
                  r"psr::BinaryDomain::TOP|BinaryDomain::TOP")):
        w = Pat(r"(?:LatticeDomain\{)?(?:%s)\}?" % v)
        tab(ctx, F, "const-value", "psr::%s::computeTarget" % n, {},
            lambda A, w=w: w, 6)
        tab(ctx, F, "const-flag", "psr::%s::isConstant" % n, {},
            lambda A: True, 6)
        for f in F.find("psr::operator==", need=False) + \
                F.find("psr::%s::operator==" % n, need=False):
            if eqfor(f, n):
                decide(ctx, "const-equal", f, ctx.summary(F, f), {
                    "v": pat(["($0.{m} == $1.{m})", "($1.{m} == $0.{m})"],
                             m=n[3:] + "Value")}, lambda A: A["v"])
    # defaults
    FULL = dict(KC, TT=isa("AllTop", T), TI=isa("EdgeIdentity", T),
                TB=isa("AllBottom", T))
    for fn in F.find("psr::defaultComposeOrNull"):
        ref = "Ref" in fn.decl.pt[0]
        ps = ctx.summary(F, fn, stop=SHORT)
        decide(ctx, "default-compose", fn, ps, KC if ref else FULL, excl(
            lambda A: EFT if A["I"] else O if A["C"] else NUL if ref else
            None if kinds(A, "TT", "TI", "TB") is False else
            O if A["TT"] or A["TI"] else EFT if A["TB"] else NUL),
            pure=False, inst="ref" if ref else "plain")
    ctx.atleast("default-compose", 20)
    for fn in F.find("psr::defaultJoinOrNull"):
        ref = "Ref" in fn.decl.pt[0]
        joinN = fn.decl.ta[1] not in ("#0", "0")
        plain = "Plain" in fn.decl.pt[0]
        ps = ctx.summary(F, fn, stop=SHORT)

        def ex(A):
            if not kinds(A, "TT", "TI", "TB"):
                return None
            if A["E"] and not ref and (A["TI"] and not A["I"]):
                return None
            alts = []
            # bottom dominates, top is neutral; either order of the cases
            # gives the same function
            if A["B"] or A.get("TT"):
                alts.append(O)
            if A["T"] or A["E"] or A.get("TB"):
                alts.append(EFT)
            if A["B"]:
                # both are bottom, or This is bottom as well
                return [O, EFT] if A["E"] or A.get("TB") else O
            if A.get("TB"):
                return EFT
            if A["E"]:
                return [O, EFT]
            if A["T"] and A.get("TT"):
                return [O, EFT]
            if A["T"]:
                return EFT
            if A.get("TT"):
                return O
            if A["I"]:
                return CREATE if joinN else NUL if plain else BOT
            return NUL
        decide(ctx, "default-join", fn, ps, dict(K, E=EQ) if ref else dict(
            K, E=EQ, TT=isa("AllTop", T), TI=isa("EdgeIdentity", T),
            TB=isa("AllBottom", T)), excl(ex), pure=False,
            inst="%s%s" % ("ref" if ref else "plain", joinN))
    ctx.atleast("default-join", 30)


def constants(ctx, F, base="psr::ConstantEdgeFunction"):
    D, dn = ISNULL("defaultComposeOrNull")
    V = Pat(r"\$1\.computeTarget\((?:LatticeDomain\{)?\$0\.Value\}?\)")

    def unwrap(V):
        x = pat("{v}", v=V)
        return Pat(r"(?:EdgeFunction\{)?ConstantEdgeFunction\{(?:\*as<[^()]*>"
                   r"\()?%s\)?\}+" % x.rx)

    def atoms(dn, V):
        return {"dn": dn, "same": eq(V, "$0.Value"),
                "vb": eq(V, Pat(r"(?:LatticeDomain\{)?Bottom\{\}\}?")),
                "vt": eq(V, Pat(r"(?:LatticeDomain\{)?Top\{\}\}?"))}
    tab(ctx, F, "constant-compose", base + "::compose", atoms(dn, V),
        lambda A: (D if not A["dn"] else
                   None if A["vb"] + A["vt"] + A["same"] > 1 else
                   BOT if A["vb"] else TOP if A["vt"] else
                   [EFT, unwrap(V)] if A["same"] else unwrap(V)), 2)
    tab(ctx, F, "constant-value", base + "::computeTarget", {},
        lambda A: Pat(r"(?:LatticeDomain\{)?this\.Value\}?"), 2)
    tab(ctx, F, "const-flag", base + "::isConstant", {}, lambda A: True, 8)
    D2, jn = ISNULL("defaultJoinOrNull")
    ov = Pat(r"\$1\.computeTarget\((?:LatticeDomain\{)?"
             r"(?:Top\{\}|Bottom\{\}|\$0\.Value)\}?\)")
    tv = Pat(r"(?:LatticeDomain\{)?\$0\.Value\}?")
    J = pat(["JoinLatticeTraits::join({a}, {b})",
             "JoinLatticeTraits::join({b}, {a})"], a=tv, b=ov)
    tab(ctx, F, "constant-join", base + "::join", {
        "dn": jn, "I": isa("EdgeIdentity"), "C": Pat(r"\$1\.isConstant\(\)"),
        "jb": eq(J, Pat(r"(?:LatticeDomain\{)?Bottom\{\}\}?")),
        "jo": eq(J, ov), "jt": eq(J, tv)}, excl(
        lambda A: D2 if not A["dn"] else BOT if A["I"] else OJT if not A["C"]
        else BOT if A["jb"] else [O, unwrap(J)] if A["jo"] and not A["jt"]
        else [EFT, unwrap(J)] if A["jt"] and not A["jo"] else
        [O, EFT, unwrap(J)] if A["jt"] else unwrap(J)), 2)
    for f in F.find("psr::operator=="):
        if eqfor(f, "ConstantEdgeFunction"):
            decide(ctx, "constant-equal", f, ctx.summary(F, f), {
                "v": eq("$0.Value", "$1.Value")}, lambda A: A["v"])
    ctx.atleast("constant-equal", 2)


def composer(ctx, F):
    D, dn = ISNULL("defaultComposeOrNull")
    B = "psr::EdgeFunctionComposer"
    tab(ctx, F, "composer-value", B + "::computeTarget", {}, lambda A:
        "this.Second.computeTarget(this.First.computeTarget($0))", 1)
    tab(ctx, F, "composer-compose", B + "::compose", {"dn": dn}, lambda A: (
        D if not A["dn"] else
        "$0.First.composeWith($0.Second.composeWith($1))"), 1)
    tab(ctx, F, "composer-depth", B + "::depth", {}, lambda A: [
        "(this.First.depth() + this.Second.depth())",
        "(this.Second.depth() + this.First.depth())"], 1, stop=["depth"])
    for f in F.find("psr::operator==", need=False) + \
            F.find(B + "::operator==", need=False):
        if eqfor(f, "EdgeFunctionComposer"):
            decide(ctx, "composer-equal", f, ctx.summary(F, f), {
                "a": eq("$0.First", "$1.First"),
                "b": eq("$0.Second", "$1.Second")},
                lambda A: A["a"] and A["b"])
    ctx.atleast("composer-equal", 1)


def joinef(ctx, F):
    B = "psr::JoinEdgeFunction"
    D, dn = ISNULL("defaultComposeOrNull")
    tab(ctx, F, "joinef-compose", B + "::compose", {"dn": dn}, lambda A:
        D if not A["dn"] else
        Pat(r"EdgeFunction\{DefaultJoinEdgeFunctionComposer\{"
            r"EdgeFunctionComposer\{EdgeFunction\{\$0\}, \$1\}\}\}|"
            r"EdgeFunction\{EdgeFunctionComposer\{EdgeFunction\{\$0\}, \$1\}\}"),
        1)
    D2, jn = ISNULL("defaultJoinOrNull")
    tab(ctx, F, "joinef-join", B + "::join", {"dn": jn}, lambda A:
        D2 if not A["dn"] else CREATE, 1)
    for fn in F.all_fns():
        if fn.qn.endswith("DefaultJoinEdgeFunctionComposer::join"):
            decide(ctx, "joinef-composed-join", fn,
                   ctx.summary(F, fn, stop=SHORT), {
                       "B": isa("AllBottom"), "T": isa("AllTop"), "E": EQ},
                   lambda A: None if A["B"] and (A["T"] or A["E"]) else
                   O if A["B"] else EFT if A["T"] and not A["E"] else
                   [O, EFT] if A["E"] else CREATE, pure=False)
    ctx.atleast("joinef-composed-join", 4)
    # value: fold of the seed and every function's value
    for fn in F.find(B + "::computeTarget"):
        ps = ctx.summary(F, fn, stop=SHORT)
        ctx.none("joinef-value", require(ps, [
            ("loop", "this.OtherEF"),
            ("ev", lambda it: call_is(it, "join") and any(
                re.fullmatch(r"elem\(this\.OtherEF\)\.computeTarget\(\$0\)",
                             t2s(x)) for x in it.ev.args) and any(
                t2s(x).startswith("?") for x in it.ev.args),
             "the value so far is not joined with the value of every "
             "function")], early=lambda L: any(
                 re.search(r"== Bottom\{", x) and not x.startswith("!")
                 for x in L)), where(fn), "join edge function")
        for it in items(ps):
            if it.ev.kind == "loop":
                for v, t in it.ev.loop.entry.items():
                    if v[0] == "hav":
                        ctx.ob("joinef-seed", t2s(t) == "this.Seed",
                               where(fn), "the fold starts with %s" % t2s(t))
        for p in ps:
            r = t2s(p.ret)
            ctx.ob("joinef-result", r.startswith("?") or "join(" in r and
                   any("== Bottom" in x and not x.startswith("!")
                       for x in lits(p.pc)), where(fn),
                   "returns %s instead of the folded value" % r)
    ctx.atleast("joinef-seed", 1)
    for fn in F.find(B + "::create"):
        ps = ctx.summary(F, fn, stop=[x for x in SHORT if x != "create"])
        for p in ps:
            L = lits(p.pc)
            isj = ["isa<JoinEdgeFunction>(%s)" % x in L for x in (T, O)]
            sd = ["as<JoinEdgeFunction>(%s).Seed" % x if j else
                  r"(?:LatticeDomain\{)?Top\{\}\}?" for x, j in
                  zip((T, O), isj)]
            sd = [re.escape(x) if x.startswith("as<") else x for x in sd]
            J = Pat(r"JoinLatticeTraits::join\((?:%s, %s|%s, %s)\)" %
                    (sd[0], sd[1], sd[1], sd[0]))
            top2 = not any(isj)
            r = t2s(p.ret)
            isbot = any(re.fullmatch(r"\(%s == (?:LatticeDomain\{)?Bottom\{"
                                     r"\}\}?\)" % J.rx, x) for x in L)
            toobig = any(re.fullmatch(r"\(4 < ~?\S+\.size\(\)\)|"
                                      r"!\(~?\S+\.size\(\) <= 4\)|"
                                      r"!\(\S+\.size\(\) < 5\)", x)
                         for x in L)
            fits = any(re.fullmatch(r"!\(4 < ~?\S+\.size\(\)\)|"
                                    r"\(~?\S+\.size\(\) <= 4\)", x)
                       for x in L)
            if BOT.ok(r):
                ctx.ob("joinef-create", isbot or toobig, where(fn),
                       "gives up with bottom on a path where neither the "
                       "joined seed is bottom nor the bound is exceeded: %s"
                       % sorted(L))
            else:
                ctx.ob("joinef-create", re.fullmatch(
                    r"EdgeFunction\{JoinEdgeFunction\{%s, \S+\}+" % J.rx, r)
                    is not None and fits, where(fn), "the result %s does "
                    "not carry the join of both seeds within the bound" % r)
                vec = r[r.rfind(", ") + 2:].rstrip("}")
                ok = False
                for it in items([p]):
                    if it.ev.kind == "call" and last(it.ev.name) in (
                            "set_union", "merge"):
                        a = [t2s(x) for x in it.ev.args]
                        ok = all(any(re.search(w, x) for x in a) for w in (
                            r"\$0", r"\$1"))
                ctx.ob("joinef-union", ok, where(fn), "the functions of both "
                       "operands are not united")
    for f in F.find("psr::operator==", need=False) + \
            F.find(B + "::operator==", need=False):
        if eqfor(f, "JoinEdgeFunction"):
            decide(ctx, "joinef-equal", f, ctx.summary(F, f), {
                "a": eq("$0.Seed", "$1.Seed"),
                "b": Pat(r"equal\(\$[01]\.OtherEF, \$[01]\.OtherEF\)|"
                         r"\(\$0\.OtherEF == \$1\.OtherEF\)")},
                lambda A: A["a"] and A["b"])
    ctx.atleast("joinef-equal", 1)
    ctx.atleast("joinef-create", 12)


def run(ctx):
    F = ctx.facts("edge_functions.cpp")
    generic(ctx, F)
    constants(ctx, F)
    composer(ctx, F)
    joinef(ctx, F)
    domains(ctx, F)
    lca(ctx)
    typestate(ctx)
    iia(ctx)
    xtaint(ctx)
    glca(ctx)


ORD = {"Top": 0, "Val": 1, "Bottom": 2}


def domains(ctx, F):
    """the value lattices: kinds top/value/bottom of either operand, and
    whether the values are equal/ordered"""
    ms = [m for m in product(a=list(ORD), b=list(ORD), eq=[True, False],
                             lt=[True, False])
          if (m["a"] == m["b"] == "Val" or m["eq"] and not m["lt"]) and
          not (m["eq"] and m["lt"])]
    K = {"Top": "Top", "Bottom": "Bottom"}

    def kind(m, x):
        return m["a" if x == "$0" or x == "this" else "b"]

    def same(m):
        return m["a"] == m["b"] and (m["a"] != "Val" or m["eq"])

    at = [(r"isa<(.*)>\((\$[01]|this)\)", lambda m, g:
           kind(m, g[2]) == K.get(g[1].split("::")[-1], "Val")),
          (r"\(as<(?!Top|Bottom).*>\((\$[01])\) == null\)", lambda m, g:
           kind(m, g[1]) != "Val"),
          (r"\(\$0\.index\(\) == \$1\.index\(\)\)", lambda m, g:
           m["a"] == m["b"]),
          (r"\(\$0 == \$1\)|\(\$1 == \$0\)", lambda m, g: same(m)),
          (r"\(\*?as<[^()]*>\((\$[01])\) == \*?as<[^()]*>\((\$[01])\)\)",
           lambda m, g: g[1] == g[2] or (m["eq"] if m["a"] == m["b"] == "Val"
                                         else None)),
          (r"\(\*?as<[^()]*>\(\$0\) < \*?as<[^()]*>\(\$1\)\)",
           lambda m, g: m["lt"]),
          (r"\(\*?as<[^()]*>\(\$1\) < \*?as<[^()]*>\(\$0\)\)",
           lambda m, g: not m["lt"] and not m["eq"]),
          (r"\((\$[01]) == (Top|Bottom)\{\}\)", lambda m, g:
           kind(m, g[1]) == g[2]),
          ]
    LDT = re.compile(r"(?:const )?psr::LatticeDomain<")
    for f in F.find("psr::operator==") + F.find("psr::operator!=") + \
            F.find("psr::operator<"):
        pt = f.decl.pt
        if len(pt) != 2 or not any(LDT.match(x) for x in pt):
            continue
        op = last(f.qn)[8:]
        ps = ctx.summary(F, f)
        both = all(LDT.match(x) for x in pt)
        if op == "<":
            model(ctx, "domain-order", f, ps, ms, at, lambda m:
                  m["lt"] if m["a"] == m["b"] == "Val" else
                  ORD[m["a"]] < ORD[m["b"]], exact=True)
            continue
        if both:
            model(ctx, "domain-equal", f, ps, ms, at, lambda m:
                  same(m) == (op == "=="), exact=True)
            continue
        o = pt[1] if LDT.match(pt[0]) else pt[0]
        x, y = ("$0", "$1") if LDT.match(pt[0]) else ("$1", "$0")
        kd = re.sub(r"psr::", "", o)
        if kd in K:
            model(ctx, "domain-equal", f, ps, product(a=list(ORD)), [
                (r"isa<(.*)>\(%s\)" % re.escape(x), lambda m, g: m["a"] ==
                 K.get(g[1].split("::")[-1], "Val")),
                (r"\((?:\S+ == \S+)\)", lambda m, g: m["a"] == kd)],
                lambda m: (m["a"] == kd) == (op == "=="))
        else:
            vv = r"\((?:\*as<[^()]*>\(%s\) == %s|%s == \*as<[^()]*>\(%s\))\)"\
                % (re.escape(x), re.escape(y), re.escape(y), re.escape(x))
            model(ctx, "domain-equal", f, ps, [
                dict(a="Top", eq=False), dict(a="Bottom", eq=False),
                dict(a="Val", eq=True), dict(a="Val", eq=False)], [
                (r"isa<(.*)>\(%s\)" % re.escape(x), lambda m, g: m["a"] ==
                 K.get(g[1].split("::")[-1], "Val")),
                (r"\(as<(?!Top|Bottom).*>\(%s\) == null\)" % re.escape(x),
                 lambda m, g: m["a"] != "Val"),
                (vv, lambda m, g: m["eq"]),
                (r"\(\$0 == \$1\)|\(\$1 == \$0\)", lambda m, g:
                 m["a"] == "Val" and m["eq"])],
                lambda m: (m["a"] == "Val" and m["eq"]) == (op == "=="))
    ctx.atleast("domain-equal", 60)
    ctx.atleast("domain-order", 16)
    BT = Pat(r"(?:LatticeDomain\{)?Bottom\{\}+")
    for f in F.find("psr::JoinLatticeTraits::join"):
        ps = ctx.summary(F, f)
        if "Lattice" in f.decl.pt[0]:
            def ex(m):
                if same(m):
                    return ["$0", "$1"] + ([BT] if m["a"] == "Bottom" else [])
                if m["a"] == "Top":
                    return "$1"
                if m["b"] == "Top":
                    return "$0"
                out = [BT]
                if m["a"] == "Bottom":
                    out.append("$0")
                if m["b"] == "Bottom":
                    out.append("$1")
                return out
            model(ctx, "domain-join", f, ps, ms, at, ex, exact=True)
        elif "Binary" in f.decl.pt[0]:
            V = Pat(r"(?:psr::)?BinaryDomain::(?:TOP|BOTTOM)")
            model(ctx, "domain-join", f, ps, product(
                a=["TOP", "BOTTOM"], b=["TOP", "BOTTOM"]), [
                (r"\(\$0 == \$1\)|\(\$1 == \$0\)",
                 lambda m, g: m["a"] == m["b"]),
                (r"\((\$[01]) == (?:psr::)?BinaryDomain::(TOP|BOTTOM)\)|"
                 r"\((?:psr::)?BinaryDomain::(TOP|BOTTOM) == (\$[01])\)",
                 lambda m, g: m["a" if (g[1] or g[4]) == "$0" else "b"] ==
                 (g[2] or g[3])),
                (r"(\$[01])", lambda m, g: "=" + m[
                    "a" if g[1] == "$0" else "b"]),
                (r"(?:psr::)?BinaryDomain::(TOP|BOTTOM)",
                 lambda m, g: "=" + g[1])],
                lambda m: "=" + ("TOP" if m["a"] == m["b"] == "TOP" else
                                 "BOTTOM"), exact=True)
    ctx.atleast("domain-join", 20)
    for nm in ("top", "bottom"):
        for f in F.find("psr::JoinLatticeTraits::" + nm):
            decide(ctx, "domain-extremes", f, ctx.summary(F, f), {},
                   lambda A: Pat(r"%s\{\}|(?:psr::)?BinaryDomain::%s" % (
                       nm.capitalize(), nm.upper())))
    ctx.atleast("domain-extremes", 4)
    for nm, t in (("isTop", "Top"), ("isBottom", "Bottom")):
        for f in F.find("psr::LatticeDomain::" + nm):
            decide(ctx, "domain-kind", f, ctx.summary(F, f), {
                "k": Pat(r"isa<%s>\(this\)" % t)}, lambda A: A["k"])
    for f in F.find("psr::LatticeDomain::getValueOrNull"):
        decide(ctx, "domain-kind", f, ctx.summary(F, f), {}, lambda A:
               Pat(r"as<(?!Top|Bottom).*>\(this\)"))
    ctx.atleast("domain-kind", 8)


# ------------------------------------------------------------------- clients
PR = "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/"
DC, DCN = ISNULL("defaultComposeOrNull")
DJ, DJN = ISNULL("defaultJoinOrNull")


def EF(rx):
    return Pat(r"(?:EdgeFunction\{)*(?:%s)\}*" % rx)


def compose_tab(ctx, F, qn, cls, n=1):
    """compose = default, else the composer of (This, Second) in order"""
    tab(ctx, F, "client-compose", qn, {"dn": DCN}, lambda A: DC if not A["dn"]
        else Pat(r"(?:EdgeFunction\{)?(?:XTaint::)?(?:%s)\{(?:"
                 r"EdgeFunctionComposer\{)?(?:EdgeFunction\{)?\$0\}?, \$1"
                 r"(?:, .*)?\}+" % cls), n)


def join_bottom(ctx, F, qn, n=1):
    tab(ctx, F, "client-join", qn, {"dn": DJN}, lambda A: DJ if not A["dn"]
        else BOT, n)


def lca(ctx):
    F = ctx.facts(PR + "IDELinearConstantAnalysis.cpp")
    B = "psr::lca::BinOp"
    compose_tab(ctx, F, B + "::compose", "LCAEdgeFunctionComposer|"
                "EdgeFunctionComposer")
    join_bottom(ctx, F, B + "::join")
    join_bottom(ctx, F, "psr::lca::LCAEdgeFunctionComposer::join")
    for fn in F.find(B + "::computeTarget"):
        ps = ctx.summary(F, fn, stop=["executeBinOperation",
                                      "isLLVMZeroValue"])
        zero = r"(?:LLVMZeroValue::)?isLLVMZeroValue\(this\.CurrNode\)|" \
            r"\((?:LLVMZeroValue::getInstance\(\) == this\.CurrNode|" \
            r"this\.CurrNode == LLVMZeroValue::getInstance\(\))\)"
        c = {x: r"(?:LatticeDomain\{)?as<ConstantInt>\(this\.%s\)"
             r"\.getSExtValue\(\)\}?" % x for x in ("Lop", "Rop")}
        at = [(zero, lambda m, g: m["Z"]),
              (r"isa<ConstantInt>\(this\.(Lop|Rop)\)", lambda m, g:
               m[g[1]] == "const"),
              (r"\(\$0 == Bottom\{\}\)|\(Bottom\{\} == \$0\)|"
               r"isa<Bottom>\(\$0\)", lambda m, g: m["bot"]),
              (r"\(this\.(?:CurrNode|Lop|Rop) == this\.(?:CurrNode|Lop|Rop)"
               r"\)", lambda m, g: None if "CurrNode" not in g[0] else
               m["Lop" if "Lop" in g[0] else "Rop"] == "node")]

        def X(a, b):
            return Pat(r"(?:lca::)?executeBinOperation\(this\.Op, %s, %s"
                       r"(?:, .*[wW]idth\(\))?\)" %
                       (a, b))

        def ex(m):
            if m["Z"]:
                if m["Lop"] == m["Rop"] == "const":
                    return X(c["Lop"], c["Rop"])
                return None
            if (m["Lop"], m["Rop"]) == ("node", "const"):
                if m["bot"]:
                    return ["$0", BOTV, X(r"\$0", c["Rop"])]
                return X(r"\$0", c["Rop"])
            if (m["Lop"], m["Rop"]) == ("const", "node"):
                if m["bot"]:
                    return ["$0", BOTV, X(c["Lop"], r"\$0")]
                return X(c["Lop"], r"\$0")
            return None
        model(ctx, "lca-value", fn, ps, product(
            Z=[True, False], Lop=["const", "node"], Rop=["const", "node"],
            bot=[True, False]), at, ex)
    ctx.atleast("lca-value", 12)
    for fn in F.find("psr::lca::BinOp::operator=="):
        decide(ctx, "client-equal", fn, ctx.summary(F, fn), {
            x: eq("$0.%s" % x, "this.%s" % x) for x in ("Op", "Lop", "Rop")} |
            {"CurrNode": eq("$0.CurrNode", "this.CurrNode")},
            lambda A: None if not A["CurrNode"] else
            A["Op"] and A["Lop"] and A["Rop"])


BOTV = Pat(r"(?:LatticeDomain\{)?Bottom\{\}\}?")


def typestate(ctx):
    F = ctx.facts("typestate.cpp")
    B = "psr::IDETypeStateAnalysis::"
    ST = SHORT + ["getNextState", "top", "bottom", "uninit"]
    T = B + "TSEdgeFunction"
    tv = r"(?:JoinLatticeTraits::|\S+\.)top\(\)|\S*::TOP"
    bv = r"(?:JoinLatticeTraits::|\S+\.)bottom\(\)|\S*::BOT"

    def isv(x, v):
        return Pat(r"\(%s == (?:%s)\)|\((?:%s) == %s\)" % (x, v, v, x))
    tab(ctx, F, "typestate-step", T + "::computeTarget", {
        "t": isv(r"\$0", tv)}, lambda A: Pat(
        r"this\.TSD\.getNextState\(this\.Token, %s, this\.CallSite\)" % (
            r"this\.TSD\.uninit\(\)" if A["t"] else r"\$0")), 10, stop=ST)
    compose_tab(ctx, F, T + "::compose", "TSEdgeFunctionComposer", 5)
    join_bottom(ctx, F, T + "::join", 7)
    join_bottom(ctx, F, B + "TSEdgeFunctionComposer::join", 12)
    C = B + "TSConstant"
    V = r"\$1\.computeTarget\(\$0\.Value\)"
    tab(ctx, F, "typestate-const-compose", C + "::compose", {
        "dn": DCN, "same": eq(Pat(V), "$0.Value"), "vb": isv(V, bv)},
        lambda A: DC if not A["dn"] else
        [EFT, BOT] if A["same"] and A["vb"] else EFT if A["same"] else
        BOT if A["vb"] else
        Pat(r"(?:EdgeFunction\{)?TSConstant\{%s(?:, .*)?\}+" % V), 5, stop=ST)
    ov = r"as<TSConstant>\(\$1\)\.Value"
    tab(ctx, F, "typestate-const-join", C + "::join", {
        "dn": DJN, "C": isa("TSConstant"), "same": eq(Pat(ov), "$0.Value"),
        "ot": isv(ov, tv), "tt": isv(r"\$0\.Value", tv)}, lambda A:
        DJ if not A["dn"] else BOT if not A["C"] else
        None if A["same"] and A["ot"] != A["tt"] or
        not A["same"] and A["ot"] and A["tt"] else
        [EFT, O] if A["same"] else EFT if A["ot"] else O if A["tt"] else BOT,
        10, stop=ST)
    for cls, ms in (("TSEdgeFunction", ("CallSite", "Token")),
                    ("TSConstant", ("Value",))):
        for fn in F.find(B + cls + "::operator=="):
            decide(ctx, "client-equal", fn, ctx.summary(F, fn), {
                x: eq("$0.%s" % x, "this.%s" % x) for x in ms},
                lambda A: all(A.values()))
    for nm, v in (("makeAllBottom", BOT),):
        tab(ctx, F, "typestate-bottom", B + nm, {}, lambda A: v, 3)
    tab(ctx, F, "typestate-bottom", B + "isBottom", {
        "b": isv(r"\$0", bv)}, lambda A: A["b"], 3, stop=["bottom"])
    # lattice of the states
    LJ = "psr::JoinLatticeTraits::"
    n = 0
    for fn in F.find(LJ + "join"):
        if "State" not in fn.decl.pt[0]:
            continue
        n += 1
        lattice2(ctx, F, fn)
    for fn in F.find(B + "join"):
        lattice2(ctx, F, fn, ["top", "bottom"])
    ctx.atleast("typestate-lattice", 30)
    for nm, w in (("topElement", tv), ("bottomElement", bv)):
        tab(ctx, F, "typestate-extremes", B + nm, {}, lambda A, w=w: Pat(w), 5,
            stop=ST)
    tab(ctx, F, "typestate-top", B + "allTopFunction", {}, lambda A: TOP, 5,
        stop=["top"])
    for nm, v in (("top", "TOP"), ("bottom", "BOT")):
        for fn in F.find(LJ + nm):
            if "State" in (fn.decl.rt or "") + fn.decl.clsT:
                decide(ctx, "typestate-extremes", fn, ctx.summary(F, fn), {},
                       lambda A: Pat(r".*::%s" % v))
    ctx.atleast("typestate-extremes", 6)


def lattice2(ctx, F, fn, stop=()):
    """join over a flat lattice of an enumeration with TOP and BOT"""
    def kind(m, x):
        return m["a" if x == "$0" else "b"]
    ms = [m for m in product(a=["TOP", "X", "BOT"], b=["TOP", "X", "BOT"],
                             eq=[True, False])
          if (m["a"] == m["b"] == "X" or m["eq"])]

    def same(m):
        return m["a"] == m["b"] and (m["a"] != "X" or m["eq"])

    def ex(m):
        v = {"TOP": Pat(r".*::TOP|.*\.top\(\)"),
             "BOT": Pat(r".*::BOT|.*\.bottom\(\)")}
        out = []
        if same(m):
            out = ["$0", "$1"]
        elif m["a"] == "TOP":
            out = ["$1"]
        elif m["b"] == "TOP":
            out = ["$0"]
        else:
            out = [v["BOT"]] + (["$0"] if m["a"] == "BOT" else []) + \
                (["$1"] if m["b"] == "BOT" else [])
        for k in ("$0", "$1"):
            if k in out and kind(m, k) in v:
                out.append(v[kind(m, k)])
        return out
    model(ctx, "typestate-lattice", fn, ctx.summary(F, fn, stop=list(stop)),
          ms, [
        (r"\((\$[01]) == \S+\.(top|bottom)\(\)\)|"
         r"\(\S+\.(top|bottom)\(\) == (\$[01])\)", lambda m, g:
         kind(m, g[1] or g[4]) == {"top": "TOP", "bottom": "BOT"}[
             g[2] or g[3]]),
        (r"\((\$[01]) == (?:\S*::)(TOP|BOT)\)|"
         r"\((?:\S*::)(TOP|BOT) == (\$[01])\)", lambda m, g:
         kind(m, g[1] or g[4]) == (g[2] or g[3])),
        (r"\(\$0 == \$1\)|\(\$1 == \$0\)", lambda m, g: same(m))], ex,
        exact=True)


def iia(ctx):
    F = ctx.facts("iia.cpp")
    B = "psr::IDEInstInteractionAnalysisT::"
    tab(ctx, F, "iia-value", B + "IIAAKillOrReplaceEF::computeTarget", {},
        lambda A: "this.Replacement", 2)
    tab(ctx, F, "const-flag", B + "IIAAKillOrReplaceEF::isConstant", {},
        lambda A: True, 2)
    JI = r"(?:IDEInstInteractionAnalysisT::)?join(?:Impl)?"

    def J(a, b):
        return r"%s\((?:%s, %s|%s, %s)\)" % (JI, a, b, b, a)
    ST = SHORT + ["joinImpl"]
    tab(ctx, F, "iia-value", B + "IIAAAddLabelsEF::computeTarget", {},
        lambda A: Pat(J(r"\$0", r"this\.Data")), 2, stop=ST)
    for x, m in (("IIAAKillOrReplaceEF", "Replacement"),
                 ("IIAAAddLabelsEF", "Data")):
        for fn in F.find(B + x + "::operator=="):
            decide(ctx, "client-equal", fn, ctx.summary(F, fn), {
                m: eq("$0." + m, "this." + m)}, lambda A: A[m])
    K = {"a0": isa("IIAAAddLabelsEF", "$0"), "a1": isa("IIAAAddLabelsEF"),
         "k0": isa("IIAAKillOrReplaceEF", "$0"),
         "k1": isa("IIAAKillOrReplaceEF"), "I0": isa("EdgeIdentity", "$0"),
         "I1": isa("EdgeIdentity"), "T0": isa("AllTop", "$0"),
         "T1": isa("AllTop")}

    def D(A, i):
        return r"as<IIAAAddLabelsEF>\(\$%d\)\.Data" % i if A["a%d" % i] else\
            r"as<IIAAKillOrReplaceEF>\(\$%d\)\.Replacement" % i

    def mk(cls, A):
        return Pat(r"(?:EdgeFunction\{)?(?:CachedEdgeFunction\{)?%s\{%s\}+"
                   r"(?:, .*\}+)?" % (cls, J(D(A, 0), D(A, 1))))

    def ok(A):
        for i in "01":
            if sum(A[k + i] for k in ("a", "k", "I", "T") if k + i in A) > 1:
                return False
        return True

    def ext(A):
        if not ok(A):
            return None
        if not A["dn"]:
            return DC
        # the default covers identity and constants
        if A["k1"] or A["I1"] or A["T1"] or not A["a1"]:
            return None
        if not A["a0"] and not A["k0"]:
            return None
        return mk("IIAAAddLabelsEF" if A["a0"] else "IIAAKillOrReplaceEF", A)
    tab(ctx, F, "iia-compose", B + "extend", dict(K, dn=DCN), ext, 4, stop=ST)

    def com(A):
        if not ok(A):
            return None
        # documented: joins with the identity are under-approximated
        if A["I0"] and not A["T1"]:
            return O if not A["I1"] else [O, "$0"]
        if A["I1"] and not A["T0"]:
            return "$0"
        if not A["dn"]:
            return DJ
        if A["I0"] or A["I1"] or A["T0"] or A["T1"]:
            return None
        if not ((A["a0"] or A["k0"]) and (A["a1"] or A["k1"])):
            return None
        return mk("IIAAKillOrReplaceEF" if A["k0"] and A["k1"] else
                  "IIAAAddLabelsEF", A)
    tab(ctx, F, "iia-join", B + "combine", dict(K, dn=DJN), com, 20, stop=ST)

    def kind(m, x):
        return m["a" if x == "$0" else "b"]
    for fn in F.find(B + "joinImpl"):
        model(ctx, "iia-lattice", fn, ctx.summary(F, fn),
              product(a=list(ORD), b=list(ORD)), [
                  (r"isa<(.*)>\((\$[01])\)", lambda m, g: kind(m, g[2]) ==
                   {"Top": "Top", "Bottom": "Bottom"}.get(
                       g[1].split("::")[-1], "Val")),
                  (r"\((\$[01]) == (Top|Bottom)\{\}\)", lambda m, g:
                   kind(m, g[1]) == g[2])],
              lambda m: ["$0", "$1"] if m["a"] == m["b"] != "Val" else
              "$1" if m["a"] == "Top" else "$0" if m["b"] == "Top" else
              ["$0", BOTV] if m["a"] == "Bottom" else
              ["$1", BOTV] if m["b"] == "Bottom" else
              Pat(r"(?:LatticeDomain\{)?\*?as<BitVectorSet>\(\$0\)\.setUnion"
                  r"\(\*?as<BitVectorSet>\(\$1\)\)\}?|(?:LatticeDomain\{)?"
                  r"\*?as<BitVectorSet>\(\$1\)\.setUnion"
                  r"\(\*?as<BitVectorSet>\(\$0\)\)\}?"), exact=True)
    ctx.atleast("iia-lattice", 18)
    tab(ctx, F, "iia-problem-join", B + "join", {}, lambda A: Pat(
        J(r"\$0", r"\$1")), 2, stop=ST)


def xtaint(ctx):
    X = PR + "ExtendedTaintAnalysis/"
    F = ctx.facts(*(X + f + ".cpp" for f in (
        "AllSanitized", "ComposeEdgeFunction", "EdgeDomain",
        "KillIfSanitizedEdgeFunction", "TransferEdgeFunction",
        "XTaintEdgeFunctionBase")), "xtaint.cpp")
    N = "psr::XTaint::"
    SAN = Pat(r"(?:EdgeDomain\{)?Sanitized\{\}\}?")
    S2 = pat("$1.computeTarget({s})", s=SAN)

    def kindis(x, k):
        return Pat(r"\((?:%s)\.Value\.getInt\(\) == \S*::%s\)" % (x, k))
    tab(ctx, F, "sanitized-compose", N + "AllSanitized::compose", {
        "I": isa("EdgeIdentity"), "B": isa("AllBottom"), "T": isa("AllTop"),
        "C": Pat(r"\$1\.isConstant\(\)"), "kb": kindis(S2.rx, "Bot"),
        "kt": kindis(S2.rx, "Top"), "ks": kindis(S2.rx, "Sanitized"),
        "kw": kindis(S2.rx, "WithSanitizer")},
        excl(lambda A: None if A["kb"] + A["kt"] + A["ks"] + A["kw"] != 1 else
             EFT if A["I"] else [O, BOT] if A["B"] else
             [EFT, O, TOP] if A["T"] else O if A["C"] else
             BOT if A["kb"] else TOP if A["kt"] else EFT if A["ks"] else
             # forgetting a sanitizer is conservative
             [O, EF(r"(?:Gen|Constant)EdgeFunction\{.*\}")]), 8)
    tab(ctx, F, "sanitized-join", N + "AllSanitized::join", {"dn": DJN},
        lambda A: DJ if not A["dn"] else OJT, 2)
    tab(ctx, F, "sanitized-value", N + "AllSanitized::computeTarget", {},
        lambda A: SAN)
    tab(ctx, F, "const-flag", N + "AllSanitized::isConstant", {},
        lambda A: True)
    compose_tab(ctx, F, N + "EdgeFunctionBase::compose", "ComposeEdgeFunction"
                "|EdgeFunctionComposer", 2)
    tab(ctx, F, "xtaint-join", N + "EdgeFunctionBase::join", {
        "dn": DJN, "S": isa("AllSanitized")}, lambda A: DJ if not A["dn"] else
        EFT if A["S"] else CREATE, 6)
    tab(ctx, F, "xtaint-join", N + "ComposeEdgeFunction::join", {
        "dn": DJN, "S": isa("AllSanitized")}, lambda A: Pat(
        r"(?:XTaint::)?EdgeFunctionBase::join\(\$0, \$1\)"), 1,
        stop=SHORT + ["join"])
    # transfer functions over the domain: bottom, top, sanitized,
    # not sanitized, with sanitizer
    KD = ["Bot", "Top", "Sanitized", "None", "With"]

    def dk(m, x):
        return m["a" if x == "this" else "b" if x == "$0" and "a" in m
                 else "b"]

    def dom(nm):
        return [
            (r"\((\$0|this)\.Value\.getInt\(\) == \S*::(\w+)\)", lambda m, g:
             dk(m, g[1]) == g[2] or g[2] == "WithSanitizer" and
             dk(m, g[1]) in ("None", "With")),
            (r"\((\$0|this)\.Value\.getPointer\(\) == null\)", lambda m, g:
             dk(m, g[1]) != "With"),
            (r"(\$0|this)\.Value\.getPointer\(\)", lambda m, g:
             dk(m, g[1]) == "With")]
    extra = [(r"\(this\.Load == null\)", lambda m, g: not m["load"]),
             (r"\(this\.BBO == null\)", lambda m, g: False),
             (r"\((?:\$0\.Value\.getPointer\(\)\.getFunction\(\) == "
              r"this\.Load\.getFunction\(\)|this\.Load\.getFunction\(\) == "
              r"\$0\.Value\.getPointer\(\)\.getFunction\(\))\)",
              lambda m, g: m["fun"]),
             (r"this\.BBO\.mustComeBefore\(\$0\.Value\.getPointer\(\), "
              r"this\.Load\)", lambda m, g: m["before"])]
    ms = [m for m in product(b=KD, load=[True, False], fun=[True, False],
                             before=[True, False])
          if m["fun"] or not m["before"]]
    NOT = Pat(r"(?:EdgeDomain\{)?null\}?")
    TO = Pat(r"(?:EdgeDomain\{)?this\.To\}?")
    for fn in F.find(N + "KillIfSanitizedEdgeFunction::computeTarget"):
        model(ctx, "xtaint-value", fn, ctx.summary(F, fn), ms,
              dom(0) + extra, lambda m: "$0" if m["b"] in (
                  "Bot", "Top", "None") else
              ["$0", SAN] if m["b"] == "Sanitized" else
              SAN if not m["load"] or m["before"] else NOT)
    for fn in F.find(N + "TransferEdgeFunction::computeTarget"):
        model(ctx, "xtaint-value", fn, ctx.summary(F, fn), ms,
              dom(0) + extra, lambda m: TO if m["b"] == "Sanitized" or
              m["b"] == "With" and (not m["load"] or m["before"]) else NOT)
    ctx.atleast("xtaint-value", 60)
    for fn in F.find(N + "operator=="):
        for cls, fs in (("KillIfSanitizedEdgeFunction", ("Load",)),
                        ("TransferEdgeFunction", ("Load", "To"))):
            if all(cls in x for x in fn.decl.pt):
                decide(ctx, "client-equal", fn, ctx.summary(F, fn), {
                    f: eq("$0." + f, "$1." + f) for f in fs},
                    lambda A: all(A.values()))
    ctx.atleast("client-equal", 20)
    # the join of the domain
    KP = [m for m in product(a=KD, b=KD, eq=[True, False], fun=[True, False],
                             bbo=[True, False], ab=[True, False],
                             ba=[True, False])
          if (m["a"] == m["b"] == "With" or m["eq"] == (m["a"] == m["b"]))
          and not (m["ab"] and m["ba"]) and not (
              (m["a"] != "With" or m["b"] != "With" or m["eq"]) and
              (m["ab"] or m["ba"] or m["bbo"] or m["fun"])) and not (
              not m["bbo"] and (m["ab"] or m["ba"])) and not (
              not m["fun"] and (m["ab"] or m["ba"]))]
    P = r"(\$0|this)\.Value\.getPointer\(\)"
    at = dom(0) + [
        (r"\(\$0 == this\)|\(this == \$0\)|\((?:\$0|this)\.Value == "
         r"(?:\$0|this)\.Value\)", lambda m, g: m["eq"]),
        (r"\(%s\.getFunction\(\) == %s\.getFunction\(\)\)" % (P, P),
         lambda m, g: m["fun"]),
        (r"\(\$1 == null\)", lambda m, g: not m["bbo"]),
        (r"\$1\.mustComeBefore\(%s, %s\)" % (P, P), lambda m, g:
         m["ab"] if g[1] == "this" else m["ba"])]
    for fn in F.find(N + "EdgeDomain::join"):
        def ex(m):
            if m["eq"]:
                return ["this", "$0"]
            if m["a"] == "Top":
                return "$0"
            if m["b"] == "Top":
                return "this"
            if "Bot" in (m["a"], m["b"]):
                return [BOTE] + (["this"] if m["a"] == "Bot" else ["$0"])
            if m["a"] == "Sanitized":
                return "$0"
            if m["b"] == "Sanitized":
                return "this"
            if "None" in (m["a"], m["b"]):
                return [NOT] + (["this"] if m["a"] == "None" else ["$0"])
            if not m["fun"]:
                return NOT
            if m["ab"]:
                return Pat(r"(?:EdgeDomain\{)?this\.Value\.getPointer\(\)\}?")
            if m["ba"]:
                return Pat(r"(?:EdgeDomain\{)?\$0\.Value\.getPointer\(\)\}?")
            return ANY      # merge points
        model(ctx, "xtaint-lattice", fn, ctx.summary(F, fn), KP, at, ex)
        # beyond the kinds the operands are treated alike
        ps = ctx.summary(F, fn)
        sw = swapset(ps)
        ctx.ob("xtaint-lattice-symmetric", sw is None, where(fn),
               "treats the operands differently: %s" % sw)
    ctx.atleast("xtaint-lattice", 30)


BOTE = Pat(r"(?:EdgeDomain\{)?Bottom\{\}\}?")


def swapset(ps):
    """None if for every sanitizer that can be the result, the other one can
    be as well"""
    rs = {t2s(p.ret) for p in ps if p.ret is not None}
    rs |= {t2s(q.ret) for it in items(ps) if it.ev.kind == "loop"
           for q in it.ev.loop.paths if q.ret is not None}
    for r in rs:
        for a, b in (("this.", "$0."), ("$0.", "this.")):
            if a + "Value.getPointer()" in r and "elem(" not in r and \
                    r.replace(a, b) not in rs:
                return "%s can be returned but %s cannot" % (
                    r, r.replace(a, b))
    return None


def glca(ctx):
    D = PR + "IDEGeneralizedLCA/"
    F = ctx.facts(*(D + f + ".cpp" for f in (
        "BinaryEdgeFunction", "TypecastEdgeFunction",
        "LCAEdgeFunctionComposer", "EdgeValue", "IDEGeneralizedLCA")))
    N = "psr::glca::"
    for c in ("BinaryEdgeFunction", "TypecastEdgeFunction"):
        compose_tab(ctx, F, N + c + "::compose", "LCAEdgeFunctionComposer|"
                    "EdgeFunctionComposer")
    for c in ("BinaryEdgeFunction", "TypecastEdgeFunction",
              "LCAEdgeFunctionComposer"):
        tab(ctx, F, "client-join", N + c + "::join", {"dn": DJN}, lambda A:
            DJ if not A["dn"] else [BOT, CREATE], 1)
    PB = r"(?:glca::)?performBinOp\(this\.Op, %s, %s, .*\)"
    tab(ctx, F, "glca-value", N + "BinaryEdgeFunction::computeTarget", {
        "L": Pat(r"this\.LeftConst")}, lambda A: Pat(
            PB % ((r"this\.Const", r"\$0") if A["L"] else
                  (r"\$0", r"this\.Const"))), 2, stop=["performBinOp"])
    tab(ctx, F, "glca-value", N + "TypecastEdgeFunction::computeTarget", {},
        lambda A: Pat(r"(?:glca::)?performTypecast\(\$0, this\.Dest, "
                      r"this\.Bits\)"), 1, stop=["performTypecast"])
    for fn in F.find(N + "BinaryEdgeFunction::operator=="):
        decide(ctx, "client-equal", fn, ctx.summary(F, fn, stop=["operator=="]),
               {x: eq("$0.%s" % x, "this.%s" % x)
                for x in ("Op", "Const", "LeftConst")},
               lambda A: all(A.values()))
    for fn in F.find(N + "operator=="):
        if "Typecast" in fn.decl.pt[0]:
            decide(ctx, "client-equal", fn, ctx.summary(F, fn), {
                x: eq("$0.%s" % x, "$1.%s" % x) for x in ("Bits", "Dest")},
                lambda A: all(A.values()))
    # the bounded power-set lattice; its greatest set is {Top}
    BV = Pat(r"EdgeValueSet\{\{(?:EdgeValue\{null\}|@glca::EdgeValue::TopValue"
             r"|EdgeValue\{@glca::EdgeValue::TopValue\})\}\}")
    EMPTY = Pat(r"EdgeValueSet\{(?:initializer_list\{\}|\{\})?\}")
    for fn in F.find(N + "join"):
        ps = ctx.summary(F, fn, stop=["isTopValue"])
        cp = Pat(r"EdgeValueSet\{\$([01])(?:\.begin\(\), \$\1\.end\(\))?\}"
                 r"|\$[01]")
        for p in ps:
            L = lits(p.pc)
            r = t2s(p.ret)
            bot = any(re.fullmatch(r"(?:glca::)?isTopValue\(\$[01]\)", x)
                      for x in L)
            over = any(re.fullmatch(r"\(\$2 < .*\.size\(\)\)|!\(.*\.size\(\) "
                                    r"<= \$2\)", x) for x in L)
            if BV.ok(r):
                ctx.ob("glca-lattice", bot or over, where(fn), "gives up with "
                       "bottom although neither operand is bottom and the "
                       "bound is not exceeded: %s" % sorted(L))
            else:
                ctx.ob("glca-lattice", not bot and (
                    cp.ok(r) or r.startswith("~")), where(fn),
                    "returns %s when %s" % (r, sorted(L)))
                ctx.ob("glca-lattice", all(any(re.fullmatch(
                    r"!(?:glca::)?isTopValue\(\$%d\)" % i, x) for x in L)
                    for i in (0, 1)), where(fn), "joins element-wise without "
                    "having excluded bottom: %s" % sorted(L))
                ctx.ob("glca-lattice-union", united(p, r), where(fn),
                       "the result is not the union of both operands")
    ctx.atleast("glca-lattice", 5)
    tab(ctx, F, "glca-bottom", N + "isTopValue", {
        "one": Pat(r"\(\$0\.size\(\) == 1\)|\(1 == \$0\.size\(\)\)"),
        "top": Pat(r"\(\*?\$0\.begin\(\)\.VariantType == \S*::Top\)")},
        lambda A: A["one"] and A["top"], 4)
    I = "psr::IDEGeneralizedLCA::"
    tab(ctx, F, "glca-extremes", I + "topElement", {}, lambda A: EMPTY)
    tab(ctx, F, "glca-extremes", I + "bottomElement", {}, lambda A: BV)
    tab(ctx, F, "glca-extremes", I + "join", {}, lambda A: Pat(
        r"(?:glca::)?join\((?:\$0, \$1|\$1, \$0), .*\)"), stop=["join"])
    for fn in F.find("psr::JoinLatticeTraits::top") + \
            F.find("psr::JoinLatticeTraits::bottom") + \
            F.find("psr::JoinLatticeTraits::join"):
        if "EdgeValueSet" in fn.decl.clsT:
            nm = last(fn.qn)
            decide(ctx, "glca-extremes", fn, ctx.summary(
                F, fn, stop=["glca::join"]), {}, lambda A:
                EMPTY if nm == "top" else BV if nm == "bottom" else Pat(
                    r"(?:glca::)?join\((?:\$0, \$1|\$1, \$0), .*\)"),
                pure=False)
    ctx.atleast("glca-extremes", 6)


def united(p, r):
    """on this path, a container that starts with one operand receives every
    element of the other"""
    src = {i for i in "01" if "$" + i in r}
    for it in items([p]):
        e = it.ev
        if e.kind == "call" and e.obj is not None and last(e.name) == "insert":
            a = [t2s(x) for x in e.args]
            for i in "01":
                if a == ["elem($%s)" % i] and it.loops and \
                        covers(it.loops[-1], "$" + i):
                    src.add(i)
                if a == ["$%s.begin()" % i, "$%s.end()" % i]:
                    src.add(i)
    return src == {"0", "1"}
