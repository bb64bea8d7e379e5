"""P04: the flow/edge-function cache is transparent."""
from spec import *
from facts import FL_CONST, FL_INREPO

EXPLAIN = ("For each of the cached factories the term returned on every "
           "abstract path is either the problem's own factory applied to the "
           "unpermuted arguments or the content of a cache slot whose key is "
           "injective in every argument; each store puts exactly the freshly "
           "built function under exactly the key that is looked up.")
C = "psr::FlowEdgeFunctionCache"
FLOW = ["getNormalFlowFunction", "getCallFlowFunction", "getRetFlowFunction",
        "getCallToRetFlowFunction", "getSummaryFlowFunction"]
EDGE = ["getNormalEdgeFunction", "getCallEdgeFunction",
        "getReturnEdgeFunction", "getCallToRetEdgeFunction",
        "getSummaryEdgeFunction"]


def params_in(t):
    """parameters a key term is injective in (each mentioned once)"""
    out = []

    def go(x):
        if not isinstance(x, tuple):
            return
        s = t2s(x) if x and isinstance(x[0], str) else ""
        if re.fullmatch(r"\$\d+", s):
            out.append(s)
            return
        for y in x:
            if isinstance(y, tuple):
                go(y)
    go(t)
    return out


def is_problem(t, g, n):
    return t[0] == "call" and last(t[1]) == g and t[2] is not None and \
        t2s(t[2]).startswith("this.") and \
        [t2s(a) for a in t[3]] == ["$%d" % i for i in range(n)]


def build(t, g, n):
    """'plain' / 'zeroed' / None"""
    if t is None:
        return None
    if is_problem(t, g, n):
        return "plain"
    if t[0] in ("call", "ctor", "new"):
        a = t[3] if t[0] == "call" else t[2]
        if isinstance(a, tuple) and len(a) == 2 and \
                isinstance(a[0], tuple) and is_problem(a[0], g, n) and \
                re.fullmatch(r"this\.\w+|this\.\w+\.getZeroValue\(\)",
                             t2s(a[1])):
            return "zeroed"
    return None


def keyterms(t):
    """every key by which a cache slot is selected inside t"""
    for x in subterms(t):
        if x[0] in ("idx", "has") and isinstance(x[2], tuple):
            yield x[2]


def norm_key(t):
    # tuple{tuple{..}} and pair conversions are the same key
    while t[0] == "ctor" and short_t(t[1]) in ("tuple", "pair") and \
            len(t[2]) == 1:
        t = t[2][0]
    return t2s(t)


def run(ctx):
    F = ctx.facts("ide_solver.cpp")
    owner = {}
    for g in FLOW + EDGE:
        for fn in F.find(C + "::" + g):
            one(ctx, F, fn, g, owner)
    for (m, f), gs in sorted(owner.items()):
        ctx.ob("cache-disjoint", len(gs) == 1, "include/phasar/DataFlow/"
               "IfdsIde/Solver/FlowEdgeFunctionCache.h",
               "slot %s%s is shared by %s" % (m, f, sorted(gs)), m + f)
    # key packing
    for nm in ("createEdgeFunctionInstKey", "createEdgeFunctionNodeKey"):
        for fn in F.find(C + "::" + nm, need=False):
            ps = ctx.summary(F, fn)
            for p in ps:
                r = p.ret
                ok = r is not None and packed(r)
                ctx.ob("key-injective", ok, where(fn),
                       "the key %s does not keep both parts apart" % t2s(r),
                       fn.qn)
            ctx.ob("key-injective", fn.decl.rt in (
                "unsigned long", "uint64_t", "unsigned long long") or
                "pair" in fn.decl.rt or "EdgeFunc" in fn.decl.rt, where(fn),
                "key type is %s" % fn.decl.rt, fn.qn + "/type")
    for fn in F.find("psr::LLVMMapKeyCompressor::getCompressedID"):
        ps = ctx.summary(F, fn)
        hasx = Pat(r"this\.\w+ has \$0")
        for p in ps:
            L = lits(p.pc)
            new = any(hasx.ok(x[1:]) for x in L if x[0] == "!")
            r = t2s(p.ret)
            ctx.ob("key-compress", re.fullmatch(
                r"(entry\((this\.\w+), \$0\)|this\.\w+\[\$0\]|.*\.first)"
                r"(\.getSecond\(\)|\.second)?|\(this\.\w+\.size\(\) \+ 1\)",
                r) is not None, where(fn), "returns %s" % r, fn.qn)
            for it in effects(p):
                e = it.ev
                a = added(e)
                v = a[1] if a and len(a) == 2 else (
                    e.args[0] if e.kind == "write" else None)
                k = a[0] if a else (e.obj[2] if e.kind == "write" and
                                    e.obj[0] == "idx" else None)
                ctx.ob("key-compress", new and v is not None and
                       k is not None and t2s(k) == "$0" and re.fullmatch(
                           r"\(this\.\w+\.size\(\) \+ 1\)|this\.\w+\.size\(\)"
                           r"|this\.\w+\+\+|\(this\.\w+ \+ 1\)", t2s(v))
                       is not None, e.where(),
                       "an id is assigned that is not fresh: %s" % e.s(),
                       fn.qn)
    for fn in F.find("psr::ZeroedFlowFunction::computeTargets"):
        ps = ctx.summary(F, fn)
        base = Pat(r"this\.\w+\.computeTargets\(\$0\)")

        def eff(A, its):
            e = [it.ev for it in its if (it.ev.kind == "write" or
                 it.ev.kind == "call" and not it.ev.pure) and
                 not base.ok(it.ev.term or ("x",))]
            ins = [x for x in e if added(x) is not None and
                   t2s(added(x)[0]) in ("$0",) or added(x) is not None and
                   re.fullmatch(r"this\.\w+", t2s(added(x)[0]))]
            if A["zero"] and not ins:
                return "zero is not generated from zero"
            if len(e) != len(ins) or (ins and not A["zero"]):
                return "has the effect %s" % e[0].s()
        decide(ctx, "auto-zero", fn, ps, {
            "zero": [r"(this.%s == $0)" % m for m in ("ZeroValue", "ZV")] +
            [Pat(r"\(this\.\w+ == \$0\)|\(\$0 == this\.\w+\)")]},
            lambda A: base, eff=eff)
    for nm in ("find",):
        for fn in F.find("psr::EquivalenceClassMap::" + nm):
            ps = ctx.summary(F, fn)
            for p in ps:
                r = t2s(p.ret)
                ctx.ob("class-map", "$0" in r or r.startswith("end("),
                       where(fn), "find returns %s" % r, fn.qn)
    for fn in F.find("psr::EquivalenceClassMap::insert",
                     pred=lambda f: len(f.ps) == 2 and
                     f.ps[0][2] != f.ps[1][2]):
        ps = ctx.summary(F, fn)
        SD = Pat(r"this\.\w+")
        el = pat("elem({s})", s=SD)
        eq = pat("({e}.second == $1)", e=el) | pat("($1 == {e}.second)", e=el)
        fi = pat("findif({s}, {q})", s=SD, q=eq)
        for p in ps:
            for it in effects(p):
                e = it.ev
                a = added(e)
                if a is None:
                    continue
                L = lits(it.pc)
                o = t2s(e.obj)
                if pat("{e}.first", e=el | fi).ok(o):
                    ok = (any(eq.ok(x) for x in L) or
                          pat("{f}.first", f=fi).ok(o)) and \
                        t2s(a[0]) == "$0"
                else:
                    ok = len(a) == 2 and t2s(a[1]) == "$1" and \
                        params_in(a[0]) == ["$0"]
                ctx.ob("class-map", ok, e.where(), "insert has the effect "
                       "%s on the path %s" % (e.s(), sorted(L)), fn.qn)
    for r, n in (("cache-value", 40), ("cache-key", 20), ("cache-store", 18),
                 ("cache-disjoint", 8), ("key-injective", 4),
                 ("auto-zero", 4)):
        ctx.atleast(r, n)


def packed(r):
    """(a | b << 32) with one parameter each, or pair(a, b)"""
    s = t2s(r)
    if r[0] == "ctor" or r[0] == "il":
        a = r[2]
        return len(a) == 2 and [params_in(x) for x in a] in (
            [["$0"], ["$1"]], [["$1"], ["$0"]])
    if r[0] == "op" and r[1] in ("|", "+", "^"):
        a, b = r[2], r[3]
        for x, y in ((a, b), (b, a)):
            if y[0] == "op" and y[1] == "<<" and t2s(y[3]) == "32" and \
                    "<<" not in t2s(x):
                px, py = params_in(x), params_in(y)
                return sorted([tuple(px), tuple(py)]) == [("$0",), ("$1",)]
    return s.startswith("pair") and sorted(params_in(r)) == ["$0", "$1"]


def one(ctx, F, fn, g, owner):
    n = len(fn.ps)
    need = ["$%d" % i for i, p in enumerate(fn.ps) if "ArrayRef" not in p[2]]
    stop = [x for x in ("createEdgeFunctionInstKey",
                        "createEdgeFunctionNodeKey")]
    ps = ctx.summary(F, fn, stop=stop)
    w = where(fn)
    keys = {}
    want = {norm_key(x) for p in ps for k in p.pc for x in keyterms(k)}
    for p in ps:
        if p.exit in ("noreturn", "throw"):
            continue
        L = lits(p.pc)
        b = build(p.ret, g, n)
        flow = g in FLOW
        if b is not None:
            # exactly the configured zero handling
            fl = [(t2s(k), v) for k, v in p.pc.items()
                  if re.fullmatch(r"this\.\w+(\.\w+\(\))*", t2s(k))]
            if g == "getSummaryFlowFunction" or not flow:
                ctx.ob("cache-value", b == "plain", w, "%s returns %s" %
                       (g, t2s(p.ret)[:200]), g)
            else:
                ctx.ob("cache-value", len(fl) == 1 and
                       fl[0][1] == (b == "zeroed") and
                       "zero" in fl[0][0].lower(), w,
                       "%s is %s when %s" % (g, b, fl), g)
                if b == "zeroed":
                    ty = [F.decls[it.ev.fid].rt for it in items([p])
                          if it.ev.fid and it.ev.fid in F.decls and
                          it.ev.term == p.ret]
                    ctx.ob("cache-zeroed", all("ZeroedFlowFunction" in t
                                               for t in ty), w,
                           "the wrapper is %s" % ty, g)
        else:
            r = p.ret
            ks = {norm_key(k) for k in keyterms(r)} if r else set()
            allp = []
            for k in {norm_key(k): k for k in keyterms(r)}.values():
                allp += params_in(k)
            txt = t2s(r)
            ctx.ob("cache-key", sorted(set(allp)) == sorted(need) and
                   len(allp) == len(need), w,
                   "%s returns %s, whose key covers %s instead of every "
                   "argument %s once" % (g, txt[:160], sorted(allp), need), g)
            ctx.ob("cache-value", txt.startswith("this.") or
                   txt.startswith("findif(this."), w, "%s returns %s, which "
                   "is neither freshly built nor cached" % (g, txt[:160]), g)
            hit = [x for x in L if not x.startswith("!") and " has " in x or
                   x.startswith("!(end(")]
            ctx.ob("cache-hit", bool(hit), w, "%s reads the cache on a path "
                   "where no entry was found: %s" % (g, sorted(L)[:3]), g)
            if flow and ".FlowFuncPtr" in txt:
                ctx.ob("cache-hit", any("== null)" in x and x[0] == "!"
                                        for x in L) or any(
                    x == "truthy(%s)" % txt for x in L), w,
                    "%s may return a flow function that was never built" % g,
                    g + "/null")
            m = re.match(r"(?:findif\()?(this\.\w+)", txt)
            fld = ".ef" if not flow else ".ff"
            if m:
                owner.setdefault((m.group(1), fld), set()).add(g)
                keys[frozenset(ks)] = 1
        for it in effects(p):
            e = it.ev
            if e.kind == "call" and added(e) is None:
                continue
            o = t2s(e.obj)
            if not o.startswith("this."):
                continue
            # everything stored is freshly built under the complete key
            a = added(e) if e.kind == "call" else e.args
            parts = list(a)
            built = [x for y in parts for x in subterms(y)
                     if build(x, g, n)]
            ctx.ob("cache-store", bool(built), e.where(), "%s stores %s, "
                   "which is not the function just built" % (g, e.s()[:200]),
                   g)
            if b is not None and built:
                best = max(built, key=lambda x: len(t2s(x)))
                ctx.ob("cache-store", t2s(best) == t2s(p.ret), e.where(),
                       "%s stores %s but returns %s" % (
                           g, t2s(best)[:120], t2s(p.ret)[:120]), g + "/same")
            kt = []
            for x in subterms(e.obj):
                if x[0] == "idx":
                    kt.append(norm_key(x[2]))
            for x in parts:
                kt += key_parts(x, g, n)
            pr = []
            for k in set(kt):
                pr += re.findall(r"\$\d+", k)
            ctx.ob("cache-key", sorted(pr) == sorted(need), e.where(),
                   "%s stores under a key over %s instead of every argument "
                   "%s once" % (g, sorted(pr), need), g + "/store")
            ctx.ob("cache-key", all(k in want or re.fullmatch(
                r"\$\d+", k) for k in kt), e.where(),
                "%s stores under %s but looks up %s" % (
                    g, sorted(set(kt))[:2], sorted(want)[:2]), g + "/agree")
            m = re.match(r"(this\.\w+)", o)
            owner.setdefault((m.group(1), ".ef" if not flow else ".ff"),
                             set()).add(g)


def key_parts(x, g, n):
    """key components of an inserted entry: everything but the function"""
    if build(x, g, n):
        return []
    if x[0] == "ctor" and short_t(x[1]) in ("tuple",) or \
            x[0] == "call" and "Key" in last(x[1]):
        return [norm_key(x)]
    out = []
    if x[0] in ("ctor", "il"):
        for y in x[2]:
            if isinstance(y, tuple):
                out += key_parts(y, g, n)
    elif re.fullmatch(r"\$\d+", t2s(x)):
        out.append(t2s(x))
    return out
