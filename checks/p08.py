"""P08: equality, hashing and ordering of the value types agree."""
from spec import *

EXPLAIN = ("For every hashed value type the projections its hash reads are "
           "shown to be determined by its equality (congruence closure over "
           "the literals of each equal path); equality is reflexive, symmetric "
           "and compares every field; orders are checked against decision "
           "tables of strict weak orders.")
LIB = "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/"


def kids(t):
    for x in t[1:] if isinstance(t, tuple) else ():
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield y


def side(t, member):
    """text of a term with the two operands named A and B"""
    s = t2s(t) if not isinstance(t, str) else t
    if member:
        s = re.sub(r"\$0\b", "§B", s)
        s = re.sub(r"\bthis\b", "§A", s)
    else:
        s = re.sub(r"\$1\b", "§B", s)
        s = re.sub(r"\$0\b", "§A", s)
    return s


def flip(s):
    return s.replace("§A", "§X").replace("§B", "§A").replace("§X", "§B")


def eqs(t, out, member):
    """decompose an equality term into pairs of texts"""
    if t[0] == "op" and t[1] == "==":
        a, b = t[2], t[3]
        out.add((side(a, member), side(b, member)))
        if a[0] == b[0] == "ctor" and "tuple" in str(a[1]):
            for x, y in zip(a[2], b[2]):
                out.add((side(x, member), side(y, member)))
    elif t[0] in ("conj",):
        for x in t[1:]:
            eqs(x, out, member)
    elif t[0] == "op" and t[1] in ("&", "&&"):
        eqs(t[2], out, member)
        eqs(t[3], out, member)


def truecases(ps, member):
    """[(equalities, {atom: value})] under which the operator returns true"""
    out = []
    for p in live(ps):
        if p.ret == FALSE:
            continue
        E, L = set(), {}
        for k, v in p.pc.items():
            L[side(k, member)] = v
            if v:
                eqs(k, E, member)
        if p.ret != TRUE and p.ret is not None:
            eqs(p.ret, E, member)
            L[side(p.ret, member)] = True
        for l in list(L):
            m = re.fullmatch(r"each\((.*)\)", l)
            if m and L[l]:
                L[m[1]] = True
        out.append((E, L))
    return out


def live(ps):
    return [p for p in ps if p.exit not in ("noreturn", "throw")]


class Det:
    def __init__(self, E, L, member, whole=(), alias=()):
        self.E = E | {(b, a) for a, b in E}
        self.L = L
        self.m = member
        self.whole = whole
        self.alias = alias

    def text(self, s):
        """is the value of this projection the same for both operands?"""
        if "§A" not in s:
            return True
        f = flip(s)
        if (s, f) in self.E or ("*" + s, "*" + f) in self.E:
            return True
        a, b = self.L.get(s), self.L.get(f)
        if a is not None and a == b:
            return True
        m = re.fullmatch(r"(?:isa<[^>]*>|valid)\((.*)\)", s)
        if m and any(((x % m[1]), flip(x % m[1])) in self.E
                     for x in ("%s.index()", "%s", "%s.which()")):
            return True
        m = re.fullmatch(r"\*?as<(.*?)>\((.*)\)", s)
        if m and (m[2], flip(m[2])) in self.E:
            return True
        for w in self.whole:
            if (w, flip(w)) in self.E and "§A" in s:
                return True
        for rx, need in self.alias:
            m = re.fullmatch(rx, s)
            if m:
                for x, y in self.E:
                    if re.fullmatch(need, x) and re.fullmatch(need, flip(y)):
                        return True
        return False

    def term(self, t, member):
        s = side(t, member)
        if self.text(s):
            return True
        k = list(kids(t))
        if t[0] in ("this", "param") or not k:
            return False
        return all(self.term(x, member) for x in k)


def leaves(t, d, member):
    """the undetermined projections in a term"""
    s = side(t, member)
    if d.term(t, member):
        return []
    k = [x for x in kids(t) if not d.term(x, member)]
    if not k or t[0] in ("fld",) or all(x[0] in ("param", "this") for x in k):
        return [s]
    return [y for x in k for y in leaves(x, d, member)]


def hash_subset(ctx, hfn, hps, efn, eps, hmember=False, emember=None, whole=(),
                alias=(), what=""):
    if emember is None:
        emember = efn.decl.clsT != "" and len(efn.decl.pt) == 1
    cases = truecases(eps, emember)
    ctx.ob("hash-eq", len(cases) > 0, where(efn), "%s: never equal" % what)
    n = 0
    for E, L in cases:
        d = Det(E, L, emember, whole, alias)
        for p in live(hps):
            # the same hash path must be taken by both
            hL = {side(k, hmember): v for k, v in p.pc.items()}
            if any(L.get(k, v) != v for k, v in hL.items()):
                continue
            txt = " ".join(hL) + side(p.ret, hmember)
            if any(L.get("isa<%s>(%s)" % m) is False for m in
                   re.findall(r"as<(\w+)>\((§A[\w.]*)\)", txt)):
                continue
            n += 1
            und = []
            for k in p.pc:
                und += leaves(k, d, hmember)
            und += leaves(p.ret, d, hmember)
            ctx.ob("hash-eq", not und, where(hfn), "%s: the hash depends on "
                   "%s, which equal values need not share" % (
                       what, ", ".join(sorted(set(und)))[:200].replace(
                           "§A", "x")))
    ctx.ob("hash-eq", n > 0, where(hfn), "%s: no hash for equal values" % what)


def equivalence(ctx, fn, ps, member=None, what=""):
    """reflexive and symmetric"""
    if member is None:
        member = efn_member(fn)
    what = what or fn.qn
    for p in live(ps):
        ok = True
        for k, v in p.pc.items():
            if refl(k, member) not in (None, v):
                ok = False
        if ok and p.ret is not None:
            r = refl(p.ret, member)
            ctx.ob("reflexive", r is not False, where(fn),
                   "%s: a value may differ from itself" % what)
    T = truecases(ps, member)
    keys = {frozenset(("".join(sorted((a, b))) if (a, b) else "")
                      for a, b in E) for E, L in T}
    for E, L in T:
        other = {"".join(sorted((flip(a), flip(b)))) for a, b in E}
        ctx.ob("symmetric", frozenset(other) in keys, where(fn), "%s: x == y "
               "and y == x compare different things" % what)


def refl(t, member):
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    if t[0] == "op" and t[1] in ("==", "<", "!="):
        a, b = side(t[2], member), side(t[3], member)
        if a.replace("§B", "§A") == b.replace("§B", "§A"):
            return t[1] == "=="
    if t[0] in ("not",):
        v = refl(t[1], member)
        return None if v is None else not v
    return None


def efn_member(fn):
    return bool(fn.decl.clsT) and len(fn.decl.pt) == 1


def allfields(ctx, F, rec, fn, ps, exempt=(), member=None, what=""):
    """every field decides equality"""
    if member is None:
        member = efn_member(fn)
    r = F.recs.get(rec)
    if not r:
        raise CheckError("record %s is gone" % rec)
    fl = [f["n"] if isinstance(f, dict) else f[0] for f in r[0]["fields"]]
    for E, L in truecases(ps, member):
        txt = " ".join(a + " " + b for a, b in E) + " ".join(L)
        for f in fl:
            if f in exempt:
                continue
            ctx.ob("compares-all", re.search(r"§A\.%s\b" % f, txt) and
                   re.search(r"§B\.%s\b" % f, txt), where(fn), "%s: values "
                   "that differ in %s compare equal" % (what or rec, f))
    ctx.atleast("compares-all", 1)


def one(F, qn, pt, n=1, cls=None):
    c = [f for f in F.find(qn, need=False) if any(
        re.search(pt, x) for x in f.decl.pt + [f.decl.clsT])]
    if cls:
        c = [f for f in c if re.search(cls, f.decl.clsT)]
    if not c:
        raise CheckError("no %s for %s" % (qn, pt))
    return c[0]


def S_(ctx, F, fn, **kw):
    return ctx.summary(F, fn, **kw)


def run(ctx):
    F = ctx.facts("eq.cpp")
    boxed(ctx, F)
    simple(ctx, F)
    lattice(ctx, F)
    bitvec(ctx, F)
    edgefn(ctx, F)
    aml(ctx, F)
    values(ctx)
    dot(ctx)
    ctx.atleast("hash-eq", 30)
    ctx.atleast("order", 30)


def ordered(ctx, fn, ps, proj, member=None, what="", swapped=False):
    """a < b compares the same projection of both, in this order"""
    if member is None:
        member = efn_member(fn)
    for p in live(ps):
        ok = p.ret is not None and p.ret[0] == "op" and p.ret[1] == "<" and \
            not p.pc
        a = b = "?"
        if ok:
            a, b = side(p.ret[2], member), side(p.ret[3], member)
            if swapped:
                a, b = b, a
            # a consistent order may compare either way round
            ok = flip(a) == b and a != b and (
                re.fullmatch(proj, a.replace("§B", "§A")) is not None)
        ctx.ob("order", ok, where(fn), "%s is not an order over %s: %s < %s" %
               (what or fn.qn, proj, a, b))


def boxed(ctx, F):
    for B in ("BoxedPtr", "BoxedConstPtr"):
        rx = r"psr::%s<int>" % B
        e = one(F, "psr::operator==", rx)
        eps = S_(ctx, F, e)
        equivalence(ctx, e, eps, what=B)
        h = one(F, "psr::hash_value", rx)
        hash_subset(ctx, h, S_(ctx, F, h), e, eps, what=B)
        for q in ("std::hash::operator()", "llvm::DenseMapInfo::getHashValue"):
            h = one(F, q, rx)
            hash_subset(ctx, h, S_(ctx, F, h), e, eps, what=B)
        for p in live(eps):
            ctx.ob("handle", t2s(p.ret) == "($0.Value == $1.Value)" or
                   p.ret in (TRUE, FALSE), where(e), "%s equality is %s" % (
                       B, t2s(p.ret)))
        f = one(F, "psr::operator<", rx)
        ordered(ctx, f, S_(ctx, F, f), r"§A\.(?:Value|value\(\))", what=B)
        rel_ops(ctx, F, rx, B)
        f = one(F, "llvm::DenseMapInfo::isEqual", rx)
        for p in live(S_(ctx, F, f, stop=["operator=="])):
            ctx.ob("handle", t2s(p.ret) in ("($0 == $1)",
                                            "($0.Value == $1.Value)"),
                   where(f), "isEqual is %s" % t2s(p.ret))
        k = [one(F, "llvm::DenseMapInfo::" + n, "", cls=rx) for n in (
            "getEmptyKey", "getTombstoneKey")]
        v = [{t2s(p.ret) for p in live(S_(ctx, F, x))} for x in k]
        ctx.ob("handle", not (v[0] & v[1]), where(k[0]),
               "%s: empty and tombstone key coincide: %s" % (B, v[0]))


def rel_ops(ctx, F, rx, B):
    want = {"operator>": ["($1.Value < $0.Value)", "($1 < $0)"],
            "operator<=": ["!($1.Value < $0.Value)", "!($1 < $0)"],
            "operator>=": ["!($0.Value < $1.Value)", "!($0 < $1)"],
            "operator!=": ["!($0.Value == $1.Value)", "!($0 == $1)"]}
    for o, w in want.items():
        c = [f for f in F.find("psr::" + o, need=False) if
             any(re.search(rx, x) for x in f.decl.pt)]
        for f in c:
            for m, exp in (("lt", {"operator>": False, "operator<=": True,
                                   "operator>=": False, "operator!=": True}),
                           ("eq", {"operator>": False, "operator<=": True,
                                   "operator>=": True, "operator!=": False}),
                           ("gt", {"operator>": True, "operator<=": False,
                                   "operator>=": True, "operator!=": True})):
                v = r"(?:\.Value|\.value\(\))?"
                model(ctx, "order", f, S_(ctx, F, f), [{"case": m}], [
                    (r"\(\$0%s < \$1%s\)" % (v, v),
                     lambda M, g: M["case"] == "lt"),
                    (r"\(\$1%s < \$0%s\)" % (v, v),
                     lambda M, g: M["case"] == "gt"),
                    (r"\(\$(\d)%s == \$(\d)%s\)" % (v, v), lambda M, g:
                     M["case"] == "eq" if g[1] != g[2] else None)],
                    lambda M: exp[o], what="%s %s" % (B, o))


def simple(ctx, F):
    # graph nodes
    e = one(F, "psr::operator==", r"NodeRef")
    eps = S_(ctx, F, e)
    equivalence(ctx, e, eps, what="NodeRef")
    allfields(ctx, F, "psr::ExplodedSuperGraph::NodeRef", e, eps)
    h = one(F, "psr::hash_value", r"NodeRef")
    hash_subset(ctx, h, S_(ctx, F, h), e, eps, what="NodeRef")
    # table cells
    e = one(F, "psr::operator==", r"::Cell")
    eps = S_(ctx, F, e)
    equivalence(ctx, e, eps, what="Cell")
    allfields(ctx, F, "psr::Table::Cell", e, eps)
    f = one(F, "psr::operator<", r"::Cell")
    lexi(ctx, f, S_(ctx, F, f), ["Row", "Column", "Value"], "Cell")
    # call strings
    e = one(F, "psr::operator==", r"CallStringCTX")
    eps = S_(ctx, F, e)
    equivalence(ctx, e, eps, what="CallStringCTX")
    allfields(ctx, F, "psr::CallStringCTX", e, eps)
    h = one(F, "std::hash::operator()", r"CallStringCTX")
    hash_subset(ctx, h, S_(ctx, F, h), e, eps, what="CallStringCTX")
    f = one(F, "psr::operator<", r"CallStringCTX")
    ordered(ctx, f, S_(ctx, F, f), r"§A\.\w+", what="CallStringCTX")
    # constant-propagation fact: equal facts have the same value and constant
    h = one(F, "std::hash::operator()", r"IntraMonoFCAFact")
    bad = set()
    for p in live(S_(ctx, F, h)):
        for t in list(p.pc) + [p.ret]:
            bad |= set(re.findall(r"\$0(?:\.(?!Fact\b|Value\b)\w+|\b(?![.]))",
                                  t2s(t))) - {"$0"}
    ctx.ob("hash-eq", not bad, where(h), "IntraMonoFCAFact hash reads %s" % bad)


def lexi(ctx, fn, ps, fields, what):
    """lexicographic strict order over the fields, by model checking over
    every pattern of less/equal/greater"""
    models = product(**{f: ("lt", "eq", "gt") for f in fields})

    def want(m):
        for f in fields:
            if m[f] != "eq":
                return m[f] == "lt"
        return False

    def cmp(op, flipd):
        def g(m, x):
            f = x[1]
            if f not in m:
                return None
            v = m[f]
            if flipd:
                v = {"lt": "gt", "gt": "lt"}.get(v, v)
            return v == "lt" if op == "<" else v == "eq"
        return g

    def tup(flipd):
        def g(m, x):
            a = re.findall(r"(?:\$\d|this)\.(\w+)", x[1])
            b = re.findall(r"(?:\$\d|this)\.(\w+)", x[2])
            if a != b:
                return None
            for f in a:
                v = m.get(f, "eq")
                if flipd:
                    v = {"lt": "gt", "gt": "lt"}.get(v, v)
                if v != "eq":
                    return v == "lt"
            return False
        return g
    member = efn_member(fn)
    A, B = (r"this", r"\$0") if member else (r"\$0", r"\$1")
    model(ctx, "order", fn, ps, models, [
        (r"\(%s\.(\w+) < %s\.\1\)" % (A, B), cmp("<", False)),
        (r"\(%s\.(\w+) < %s\.\1\)" % (B, A), cmp("<", True)),
        (r"\((?:%s|%s)\.(\w+) == (?:%s|%s)\.\1\)" % (A, B, A, B),
         cmp("==", False)),
        (r"\(tuple\{(%s[^}]*)\} < tuple\{(%s[^}]*)\}\)" % (A, B), tup(False)),
        (r"\(tuple\{(%s[^}]*)\} < tuple\{(%s[^}]*)\}\)" % (B, A), tup(True)),
    ], want, what=what + " <")


def lattice(ctx, F):
    for T, short in (("long", "long"), ("verif_inst::Hv", "Hv")):
        c = [f for f in F.find("psr::operator==") if f.decl.pt and all(
            x.startswith("const psr::LatticeDomain<%s>" % T)
            for x in f.decl.pt)]
        if not c:
            raise CheckError("LatticeDomain == is gone")
        e = c[0]
        eps = S_(ctx, F, e)
        equivalence(ctx, e, eps, what="LatticeDomain")
        vals = ["Top", "Bottom", 1, 2]
        models = product(a=vals, b=vals)
        atoms = lat_atoms(short)
        model(ctx, "lattice", e, eps, models, atoms,
              lambda m: m["a"] == m["b"], what="LatticeDomain ==")
    h = one(F, "psr::hash_value", r"LatticeDomain<verif_inst::Hv>")
    hps = S_(ctx, F, h)
    hash_subset(ctx, h, hps, e, eps, what="LatticeDomain")
    f = one(F, "psr::operator<", r"LatticeDomain<long>")
    rank = {"Top": -1, "Bottom": 9}
    model(ctx, "order", f, S_(ctx, F, f), models, lat_atoms("long"),
          lambda m: rank.get(m["a"], m["a"]) < rank.get(m["b"], m["b"]),
          what="LatticeDomain <")
    for f in F.find("psr::operator=="):
        pt = f.decl.pt
        if len(pt) != 2 or "LatticeDomain<long>" not in "".join(pt):
            continue
        o = [x for x in pt if "LatticeDomain" not in x]
        if not o:
            continue
        i = pt.index(o[0])
        other = "Top" if "Top" in o[0] else "Bottom" if "Bottom" in o[0] else 1
        at = lat_atoms("long") + [
            (r"\(\*as<long>\(\$%d\) == \$%d\)|\(\$%d == \*as<long>\(\$%d\)\)" %
             (1 - i, i, i, 1 - i), lambda m, g: m["a"] == other),
            (r"\(\$0 == \$1\)", lambda m, g: m["a"] == other)]
        if i == 0:
            at = lat_atoms("long", {"1": "a"}) + at[-2:]
        model(ctx, "lattice", f, S_(ctx, F, f), product(a=vals), at,
              lambda m: m["a"] == other, what="LatticeDomain == %s" % o[0])


def lat_atoms(T, arg={"0": "a", "1": "b"}):
    kind = lambda v: "val" if isinstance(v, int) else v
    tn = {"Top": "Top", "Bottom": "Bottom", T: "val"}
    return [
        (r"\(\$([01])\.index\(\) == \$([01])\.index\(\)\)",
         lambda m, g: kind(m["a"]) == kind(m["b"]) if "b" in m else None),
        (r"isa<(\w+)>\(\$([01])\)",
         lambda m, g: kind(m[arg[g[2]]]) == tn.get(g[1])
         if arg.get(g[2]) in m else None),
        (r"\(\$([01])\.index\(\) == (\d)\)", lambda m, g:
         ["Top", "val", "Bottom"][int(g[2])] == kind(m[arg[g[1]]])),
        (r"\(\*?as<%s>\(\$([01])\) == \*?as<%s>\(\$([01])\)\)" % (T, T),
         lambda m, g: m["a"] == m["b"] if "b" in m else None),
        (r"\(\*?as<%s>\(\$([01])\) < \*?as<%s>\(\$([01])\)\)" % (T, T),
         lambda m, g: m[arg[g[1]]] < m[arg[g[2]]]
         if isinstance(m["a"], int) and isinstance(m["b"], int) else None),
    ]


def bitvec(ctx, F):
    h = one(F, "psr::hash_value", r"BitVectorSet")
    for p in live(S_(ctx, F, h)):
        L = lits(p.pc)
        s = t2s(p.ret)
        D = r"(?:\$0\.Bits\.getData\(\))"
        if not re.search(r"\$0\b", s):
            ctx.ob("hash-bits", "$0.Bits.none()" in L, where(h), "only some "
                   "of the empty sets get this hash: %s" % sorted(L))
            continue
        trim = [x for x in L if re.search(D + r".*== 0\)", x)] or \
            re.search("find_last", s)
        loopv = any(e.kind == "loop" and any(
            re.search(D + r".*== 0\)", t2s(k)) for q in e.loop.paths
            for k in q.pc) for e in p.ev)
        ctx.ob("hash-bits", bool(trim or loopv), where(h), "the hash covers "
               "trailing zero words, which equal sets need not share: %s" % s)
        ctx.ob("hash-bits", not re.search(r"Bits\.(size|capacity|"
                                          r"getMemorySize)\(\)", s), where(h),
               "the hash depends on the capacity: %s" % s)
        m = re.search(r"next\(begin\(%s\), (\S+?)\)" % D, s)
        if m:
            v = m[1]
            ctx.ob("hash-bits", v in L or "!" + v in L or
                   "(%s == 0)" % v in L or "(0 < %s)" % v in L or
                   "!(%s == 0)" % v in L, where(h), "unbounded range")
            ctx.ob("hash-bits", "!%s" % v in L or "(%s == 0)" % v in L or
                   any(re.fullmatch(r"!\(%s\[\(%s - 1\)\] == 0\)" % (
                       D, re.escape(v)), x) for x in L), where(h),
                   "the hashed range does not end at the last nonzero word: "
                   "%s" % sorted(L))
            ctx.ob("hash-bits", re.search(r"begin\(%s\), " % D, s), where(h),
                   "range does not start at the first word")
    e = one(F, "psr::operator==", r"BitVectorSet")
    n = 0
    for p in live(S_(ctx, F, e)):
        L = lits(p.pc)
        s = t2s(p.ret)
        none = ["$0.Bits.none()" in L, "$1.Bits.none()" in L]
        nn = ["!$0.Bits.none()" in L, "!$1.Bits.none()" in L]
        if any(none):
            n += 1
            ok = s in ("($0.Bits.none() == $1.Bits.none())",
                       "($1.Bits.none() == $0.Bits.none())") or (
                s == "false" and any(nn)) or (s == "true" and all(none)) or \
                (none[0] and s == "$1.Bits.none()") or \
                (none[1] and s == "$0.Bits.none()")
            ctx.ob("set-eq", ok, where(e), "an empty set is equal to another "
                   "iff %s" % s)
            continue
        if s == "false":
            continue
        n += 1
        same = [x for x in L if re.fullmatch(
            r"\(\$([01])\.Bits\.getData\(\)(\.slice\(0, .*\)|\.take_front\(.*"
            r"\))? == \$([01])\.Bits\.getData\(\)\2\)", x)] or re.fullmatch(
            r"\(\$([01])\.Bits(?:\.getData\(\))? == \$([01])\.Bits"
            r"(?:\.getData\(\))?\)", s)
        sz = "($0.Bits.getData().size() == $1.Bits.getData().size())"
        sz2 = "($1.Bits.getData().size() == $0.Bits.getData().size())"
        if any(x in L for x in (sz, sz2)):
            ctx.ob("set-eq", re.fullmatch(
                r"\(\$([01])\.Bits(?:\.getData\(\))? == \$([01])\.Bits"
                r"(?:\.getData\(\))?\)", s), where(e),
                "equally long sets are equal iff %s" % s)
            continue
        ctx.ob("set-eq", bool(same), where(e), "the common prefix of two sets "
               "is not compared: %s" % sorted(L))
        lt = [x for x in L if re.fullmatch(
            r"!?\(\$[01]\.Bits\.getData\(\)\.size\(\) < \$[01]\.Bits\."
            r"getData\(\)\.size\(\)\)", x)]
        longer = None
        for x in lt:
            a = re.findall(r"\$([01])", x)
            longer = a[1] if x[0] != "!" else a[0]
        rest = re.search(r"\$([01])\.Bits\.getData\(\)\.(?:slice|drop_front)"
                         r"\(", s)
        ctx.ob("set-eq", rest and longer == rest[1] and "== 0" in s,
               where(e), "the words only the longer set (%s) has must all be "
               "zero: %s" % (longer, s))
    ctx.ob("set-eq", n >= 3, where(e), "equality has no case distinction")
    f = one(F, "psr::operator<", r"BitVectorSet")
    z = {"($0.Bits.size() < $1.Bits.size())": "l",
         "($1.Bits.size() < $0.Bits.size())": "g"}
    for p in live(S_(ctx, F, f)):
        L = lits(p.pc)
        s = t2s(p.ret)
        m = re.fullmatch(r"\$1\.Bits(?:\[(.*)\]|\.test\((.*)\))", s)
        m0 = re.fullmatch(r"!\$0\.Bits(?:\[(.*)\]|\.test\((.*)\))", s)
        big = [k for k, v in z.items() if k in L]
        extra = [x for x in L if re.search(
            r"find_first_in\(\$\d\.Bits\.size\(\), \$\d\.Bits\.size\(\), true"
            r"\) == -1\)", x)]
        if extra and big:
            side_ = re.search(r"\$(\d)\.Bits\.find_first_in\(\$(\d).*?, \$(\d)",
                              extra[0])
            lng = "1" if z[big[0]] == "l" else "0"
            ctx.ob("order-bits", side_ and side_[1] == side_[3] == lng and
                   side_[2] != lng, where(f), "does not look for members "
                   "beyond the shorter set: %s" % extra)
            if extra[0].startswith("!"):
                ctx.ob("order-bits", s == ("true" if lng == "1" else "false"),
                       where(f), "the set with the larger maximum must be "
                       "greater: returns %s when %s" % (s, sorted(L)))
                continue
        elif big:
            ctx.ob("order-bits", False, where(f), "ignores the members of the "
                   "longer set beyond the shorter one: %s" % sorted(L))
        if s == "false":
            continue
        ctx.ob("order-bits", bool(m or m0), where(f), "at the highest "
               "difference the set that has the member must be greater: %s" % s)


def edgefn(ctx, F):
    e = one(F, "psr::operator==", r"const psr::EdgeFunction<long> &")
    eps = S_(ctx, F, e)
    P = r"(?:[§$]\w+)\.VTAndHeapAlloc"
    for q in ("psr::hash_value", "llvm::DenseMapInfo::getHashValue"):
        h = one(F, q, r"const psr::EdgeFunction<long> &")
        for p in live(S_(ctx, F, h)):
            s = t2s(p.ret)
            ctx.ob("hash-eq", s == "0" or re.fullmatch(
                r"\(\$0\.VTAndHeapAlloc\.getPointer\(\)\.getHashCode\)\(\$0\."
                r"EF, \$0\.VTAndHeapAlloc\.getPointer\(\)\)", s), where(h),
                "the hash of an edge function must be the one of its payload: "
                "%s" % s)
    # the payload hashes
    G = ctx.facts("ef_handle.cpp")
    n = 0
    for fn in G.all_fns():
        if fn.qn.endswith("(lambda)::operator()") and fn.decl.pt == [
                "const void *", "const void *"] and re.search(
                r"EdgeFunction\.h", fn.file) and "long" in str(fn.decl.rt):
            ps = live(S_(ctx, G, fn, stop=["getPtr"]))
            n += 1
            for p in ps:
                s = t2s(p.ret)
                dep = re.sub(r"getPtr(<[^()]*>)?\(\$0\)", "PAYLOAD", s)
                ctx.ob("hash-eq", not re.search(r"\$0\b", dep), where(fn),
                       "the hash of a payload depends on its address: %s" % s)
    ctx.ob("hash-eq", n > 0, where(e), "no payload hash was found")
    f = one(F, "psr::operator<", r"const psr::EdgeFunction<", n) if [
        x for x in F.find("psr::operator<", need=False)
        if "EdgeFunction<" in str(x.decl.pt)] else None
    if f:
        for p in live(S_(ctx, F, f, stop=["operator=="])):
            L = lits(p.pc)
            if "($0 == $1)" in L:
                ctx.ob("order", p.ret == FALSE, where(f),
                       "equal edge functions are ordered")
            else:
                ctx.ob("order", "!($0 == $1)" in L and re.fullmatch(
                    r"\(tuple\{(.*)\} < tuple\{(.*)\}\)", t2s(p.ret)),
                    where(f), "edge functions are ordered by %s" % t2s(p.ret))
    # client payloads
    L = ctx.facts(LIB + "IDELinearConstantAnalysis.cpp")
    for rec, ex in (("BinOp", ("CurrNode", "EdgeFunctionID")), ("GenConstant", ()),
                    ("LCAEdgeFunctionComposer", ())):
        h = one(L, "psr::lca::hash_value", r"lca::%s\b" % rec)
        c = [x for x in L.all_fns() if last(x.qn) == "operator==" and (
            x.decl.clsT.endswith("lca::" + rec) or (
                x.decl.pt and all(re.search(
                    r"(lca::%s|EdgeFunctionComposer<.*>|ConstantEdgeFunction"
                    r"<.*>) ?&?$" % rec, y) for y in x.decl.pt) and
                rec != "BinOp"))]
        base = {"GenConstant": "ConstantEdgeFunction",
                "LCAEdgeFunctionComposer": "EdgeFunctionComposer"}.get(rec)
        if base:
            c = [x for x in c if base in str(x.decl.pt)]
        if not c:
            raise CheckError("no equality for %s" % rec)
        e = c[0]
        eps = S_(ctx, L, e)
        equivalence(ctx, e, eps, what=rec)
        hash_subset(ctx, h, S_(ctx, L, h), e, eps, what=rec)
        allfields(ctx, L, "psr::lca::" + rec if not base else "psr::" + base,
                  e, eps, exempt=ex)
    I = ctx.facts("iia.cpp")
    for rec in ("IIAAKillOrReplaceEF", "IIAAAddLabelsEF"):
        es = [x for x in I.all_fns() if x.qn.endswith(rec + "::operator==")]
        hs = [x for x in I.all_fns() if last(x.qn) == "hash_value" and
              rec in str(x.decl.pt)]
        if not es:
            raise CheckError("no equality for " + rec)
        for e in es:
            eps = S_(ctx, I, e)
            equivalence(ctx, e, eps, what=rec)
            allfields(ctx, I, e.qn.rsplit("::", 1)[0], e, eps)
            for h in hs:
                hash_subset(ctx, h, S_(ctx, I, h), e, eps, what=rec)
    cache = [x for x in G.all_fns() if "DefaultEdgeFunctionSingletonCache" in
             x.qn and last(x.qn) in ("getHashValue", "isEqual")]
    for h in cache:
        for p in live(S_(ctx, G, h)):
            if last(h.qn) == "getHashValue":
                ctx.ob("hash-eq", re.search(r"hash\w*.*\(\*\$0\)", t2s(p.ret))
                       and not re.search(r"(?<!\*)\$0\b", t2s(p.ret)),
                       where(h), "the singleton cache hashes %s" % t2s(p.ret))
            else:
                s = t2s(p.ret)
                ctx.ob("hash-eq", s in ("true", "false", "(*$0 == *$1)"),
                       where(h), "the singleton cache compares %s" % s)
    ctx.ob("hash-eq", len(cache) >= 2, "DefaultEdgeFunctionSingletonCache.h",
           "no cache lookups found")


def aml(ctx, F):
    e = one(F, "psr::AbstractMemoryLocation::operator==", "")
    eps = S_(ctx, F, e)
    equivalence(ctx, e, eps, what="AbstractMemoryLocation")
    for p in live(eps):
        ctx.ob("handle", t2s(p.ret) in ("($0.PImpl == this.PImpl)",
                                        "(this.PImpl == $0.PImpl)"),
               where(e), "AbstractMemoryLocation == is %s" % t2s(p.ret))
    f = one(F, "psr::AbstractMemoryLocation::operator<", "")
    ordered(ctx, f, S_(ctx, F, f), r"§A\.PImpl", what="AbstractMemoryLocation")
    A = ctx.facts(LIB + "ExtendedTaintAnalysis/AbstractMemoryLocation.cpp")
    h = one(A, "psr::hash_value", r"AbstractMemoryLocation")
    hash_subset(ctx, h, S_(ctx, A, h), e, eps, whole=["§A.PImpl"],
                what="AbstractMemoryLocation")
    # interning: two locations share their node iff all components agree
    m = one(A, "psr::detail::AbstractMemoryLocationImpl::MakeProfile", "")
    n = 0
    for p in live(S_(ctx, A, m)):
        n += 1
        ev = [it.ev.s() for it in items([p])]
        ctx.ob("intern", any(re.search(r"\$0\.AddPointer\(\$1\)", x)
                             for x in ev), where(m),
               "the interning key lacks the base value")
        ctx.ob("intern", any(re.search(r"\$0\.AddInteger\(elem\(\$2\)\)", x)
                             for x in ev), where(m),
               "the interning key lacks the offsets")
        ctx.ob("intern", any(re.search(r"\$0\.Add\w+\(.*\$3", x)
                             for x in ev), where(m),
               "the interning key lacks the over-approximation flag")
        ctx.none("intern", require([p], [
            ("loop", "$2"), ("ev", lambda it: last(it.ev.name) == "AddInteger",
                             "an offset is not part of the key")]),
            where(m), "MakeProfile")
    ctx.ob("intern", n > 0, where(m), "no profile")
    d = one(F, "psr::XTaint::EdgeDomain::operator==", "")
    dps = S_(ctx, F, d)
    equivalence(ctx, d, dps, what="EdgeDomain")
    allfields(ctx, F, "psr::XTaint::EdgeDomain", d, dps)
    o = one(F, "psr::XTaint::EdgeDomain::operator<", "")
    ordered(ctx, o, S_(ctx, F, o), r"§A\.\w+(\.getOpaqueValue\(\))?",
            what="EdgeDomain")


def values(ctx):
    V = ctx.facts("eq.cpp", LIB + "IDEGeneralizedLCA/EdgeValue.cpp")
    e = one(V, "psr::glca::operator==", r"const psr::glca::EdgeValue &")
    eps = S_(ctx, V, e)
    h = one(V, "std::hash::operator()", r"glca::EdgeValue")
    hps = S_(ctx, V, h, inline=lambda d: True if d.qn.startswith(
        "psr::glca::EdgeValue::tryGet") else None)
    hash_subset(ctx, h, hps, e, eps, what="EdgeValue", alias=[
        (r"\*?as<APInt>\((.*)\)\.getSExtValue\(\)",
         r"as<APInt>\(.*\)\.sext(?:OrSelf)?\(.*\)"),
        (r"\*?as<basic_string>\((.*)\)", r"\*?as<basic_string>\(.*\)")])
    kinds = set()
    for p in live(eps):
        L = lits(p.pc)
        s = t2s(p.ret)
        if any(re.fullmatch(r"!\(\$[01]\.VariantType == \$[01]\.VariantType\)",
                            x) for x in L):
            ctx.ob("value-eq", p.ret == FALSE, where(e),
                   "values of different kinds compare equal")
            continue
        k = [x for x in L if re.fullmatch(
            r"\(\$[01]\.VariantType == .*Type::\w+\)", x)]
        for x in k:
            kinds.add(x.rsplit("::", 1)[1].strip(")"))
        if any(x.endswith("::Integer)") for x in k):
            ctx.ob("value-eq", re.search(r"as<APInt>\(\$0.*==.*as<APInt>"
                                         r"\(\$1", s) and "sext" in s,
                   where(e), "integers compare by %s (the width may differ)"
                   % s)
        elif any(x.endswith("::Top)") for x in k):
            ctx.ob("value-eq", p.ret == TRUE, where(e), "top is not top")
        elif any(x.endswith("::String)") for x in k):
            ctx.ob("value-eq", re.search(r"\(\*?as<basic_string>\(\$0.*== "
                                         r"\*?as<basic_string>\(\$1", s),
                   where(e), "strings compare by %s" % s)
    ctx.ob("value-eq", {"Integer", "String", "Top",
                        "FloatingPoint"} <= kinds, where(e),
           "only %s have their own comparison" % sorted(kinds))
    I = ctx.facts("eq.cpp", LIB + "IDEInstInteractionAnalysis.cpp")
    es = [x for x in I.find("psr::IDEIIAFlowFact::operator==")
          if "IDEIIAFlowFact" in x.decl.pt[0]]
    if not es:
        raise CheckError("IDEIIAFlowFact == is gone")
    e = es[0]
    eps = S_(ctx, I, e)
    h = one(I, "std::hash::operator()", r"IDEIIAFlowFact")
    hash_subset(ctx, h, S_(ctx, I, h), e, eps, what="IDEIIAFlowFact")
    allfields(ctx, I, "psr::IDEIIAFlowFact", e, eps, exempt=("KLimit",))
    for p in live(eps):
        if p.ret != TRUE:
            continue
        L = lits(p.pc)
        ctx.ob("fact-eq", any(re.fullmatch(
            r"\((?:this|\$0)\.BaseVal == (?:this|\$0)\.BaseVal\)", x)
            for x in L), where(e), "facts of different variables are equal")
        ctx.ob("fact-eq", any(re.search(r"FieldDesc\.size\(\) == .*FieldDesc"
                                        r"\.size\(\)", x) for x in L) or
               any(e2.kind == "call" and last(e2.name) == "equal"
                   for e2 in p.ev), where(e),
               "facts with field descriptors of different length are equal")
    ctx.none("fact-eq", require(
        [p for p in live(eps) if p.ret == TRUE],
        [("loop", pat(["this.FieldDesc", "$0.FieldDesc"]))]), where(e),
        "a field descriptor is not compared")
    o = one(I, "psr::IDEIIAFlowFact::operator<", "")
    lexi(ctx, o, S_(ctx, I, o), ["BaseVal", "FieldDesc"], "IDEIIAFlowFact")
    X = ctx.facts("lib/Pointer/PointsToInfo.cpp")
    h = one(X, "psr::DFSAODenseMapInfo::getHashValue", "")
    e = one(X, "psr::DFSAODenseMapInfo::isEqual", "")
    eps = S_(ctx, X, e)
    equivalence(ctx, e, eps, member=False, what="access path")
    hash_subset(ctx, h, S_(ctx, X, h), e, eps, emember=False,
                what="access path")


def dot(ctx):
    D = ctx.facts("lib/Utils/DOTGraph.cpp")
    f = one(D, "psr::operator<", r"DOTNode")
    models = product(f0=(0, 1, 2), f1=(0, 1, 2), stmt=("lt", "eq", "gt"))
    ST = (r"(?:~?\w+|StringIDLess\{\})\.operator\(\)\(\$([01])\.StmtId, \$([01])"
          r"\.StmtId\)")

    def st(m, g):
        if g[1] == g[2]:
            return False
        return m["stmt"] == ("lt" if g[1] == "0" else "gt")
    model(ctx, "order", f, S_(ctx, D, f), models, [
        (r"\(\$([01])\.FactId == 0\)", lambda m, g: m["f" + g[1]] == 0),
        (r"\(\$([01])\.FactId == \$([01])\.FactId\)",
         lambda m, g: m["f" + g[1]] == m["f" + g[2]]),
        (r"\(\$([01])\.FactId < \$([01])\.FactId\)",
         lambda m, g: m["f" + g[1]] < m["f" + g[2]]),
        (ST, st)],
        lambda m: m["f0"] < m["f1"] or (m["f0"] == m["f1"] and
                                        m["stmt"] == "lt"),
        what="DOTNode <")
    e = one(D, "psr::operator==", r"DOTNode")
    model(ctx, "order", e, S_(ctx, D, e, stop=["operator<"]),
          product(c=("lt", "eq", "gt")), [
        (r"\(\$0 < \$1\)", lambda m, g: m["c"] == "lt"),
        (r"\(\$1 < \$0\)", lambda m, g: m["c"] == "gt")],
        lambda m: m["c"] == "eq", what="DOTNode ==")
    g = one(D, "psr::operator<", r"DOTEdge")
    lexi(ctx, g, S_(ctx, D, g, stop=["operator<", "operator=="]),
         ["Source", "Target"], "DOTEdge")
