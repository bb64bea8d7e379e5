"""P21: the library's own containers."""
import re
from fractions import Fraction
from spec import *
from p12 import live, whole
from p16 import counted

EXPLAIN = ("Representation invariants decided from the summaries of the "
           "container operations: for BitVectorSet and EquivalenceClassMap "
           "every path's effects and result are compared with the set "
           "operation they implement (indices bounded with difference "
           "constraints); for StableVector every operation is interpreted in "
           "an affine abstract domain (block index, offset, size) for every "
           "class of states that satisfies the invariant and has to "
           "re-establish it.")

BV = "include/phasar/Utils/BitVectorSet.h"
EC = "include/phasar/Utils/EquivalenceClassMap.h"
SVH = "include/phasar/Utils/StableVector.h"
B = "psr::BitVectorSet::"
E = "psr::EquivalenceClassMap::"
V = "psr::StableVector::"


def run(ctx):
    F = ctx.facts("containers.cpp")
    bvs(ctx, F)
    bvs_rel(ctx, F)
    bvs_iter(ctx, F)
    ecm(ctx, F)
    stable(ctx, F)


def fns(F, qn, file, n=1):
    r = [f for f in F.find(qn) if f.file.endswith(file.split("/")[-1])
         and f.body is not None]
    if len(r) < n:
        raise CheckError("no %s in %s" % (qn, file))
    return r


# ------------------------------------------------------------ BitVectorSet
P = "@BitVectorSet::Position.left"
BITS = "this.Bits"


class Zone:
    """difference constraints x - y <= c over named quantities"""

    def __init__(self):
        self.c = []

    def le(self, x, y, c=0):
        self.c.append((x, y, c))

    def eq(self, x, y, c=0):          # x = y + c
        self.le(x, y, c)
        self.le(y, x, -c)

    def holds(self, x, y, c=0):
        """x - y <= c"""
        d = {y: 0}
        names = {n for a, b, _ in self.c for n in (a, b)} | {x, y}
        for _ in names:
            for a, b, w in self.c:     # a <= b + w
                if b in d and d[b] + w < d.get(a, 10 ** 9):
                    d[a] = d[b] + w
        return d.get(x, 10 ** 9) <= c


def affine(s):
    """text of a term -> (name, constant)"""
    s = s.strip()
    m = re.fullmatch(r"\((.*) ([+-]) (\d+)\)", s)
    if m:
        n, c = affine(m.group(1))
        k = int(m.group(3))
        return n, c + (k if m.group(2) == "+" else -k)
    m = re.fullmatch(r"\((\d+) \+ (.*)\)", s)
    if m:
        n, c = affine(m.group(2))
        return n, c + int(m.group(1))
    if re.fullmatch(r"\d+", s):
        return "0", int(s)
    return s, 0


def binop(s, ops):
    """splits `(a op b)` at its top-level operator"""
    if not (s.startswith("(") and s.endswith(")")):
        return None
    d = 0
    for i, ch in enumerate(s):
        if ch in "([{":
            d += 1
        elif ch in ")]}":
            d -= 1
        elif d == 1 and ch == " ":
            for o in ops:
                if s.startswith(" %s " % o, i):
                    return s[1:i], o, s[i + len(o) + 2:-1]
    return None


def zone(lit_list, z):
    for l in lit_list:
        neg = l.startswith("!")
        b = binop(l[1:] if neg else l, ("<=", "<", "=="))
        if not b:
            continue
        (x, cx), (y, cy) = affine(b[0]), affine(b[2])
        if b[1] == "<":
            if neg:
                z.le(y, x, cx - cy)
            else:
                z.le(x, y, cy - cx - 1)
        elif b[1] == "==" and not neg:
            z.eq(x, y, cy - cx)
        elif b[1] == "<=":
            if neg:
                z.le(y, x, cx - cy - 1)
            else:
                z.le(x, y, cy - cx)


def impure(p):
    return [it.ev for it in items([p]) if it.ev.kind == "write" or
            (it.ev.kind == "call" and not it.ev.pure)]


def bvs(ctx, F):
    for fn in fns(F, B + "insert", BV, 3):
        ps = live(ctx.summary(F, fn, versions=True))
        if len(fn.ps) == 2:
            rng(ctx, fn, ps, B + "insert")
        elif "BitVectorSet" in fn.ps[0][2]:
            exact(ctx, "bvs-union", fn, ps, [BITS + ".operator|=($0.Bits)"])
        else:
            element(ctx, fn, ps, True)
    for fn in fns(F, B + "erase", BV, 2):
        ps = live(ctx.summary(F, fn, versions=True))
        if "BitVectorSet" in fn.ps[0][2]:
            for p in ps:
                L = lits(p.pc)
                alias = any(re.fullmatch(r"\((&\$0 == this|this == &\$0)\)", l)
                            for l in L)
                got = [e.s() for e in impure(p)]
                ok = got == [BITS + ".reset($0.Bits)"] or alias and \
                    emptied(got)
                ctx.ob("bvs-minus", ok, where(fn), "erase(set): the elements "
                       "of the other set are not exactly removed: %s" % got,
                       fn.qn)
        else:
            element(ctx, fn, ps, False)
    for n, op in (("setUnionWith", "|="), ("setIntersectWith", "&=")):
        for fn in fns(F, B + n, BV):
            exact(ctx, "bvs-" + n, fn, live(ctx.summary(F, fn)),
                  ["%s.operator%s($0.Bits)" % (BITS, op)])
    for n, op in (("setUnion", "|="), ("setIntersect", "&=")):
        for fn in fns(F, B + n, BV):
            for p in live(ctx.summary(F, fn)):
                r, got = t2s(p.ret), [e.s() for e in impure(p)]
                pair = {"this": "$0", "$0": "this"}
                ok = r in pair and got == ["%s.Bits.operator%s(%s.Bits)" % (
                    r, op, pair[r])]
                if not ok:            # {copy; copy op= other}
                    ok = r in pair and got == ["%s.%s(%s)" % (
                        r, n + "With", pair[r])]
                ctx.ob("bvs-" + n, ok, where(fn), "%s returns %s after %s" %
                       (n, r, got), fn.qn)
    for fn in fns(F, B + "clear", BV):
        for p in live(ctx.summary(F, fn)):
            got = [e.s() for e in impure(p)]
            ctx.ob("bvs-clear", emptied(got), where(fn),
                   "clear() leaves elements: %s" % got, fn.qn)
    for fn in fns(F, B + "reserve", BV):
        for p in live(ctx.summary(F, fn)):
            got = [e.s() for e in impure(p)]
            ctx.ob("bvs-reserve", all(".reserve(" in g for g in got),
                   where(fn), "reserve() changes the set: %s" % got, fn.qn)
    for fn in fns(F, B + "empty", BV):
        decide(ctx, "bvs-empty", fn, live(ctx.summary(F, fn)),
               {"none": pat("this.Bits.none()"),
                "any": pat("this.Bits.any()"),
                "zero": pat("(this.Bits.count() == 0)")},
               lambda A: A["none"] if A["none"] == (not A["any"]) ==
               A["zero"] else None)
    for fn in fns(F, B + "size", BV):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("bvs-size", t2s(p.ret) == "this.Bits.count()", where(fn),
                   "size() returns %s" % t2s(p.ret), fn.qn)
    for n in ("count", "find"):
        for fn in fns(F, B + n, BV):
            member(ctx, fn, live(ctx.summary(F, fn)))
    for fn in fns(F, B + "includes", BV):
        for p in live(ctx.summary(F, fn)):
            L = lits(p.pc)
            r = t2s(p.ret)
            t = "$0.Bits.test(this.Bits)"
            ok = r == "not(%s)" % t or r == "true" and "!" + t in L or \
                r == "false" and t in L
            ctx.ob("bvs-includes", ok, where(fn),
                   "includes() returns %s when %s" % (r, L), fn.qn)
    for fn in fns(F, B + "(ctor)", BV):
        ps = live(ctx.summary(F, fn, versions=True))
        if len(fn.ps) == 2:
            rng(ctx, fn, ps, B + "insert")
        elif len(fn.ps) == 1 and "initializer_list" in fn.ps[0][2]:
            rng(ctx, fn, ps, B + "insert")


def emptied(got):
    ok = {BITS + ".clear()", BITS + ".resize(0, false)", BITS + ".reset()"}
    return bool(got) and {g.replace("'", "") for g in got} <= ok


def exact(ctx, rule, fn, ps, want):
    for p in ps:
        got = [e.s() for e in impure(p)]
        ctx.ob(rule, got == want, where(fn), "%s does %s instead of %s" % (
            last(fn.qn), got, want), fn.qn)
    ctx.ob(rule, bool(ps), where(fn), "%s: no path" % fn.qn, fn.qn)


def element(ctx, fn, ps, ins):
    """insert(x) and erase(x): exactly the bit that belongs to the element
    is changed; it exists; a new element gets the next free index and the
    vector only grows"""
    idx = P + "[$0]"
    op = "set" if ins else "reset"
    seen = set()
    for p in ps:
        L = lits(p.pc)
        known = P + " has $0" in L
        ctx.ob("bvs-known", known or "!" + P + " has $0" in L, where(fn),
               "%s does not depend on whether the element is known: %s" % (
                   last(fn.qn), L), fn.qn)
        seen.add(known)
        z = Zone()
        z.le(idx, P + ".size()", -1)   # indices of known elements
        cur = "b0"                     # the present size of the bit vector
        zone([l.replace(BITS + ".size()", "b0") for l in L], z)
        if not known:
            z.eq(P + ".size'()", P + ".size()", 1)
        done = []
        added = False
        for e in impure(p):
            s = e.s()
            m = re.fullmatch(re.escape(BITS) + r"\.resize\((.*), false\)", s)
            if m and ins:
                n, c = affine(m.group(1))
                ctx.ob("bvs-grow", z.holds(cur, n, c), where(fn),
                       "insert may shrink the bit vector with %s when %s" % (
                           s, L), fn.qn)
                new = cur + "'"
                z.eq(new, n, c)
                cur = new
                continue
            m = re.fullmatch(re.escape(BITS) + r"\.%s\((.*)\)" % op, s)
            if m:
                n, c = affine(m.group(1))
                want = idx if known else P + ".size()"
                ok = z.holds(n, want, -c) and z.holds(want, n, c)
                ctx.ob("bvs-bit", ok, where(fn), "%s changes bit %s of the "
                       "element with index %s" % (last(fn.qn), m.group(1),
                                                  want), fn.qn)
                ctx.ob("bvs-range", z.holds(n, cur, -c - 1), where(fn),
                       "%s changes bit %s, which may be outside the vector "
                       "when %s" % (last(fn.qn), m.group(1), L), fn.qn)
                done.append(m.group(1))
                continue
            m = re.fullmatch(re.escape(P) +
                             r"\.insert\((?:\w+\{)*\$0, (.*?)\}*\)", s)
            if m and ins and not known and not added:
                n, c = affine(m.group(1))
                w = P + ".size()"
                ctx.ob("bvs-fresh", z.holds(n, w, -c) and
                       z.holds(w, n, c), where(fn), "a new element gets "
                       "the index %s instead of the next free one" %
                       m.group(1), fn.qn)
                added = True
                continue
            ctx.ob("bvs-only", False, e.where(), "%s: unexpected effect %s" %
                   (last(fn.qn), s[:200]), fn.qn)
        if ins:
            ctx.ob("bvs-set", len(done) == 1, where(fn),
                   "insert sets %d bits when %s" % (len(done), L), fn.qn)
            ctx.ob("bvs-register", added != known, where(fn), "insert %s a"
                   " %s element" % ("registers" if added else "does not "
                                    "register", "known" if known else "new"),
                   fn.qn)
        elif not done:
            ctx.ob("bvs-reset", not known or z.holds("b0", idx), where(fn),
                   "erase keeps the element when %s" % L, fn.qn)
    ctx.ob("bvs-known", seen == {True, False}, where(fn),
           "%s treats only some elements" % fn.qn, fn.qn)


def member(ctx, fn, ps):
    has, bit = P + " has $0", "%s[%s[$0]]" % (BITS, P)
    lt = "(%s[$0] < this.Bits.size())" % P

    def exp(m):
        return m["has"] and m["lt"] and m["bit"]
    tab = {True: (True, "true", "1"), False: (False, "false", "0")}

    def v(x):
        return lambda m, g: m[x]
    at = [(re.escape(has), v("has")), (re.escape(lt), v("lt")),
          (re.escape(bit), v("bit")), (r"truthy\(%s\)" % re.escape(bit),
                                       v("bit"))]
    model(ctx, "bvs-member", fn, ps, list(product(
        has=(True, False), lt=(True, False), bit=(True, False))), at,
        lambda m: list(tab[bool(exp(m))]))


def rng(ctx, fn, ps, callee):
    """every element of the range is inserted"""
    for p in ps:
        ls = [e.loop for e in p.ev if e.kind == "loop"]
        ctx.ob("range", len(ls) == 1, where(fn), "%s: %d loops over the "
               "range" % (fn.qn, len(ls)), fn.qn)
        for l in ls:
            whole_range(ctx, fn, l)
        out = [e.s() for e in p.ev if e.kind != "loop" and
               (e.kind == "write" or not e.pure) and
               e.s() != BITS + " := BitVector{}"]
        ctx.ob("range", not out, where(fn), "%s: unexpected effect %s" %
               (fn.qn, out), fn.qn)


def whole_range(ctx, fn, l):
    if l.container is not None:
        ok = t2s(l.container) == "$0" and all(
            q.exit in (None, "continue") for q in l.paths)
        for pc in l.exits if l.kind != "range" else ():
            ok &= any(re.fullmatch(r"\((end\(\$0\) == iter\(\$0\)|iter\(\$0"
                                   r"\) == end\(\$0\))\)", x)
                      for x in lits(pc))
        ctx.ob("range", ok, where(fn), "%s does not visit every element of "
               "the range" % fn.qn, fn.qn)
        return
    nx = [(v, pc) for k, v, pc in l.carry if k == "next"]
    its = [k for k, v in l.entry.items() if t2s(v) in ("$0", "begin($0)",
                                                       "$0.begin()")]
    ok = len(its) == 1
    if ok:
        i = its[0]
        for v, pc in nx:
            ok &= t2s(v.get(i, i)) in ("next(%s)" % t2s(i), "(%s + 1)" %
                                       t2s(i))
    ctx.ob("range", ok, where(fn), "%s does not visit every element of the "
           "range" % fn.qn, fn.qn)
    if not its:
        return
    i = t2s(its[0])
    for c in l.exits:
        L = lits(c)
        ctx.ob("range", any(re.fullmatch(
            r"\(%s == (\$1|end\(\$0\)|\$0\.end\(\))\)|"
            r"\((\$1|end\(\$0\)|\$0\.end\(\)) == %s\)" % (
                re.escape(i), re.escape(i)), x) for x in L), where(fn),
            "%s stops when %s" % (fn.qn, L), fn.qn)
    ds = {i, "elem($0)"}
    for p in l.paths:
        if p.exit not in (None, "end", "continue"):
            continue
        txt = " ".join(it.ev.s() for it in items([p]))
        ctx.ob("range", any(d in txt for d in ds), where(fn),
               "%s skips an element of the range when %s" % (
                   fn.qn, lits(p.pc)), fn.qn)


def bvs_rel(ctx, F):
    for fn in [f for f in F.find("psr::operator==") if f.file.endswith(
            "BitVectorSet.h")]:
        ps = live(ctx.summary(F, fn))
        sub = lambda s: s.replace("$0.Bits.getData()", "L").replace(
            "$1.Bits.getData()", "R").replace(
                "std::min(L.size(), R.size())", "MIN").replace(
                    "std::min(R.size(), L.size())", "MIN")
        lt = {"L.size() < R.size()": "<", "R.size() < L.size()": ">",
              "L.size() == R.size()": "=", "R.size() == L.size()": "="}
        at = [(r".*", lambda m, g: eqlit(sub(g.group(0)), m, lt))]
        ms = [m for m in product(a=(True, False), b=(True, False), c="<=>",
                                 w=(True, False), p=(True, False),
                                 r=(True, False))
              if m["w"] == (m["c"] == "=" and m["p"] and m["r"]) and
              (m["c"] != "=" or m["p"] == m["w"] and m["r"]) and
              (not (m["a"] and m["b"]) or m["p"] and m["r"]) and
              (m["a"] == m["b"] or not (m["p"] and m["r"]))]
        model(ctx, "bvs-eq", fn, ps, ms, at,
              lambda m: m["w"] if m["c"] == "=" else m["p"] and m["r"])
    for fn in [f for f in F.find("psr::operator!=") if f.file.endswith(
            "BitVectorSet.h")]:
        ps = live(ctx.summary(F, fn, stop=["psr::operator=="]))
        negated(ctx, "bvs-ne", fn, ps)
    for fn in [f for f in F.find("psr::operator<") if f.file.endswith(
            "BitVectorSet.h")]:
        less(ctx, fn, live(ctx.summary(F, fn)))
    for fn in [f for f in F.find("psr::hash_value") if f.file.endswith(
            "BitVectorSet.h")]:
        hashed(ctx, fn, live(ctx.summary(F, fn)))
    for fn in [f for f in F.find("psr::operator<<") if f.file.endswith(
            "BitVectorSet.h")]:
        el = "elem(%s)" % P
        for p in live(ctx.summary(F, fn)):
            ls = [e.loop for e in p.ev if e.kind == "loop"]
            ok = len(ls) == 1 and whole(ls[0]) and \
                t2s(ls[0].container) == P
            ctx.ob("bvs-print", ok, where(fn), "not every element is "
                   "considered", fn.qn)
            for l in ls:
                for q in live(l.paths):
                    L = lits(q.pc)
                    pr = [e for e in q.ev if e.kind == "call" and
                          last(e.name) == "operator<<" and
                          e.s().endswith(", %s.first)" % el)]
                    inn = any(x == "$1.Bits[%s.second]" % el for x in L)
                    rg = "(%s.second < $1.Bits.size())" % el in L
                    ctx.ob("bvs-print", (len(pr) == 1) == (inn and rg),
                           where(fn), "an element is printed %d times when "
                           "%s" % (len(pr), L), fn.qn)


def eqlit(s, m, lt):
    if s in ("$0.Bits.none()", "$1.Bits.none()"):
        return m["a" if s[1] == "0" else "b"]
    if s in ("$0.Bits.any()", "$1.Bits.any()"):
        return not m["a" if s[1] == "0" else "b"]
    if s[1:-1] in lt:
        return m["c"] == lt[s[1:-1]]
    if s in ("(L == R)", "(R == L)"):
        return m["w"]
    if s in ("(L.slice(0, MIN) == R.slice(0, MIN))",
             "(R.slice(0, MIN) == L.slice(0, MIN))"):
        return m["p"]
    g = re.fullmatch(r"anyof\((.)\.slice\(MIN\), not\(\(elem\((.)\.slice\("
                     r"MIN\)\) == 0\)\)\)", s)
    if g and g.group(1) == g.group(2):
        big = {"<": "R", ">": "L"}.get(m["c"])
        return big == g.group(1) and not m["r"]
    return None


def negated(ctx, rule, fn, ps):
    for p in ps:
        s, L = t2s(p.ret), lits(p.pc)
        e = r"(\S*operator==\(\$0, \$1\)|\(\$0 == \$1\))"
        ok = re.fullmatch(r"not\(%s\)" % e, s) or \
            s == "true" and any(re.fullmatch("!" + e, l) for l in L) or \
            s == "false" and any(re.fullmatch(e, l) for l in L)
        ctx.ob(rule, bool(ok), where(fn), "a != b returns %s when %s" % (
            s, L), fn.qn)


def less(ctx, fn, ps):
    """compares the bits from the highest to the lowest; bits beyond the end
    count as zero"""
    A, Bb = "$0.Bits", "$1.Bits"

    def atom(m, g):
        s = g.group(0)
        for x, y, c in ((A, Bb, ">"), (Bb, A, "<")):
            if s == "(%s.size() < %s.size())" % (y, x):
                return m["c"] == c
            h = "%s.find_first_in(%s.size(), %s.size(), true)" % (x, y, x)
            if s in ("(%s == -1)" % h, "(-1 == %s)" % h):
                return m["c"] != c or not m["h"]
        if re.fullmatch(r"\(\?\w+ < 0\)", s):
            return not m["f"]
        if is_diff(s):
            return m["f"]
        return None
    ms = [m for m in product(c="<=>", h=(True, False), f=(True, False))
          if not (m["c"] == "=" and m["h"])]
    model(ctx, "bvs-less", fn, ps, ms, [(r".*", atom)],
          lambda m: m["c"] == "<" if m["h"] else
          [Pat(r"\$1\.Bits\[(\?\w+)\]"), Pat(r"not\(\$0\.Bits\[(\?\w+)\]\)")]
          if m["f"] else False, exact=True)
    n = 0
    for p in ps:
        for l in [e.loop for e in p.ev if e.kind == "loop"]:
            n += 1
            low = r"\(std::min\(\$(\d)\.Bits\.size\(\), \$(\d)\.Bits\.size" \
                  r"\(\)\) - 1\)"
            iv = [k for k, v in l.entry.items() if (g := re.fullmatch(
                low, t2s(v))) and g.group(1) != g.group(2)]
            ctx.ob("bvs-less", len(iv) == 1, where(fn), "the comparison "
                   "does not start with the highest common bit: %s" % [
                       t2s(v) for v in l.entry.values()], fn.qn)
            for i in iv:
                s = t2s(i)
                for k, vals, pc in l.carry:
                    if k == "next":
                        ctx.ob("bvs-less", t2s(vals.get(i)) ==
                               "(%s - 1)" % s and any(is_diff(
                                   x.lstrip("!")) and x[0] == "!"
                                   for x in lits(pc)), where(fn),
                               "continues with bit %s when %s" % (
                                   t2s(vals.get(i)), lits(pc)), fn.qn)
                for pc in l.exits:
                    ctx.ob("bvs-less", "(%s < 0)" % s in lits(pc),
                           where(fn), "the comparison ends when %s" %
                           lits(pc), fn.qn)
    ctx.ob("bvs-less", n > 0, where(fn), "no bits compared", fn.qn)


def is_diff(s):
    s = re.sub(r"__builtin_expect\((.*), (true|false|0|1)\)", r"\1", s)
    return bool(re.fullmatch(r"not\(\(\$(0|1)\.Bits\[(\?\w+)\] == "
                             r"\$(?!\1)(0|1)\.Bits\[\2\]\)\)", s))


def hashed(ctx, fn, ps):
    """equal sets hash equally: only the words up to the last non-zero one
    enter the hash"""
    W = "$0.Bits.getData()"
    for p in ps:
        s, L = t2s(p.ret), lits(p.pc)
        if "$0.Bits.none()" in L or "!$0.Bits.any()" in L:
            ctx.ob("bvs-hash", "getData" not in s and "size" not in s,
                   where(fn), "the hash of an empty set is %s" % s, fn.qn)
            continue
        g = re.fullmatch(r"hash_combine_range\(begin\(%s\), std::next\("
                         r"begin\(%s\), (\?\w+)\)\)" % (
                             re.escape(W), re.escape(W)), s)
        ctx.ob("bvs-hash", bool(g), where(fn), "the hash is %s" % s, fn.qn)
        if not g:
            continue
        v = g.group(1)
        ls = [e.loop for e in p.ev if e.kind == "loop"]
        ok = len(ls) == 1
        z = "(%s[(%s - 1)] == 0)" % (W, v)
        for l in ls:
            en = {t2s(k): t2s(x) for k, x in l.entry.items()}
            ok &= en.get(v) == W + ".size()"
            for k, vals, pc in l.carry:
                val = {t2s(a): t2s(b) for a, b in vals.items()}
                if k == "next":
                    ok &= val.get(v) == "(%s - 1)" % v and z in lits(pc)
            for pc in l.exits:
                X = lits(pc)
                ok &= bool(X & {"!" + z, "!" + v, "(%s == 0)" % v,
                                "!(0 < %s)" % v, "(%s < 1)" % v})
        ctx.ob("bvs-hash", ok, where(fn), "trailing zero words are not "
               "dropped before hashing", fn.qn)


def bvs_iter(ctx, F):
    I = B + "BitVectorSetIterator::"
    END = r"end\(@BitVectorSet::Position\.right\)"
    FIND = r"find\(@BitVectorSet::Position\.right, (.*?)\)"

    def pos(s):
        """'end', the index, or None"""
        s = re.sub(r"\b\w*map_view_iterator\{(.*)\}", r"\1", s)
        if re.fullmatch(END, s):
            return "end"
        g = re.fullmatch(FIND, s)
        return g.group(1) if g else None
    for n in ("begin", "end"):
        for fn in fns(F, B + n, BV, 2):
            for p in live(ctx.summary(F, fn)):
                L, s = lits(p.pc), t2s(p.ret)
                g = re.fullmatch(r"BitVectorSetIterator\{(.*)\}", s)
                got = pos(g.group(1)) if g else None
                ff = BITS + ".find_first()"
                none = any(x in L for x in ("(%s == -1)" % ff,
                                            "(%s < 0)" % ff, "!%s.any()" %
                                            BITS, BITS + ".none()"))
                want = "end" if n == "end" or none else ff
                ctx.ob("bvs-" + n, got == want, where(fn), "%s() is %s "
                       "instead of %s when %s" % (n, s, want, L), fn.qn)
                ctx.ob("bvs-" + n, none or n == "end" or any(
                    x in L for x in ("!(%s == -1)" % ff, "!(%s < 0)" % ff,
                                     BITS + ".any()",
                                     "!%s.none()" % BITS)), where(fn),
                       "begin() dereferences the first element when %s" % L,
                       fn.qn)
                w = [(t2s(e.obj), [t2s(a) for a in e.args])
                     for e in impure(p) if e.kind == "write"]
                ctx.ob("bvs-" + n, w == [(s + ".Bits", [BITS])],
                       where(fn), "the iterator does not get the bits of "
                       "the set: %s" % w, fn.qn)
    for q in ("operator++", "operator+=", "operator+"):
        for fn in F.find(I + q):
            ps = live(ctx.summary(F, fn))
            if q != "operator++":
                for p in ps:
                    ls = [e.loop for e in p.ev if e.kind == "loop"]
                    one = [e.s() for e in p.ev if e.kind == "call" and
                           not e.pure] == ["this.operator+=($0)"]
                    ctx.ob("bvs-advance", one and not ls and
                           q == "operator+" or len(ls) == 1 and
                           counted(ls[0], "$0"), where(fn),
                           "%s does not advance n times" % q, fn.qn)
                    for l in ls:
                        for y in live(l.paths):
                            if y.exit is None and [
                                    e.s() for e in y.ev
                                    if e.kind == "write" or not e.pure] != [
                                    "this := (this + 1)"]:
                                ctx.ob("bvs-next", bvs_step(
                                    ctx, fn, [y], pos) > 0, where(fn),
                                    "%s does not advance with every step" %
                                    q, fn.qn)
                continue
            elif fn.ps:
                continue
            n = 0
            for p in ps:
                n += bvs_step(ctx, fn, [p], pos)
            ctx.ob("bvs-next", n > 0, where(fn), "%s does not advance" % q,
                   fn.qn)
    for q, e in (("operator==", True), ("operator!=", False)):
        for fn in F.find(I + q):
            for p in live(ctx.summary(F, fn)):
                s = t2s(p.ret)
                if s in ("true", "false") and len(p.pc) == 1:
                    (k, v), = p.pc.items()
                    s = t2s(k) if v == (s == "true") else "not(%s)" % t2s(k)
                if not e and s in ("not(($0 == this))",
                                   "not((this == $0))"):
                    continue
                x = r"\((\$0\.PosPtr == this\.PosPtr|this\.PosPtr == " \
                    r"\$0\.PosPtr)\)"
                ok = re.fullmatch(x if e else r"not\(%s\)" % x, s)
                ctx.ob("bvs-itereq", bool(ok), where(fn),
                       "%s returns %s" % (q, s), fn.qn)
    for fn in F.find(I + "operator*"):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("bvs-deref", t2s(p.ret) == "this.PosPtr.second",
                   where(fn), "*it returns %s" % t2s(p.ret), fn.qn)


def bvs_step(ctx, fn, ps, pos):
    n = 0
    for it in items(ps):
        e = it.ev
        if e.kind == "call" and not e.pure and "operator++" in e.name:
            ctx.ob("bvs-next", False, e.where(), "%s steps over the known "
                   "elements instead of the elements of the set" %
                   last(fn.qn), fn.qn)
        if e.kind != "write" or not t2s(e.obj).endswith(".PosPtr"):
            continue
        n += 1
        who = t2s(e.obj)[:-len(".PosPtr")]
        got = pos(t2s(e.args[0]))
        L = lits(it.pc)
        x = "%s.Bits.find_next(%s.PosPtr.first)" % (who, who)
        up = "(%s.PosPtr.first < %s)" % (who, x)
        none = "!" + up in L or "(%s == -1)" % x in L or \
            "(%s < 0)" % x in L
        more = up in L or "!(%s == -1)" % x in L or "!(%s < 0)" % x in L
        want = "end" if none else x if more else None
        ctx.ob("bvs-next", want is not None and got == want, e.where(),
               "++it goes to %s instead of %s when %s" % (
                   t2s(e.args[0]), want, L), fn.qn)
    return n


# -------------------------------------------------------- EquivalenceClassMap
SD = "this.StoredData"


def ecm(ctx, F):
    for n in ("insert", "try_emplace"):
        for fn in fns(F, E + n, EC, 2):
            ps = live(ctx.summary(F, fn))
            rg = len(fn.ps) == 2 and fn.ps[0][2] == fn.ps[1][2] and \
                "pair" in fn.ps[0][2]
            if rg:
                for p in ps:
                    ls = [e.loop for e in p.ev if e.kind == "loop"]
                    ctx.ob("range", len(ls) == 1, where(fn), "%d loops over"
                           " the range" % len(ls), fn.qn)
                    for l in ls:
                        whole_range(ctx, fn, l)
                        i = [t2s(k) for k, v in l.entry.items()]
                        for v in i:
                            emplace(ctx, fn, live(l.paths), v + ".first",
                                    v + ".second")
            elif len(fn.ps) == 1:
                emplace(ctx, fn, ps, "$0.first", "$0.second")
            else:
                emplace(ctx, fn, ps, "$0", "$1")
    FI = re.escape("findif(%s, " % SD) + holds_rx() + r"\)"
    for fn in fns(F, E + "count", EC):
        ps = anynorm(live(ctx.summary(F, fn)))
        model(ctx, "ecm-count", fn, ps, [{"in": True}, {"in": False}],
              [(re.escape("anyof(%s, " % SD) + holds_rx() + r"\)",
                lambda m, g: m["in"]),
               (r"\((end\(%s\) == %s|%s == end\(%s\))\)" % (
                   re.escape(SD), FI, FI, re.escape(SD)),
                lambda m, g: not m["in"])],
              lambda m: [True, "true", "1"] if m["in"] else
              [False, "false", "0"], exact=True)
    for n in ("size", "numEquivalenceClasses"):
        for fn in fns(F, E + n, EC):
            for p in live(ctx.summary(F, fn)):
                ctx.ob("ecm-size", t2s(p.ret) == SD + ".size()", where(fn),
                       "%s() returns %s" % (n, t2s(p.ret)), fn.qn)
    fi = FI
    for fn in fns(F, E + "find", EC):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("ecm-find", bool(re.fullmatch(fi, t2s(p.ret))), where(fn),
                   "find() returns %s" % t2s(p.ret), fn.qn)
    for fn in fns(F, E + "findValue", EC):
        model(ctx, "ecm-value", fn, live(ctx.summary(F, fn)),
              [{"in": True}, {"in": False}],
              [(r"\((end\(%s\) == %s|%s == end\(%s\))\)" % (
                  re.escape(SD), fi, fi, re.escape(SD)),
                lambda m, g: not m["in"])],
              lambda m: Pat(fi + r"\.second") if m["in"] else
              Pat(r"@std::nullopt|optional\{(@std::nullopt)?\}"), exact=True)
    for fn in fns(F, E + "clear", EC):
        exact(ctx, "ecm-clear", fn, live(ctx.summary(F, fn)),
              [SD + ".clear()"])
    for n in ("begin", "end"):
        for fn in fns(F, E + n, EC):
            for p in live(ctx.summary(F, fn)):
                ctx.ob("ecm-iter", t2s(p.ret) == "%s(%s)" % (n, SD),
                       where(fn), "%s() returns %s" % (n, t2s(p.ret)),
                       fn.qn)
    for fn in F.find(E + "(ctor)"):
        ps = live(ctx.summary(F, fn))
        if not fn.ps or "unsigned" in fn.ps[0][2]:
            continue
        for p in ps:
            ls = [e.loop for e in p.ev if e.kind == "loop"]
            ctx.ob("range", len(ls) == 1, where(fn), "%d loops over the "
                   "range" % len(ls), fn.qn)
            for l in ls:
                whole_range(ctx, fn, l)
                for q in l.paths:
                    txt = [it.ev.s() for it in items([q])]
                    ctx.ob("range", any(".insert(" in t or ".emplace_back("
                                        in t for t in txt), where(fn),
                           "a pair is not inserted when %s" % lits(q.pc),
                           fn.qn)


def holds_rx():
    h = r"elem\(%s\)\.first has \$0" % re.escape(SD)
    return r"(?:not\(\(%s < 1\)\)|%s|not\(\(%s == 0\)\)|not\(!%s\))" % (
        h, h, h, h)


def emplace(ctx, fn, ps, key, val):
    """the key joins the class with an equal value; only without one there
    is a new class"""
    el = "elem(%s)" % SD
    ms = ("(%s.second == %s)" % (el, val), "(%s == %s.second)" % (val, el))
    n = [0, 0]
    for p in ps:
        L = lits(p.pc)
        got = [e.s() for e in impure(p) if e.kind == "write" or
               not any(e.loop is x for x in ())]
        outer = [e.s() for e in p.ev if e.kind == "write" or
                 (e.kind == "call" and not e.pure)]
        ls = [e.loop for e in p.ev if e.kind == "loop"]
        hit = any(m in L for m in ms)
        n[hit] += 1
        ins = "%s.first.insert(%s)" % (el, key)
        if hit:
            ctx.ob("ecm-class", outer == [ins], where(fn), "with an existing"
                   " class for the value: %s" % outer, fn.qn)
            ctx.ob("ecm-class", p.exit != "return" or t2s(p.ret) in (
                ins, "_"), where(fn), "returns %s" % t2s(p.ret), fn.qn)
        else:
            new = re.compile(re.escape(SD) + r"\.emplace_back\(set\{\{%s\}"
                             r"(?:, \w+\{\})*\}, %s\)" % (
                                 re.escape(key), re.escape(val)))
            ctx.ob("ecm-class", len(outer) == 1 and bool(
                new.fullmatch(outer[0])), where(fn), "without a class for "
                "the value: %s" % outer, fn.qn)
            ctx.ob("ecm-class", t2s(p.ret) in (
                "pair{begin(%s.back().first), true}" % SD, "_"), where(fn),
                "returns %s" % t2s(p.ret), fn.qn)
        ctx.ob("ecm-class", len(ls) == 1 and ls[0].kind == "range" and
               t2s(ls[0].container) == SD, where(fn), "the classes are not "
               "searched when %s" % L, fn.qn)
        for l in ls:
            for q in l.paths:
                QL = lits(q.pc)
                h = any(m in QL for m in ms)
                ctx.ob("ecm-class", h == (q.exit == "return") and (
                    h or any("!" + m in QL for m in ms)), where(fn),
                    "the search for the class %s when %s" % (
                        "ends" if q.exit else "continues", QL), fn.qn)
    ctx.ob("ecm-class", min(n) > 0, where(fn), "%s: cases are missing" %
           fn.qn, fn.qn)


# -------------------------------------------------------------- StableVector
# Invariant, by the index k of the current block (block sizes: 32, 32, 64,
# 128, ...; so the blocks before block k >= 1 hold width(k) elements):
#   no blocks: Start = Pos = End = null, Size = BlockIdx = 0
#   else: BlockIdx = k, Start = b(k), End = b(k) + width(k),
#         Pos = b(k) + n, Size = base(k) + n, 0 <= n <= width(k),
#         n > 0 if k > 0; base(0) = 0, base(k) = width(k)
class Aff(dict):
    """sum of coefficient * symbol; symbol 1 is the constant"""

    def __init__(self, *a, **kw):
        super().__init__({k: Fraction(v) for k, v in dict(*a, **kw).items()
                          if v})

    def plus(self, o, f=1):
        r = dict(self)
        for k, v in o.items():
            r[k] = r.get(k, 0) + v * f
        return Aff(r)

    def const(self):
        return self.get(1, 0) if set(self) <= {1} else None


def num(c):
    return Aff({1: c})


def sym(s, c=1):
    return Aff({s: c})


class Cls:
    """one class of states; `rng` bounds the symbols"""

    def __init__(self, name, k, n, w, spare, rng, grow=None):
        self.name, self.spare, self.rng = name, spare, rng
        self.empty = k is None
        self.k = num(0) if k is None else k
        self.n, self.w = n, w
        self.m = num(0) if k is None else \
            self.k.plus(num(1)) if not spare else sym("m")
        kc = self.k.const()
        self.base = num(0) if kc == 0 else w
        self.grow = grow

    def width(self, i):
        d = i.plus(self.k, -1).const()
        kc = self.k.const()
        if kc is not None:
            c = i.const()
            if c is None or c < 0:
                return None
            return num(32 if c == 0 else 32 * 2 ** int(c - 1))
        if d is None or abs(d) > 1:
            return num(32) if i.const() in (0, 1) else None
        return Aff({a: b * Fraction(2) ** d for a, b in self.w.items()})

    def size(self):
        return self.base.plus(self.n)


def classes(nonempty=False):
    out = []
    if not nonempty:
        out.append(Cls("no blocks", None, num(0), num(0), False, {}))
    for kn, k, w in (("first block", num(0), num(32)),
                     ("second block", num(1), num(32)),
                     ("later block", sym("k"), sym("W"))):
        for nn, n in (("empty", num(0)), ("one element", num(1)),
                      ("partly filled", sym("n")), ("full", w)):
            if nn == "empty" and (kn != "first block" or nonempty):
                continue
            for sp in (False, True):
                # 2 <= n <= w - 1; W is a power of two >= 64; k >= 2
                out.append(Cls("%s, %s%s" % (kn, nn, ", spare blocks" if sp
                                             else ""), k, n, w, sp, {}))
    return out


class Eval:
    def __init__(self, c, extra=None):
        self.c = c
        self.extra = extra or {}      # term text -> value
        self.pushes = 0

    # values: Aff (integers), ("p", index Aff, offset Aff) pointers into
    # block `index`, "null", None (unknown)
    def val(self, t):
        s = t2s(t)
        if s in self.extra:
            return self.extra[s]
        c = self.c
        base = {"this.Size": c.size(), "this.BlockIdx": c.k}
        if s in base:
            return base[s]
        if s in ("this.Start", "this.Pos", "this.End"):
            if c.empty:
                return "null"
            o = {"S": num(0), "P": c.n, "E": c.w}[s[5]]
            return ("p", c.k, o)
        if t[0] == "int":
            return num(t[1])
        if s in ("null", "nullptr", "0"):
            return "null"
        m = re.fullmatch(r"this\.Blocks\.(front|back|size)('*)\(\)", s)
        if m:
            n = c.m.plus(num(len(m.group(2))))
            if m.group(1) == "size":
                return n
            return ("p", num(0) if m.group(1) == "front" else
                    n.plus(num(-1)), num(0))
        if t[0] == "idx" and t2s(t[1]) == "this.Blocks":
            i = self.val(t[2])
            return ("p", i, num(0)) if isinstance(i, Aff) else None
        if t[0] == "deref":
            return None
        if t[0] == "op" and len(t) == 4:
            a, b = self.val(t[2]), self.val(t[3])
            return self.arith(t[1], a, b)
        if t[0] == "idx":
            a, b = self.val(t[1]), self.val(t[2])
            r = self.arith("+", a, b)
            return ("at",) + r[1:] if isinstance(r, tuple) else None
        if t[0] in ("cast", "icast"):
            return self.val(t[-1])
        return None

    def arith(self, op, a, b):
        if isinstance(a, Aff) and isinstance(b, Aff):
            if op in "+-":
                return a.plus(b, 1 if op == "+" else -1)
            x, y = a.const(), b.const()
            if op in ("/", "*", "<<", ">>") and y is not None:
                f = {"/": lambda: 1 / y, "*": lambda: y,
                     "<<": lambda: Fraction(2) ** y,
                     ">>": lambda: Fraction(1, 2) ** y}[op]()
                return Aff({k: v * f for k, v in a.items()})
            if op == "<<" and x == 32:
                return self.pow(b)
            if op == "<<" and x == 1:
                return self.pow(b.plus(num(-5)))
            if op == "*" and x is not None:
                return Aff({k: v * x for k, v in b.items()})
            return None
        if isinstance(a, tuple) and isinstance(b, Aff) and op in "+-":
            return (a[0], a[1], a[2].plus(b, 1 if op == "+" else -1))
        if isinstance(b, tuple) and isinstance(a, Aff) and op == "+":
            return (b[0], b[1], b[2].plus(a))
        if isinstance(a, tuple) and isinstance(b, tuple) and op == "-" and \
                a[1] == b[1]:
            return a[2].plus(b[2], -1)
        return None

    def pow(self, e):
        """32 << e: the width of block e + 1"""
        return self.c.width(e.plus(num(1)))

    def rel(self, a):
        """sign of an affine expression: '<', '=', '>' or None"""
        lo, hi = Fraction(0), Fraction(0)
        a = dict(a)
        # relate n to W first: n <= W - 1, k symbols >= their minima
        mins = {"W": 64, "n": 2, "k": 2, 1: 1, "v": 1}
        kc = self.c.k.const()
        if "m" in a:                       # spare blocks: m >= k + 2
            f = a.pop("m")
            if f < 0:
                for x, y in self.c.k.plus(num(2)).items():
                    a[x] = a.get(x, 0) + f * y
                hi_open = "neg"
            else:
                for x, y in self.c.k.plus(num(2)).items():
                    a[x] = a.get(x, 0) + f * y
                hi_open = "pos"
        else:
            hi_open = ""
        opts = set()
        a = {k: v for k, v in a.items() if v}
        # n = W - n' with n' >= 1 when that helps
        for sub in (False, True):
            x = dict(a)
            inf_hi = hi_open == "pos"
            inf_lo = hi_open == "neg"
            if sub and "n" in x:
                f = x.pop("n")
                for y, z in self.c.w.items():
                    x[y] = x.get(y, 0) + f * z
                x["n'"] = -f
            lo = hi = Fraction(0)
            for s, f in x.items():
                if not f:
                    continue
                mn = 1 if s == "n'" else mins[s]
                if s == 1:
                    lo += f
                    hi += f
                elif s == "n" and self.c.w.const() is not None:
                    mx = self.c.w.const() - 1
                    lo += f * (mn if f > 0 else mx)
                    hi += f * (mx if f > 0 else mn)
                elif f > 0:
                    lo += f * mn
                    inf_hi = True
                else:
                    hi += f * mn
                    inf_lo = True
            if not inf_lo and lo > 0:
                return ">"
            if not inf_hi and hi < 0:
                return "<"
            if not inf_lo and not inf_hi and lo == hi == 0:
                return "="
            if not inf_lo and lo == 0:
                opts.add(">=")
            if not inf_hi and hi == 0:
                opts.add("<=")
        return "/".join(sorted(opts)) or None

    def lit(self, k):
        """truth of a condition in this class, None if it can be either"""
        if k[0] in ("not",) or k[0] == "un" and k[1] == "!":
            v = self.lit(k[-1])
            return None if v is None else not v
        s = t2s(k)
        g = re.fullmatch(r"__builtin_expect\(.*", s)
        if g:
            return self.lit(k[3][0])
        if s == "empty(this.Blocks)":
            return self.c.empty
        if "isPowerOf2_64" in s:
            return True
        if k[0] == "op" and k[1] in ("==", "<", "<="):
            a, b = self.val(k[2]), self.val(k[3])
            if isinstance(a, tuple) and isinstance(b, tuple):
                if a[1] != b[1]:
                    d = a[1].plus(b[1], -1)
                    r = self.rel(d)
                    return False if k[1] == "==" and r in "<>" else None
                a, b = a[2], b[2]
            if a == "null" and b == "null":
                return k[1] == "=="
            if "null" in (a, b) and (isinstance(a, tuple) or
                                     isinstance(b, tuple)):
                return False if k[1] == "==" else None
            if isinstance(a, Aff) and isinstance(b, Aff):
                r = self.rel(a.plus(b, -1))
                if r is None:
                    return None
                if k[1] == "==":
                    return True if r == "=" else False if r in "<>" else None
                if k[1] == "<":
                    return True if r == "<" else False if r in (
                        "=", ">", ">=") else None
                return True if r in ("<", "=", "<=") else \
                    False if r == ">" else None
            return None
        v = self.val(k)
        if isinstance(v, Aff):
            r = self.rel(v)
            return False if r == "=" else True if r in ("<", ">") else None
        return None


def zeq(a, b):
    return isinstance(a, Aff) and isinstance(b, Aff) and \
        not a.plus(b, -1)


def ptr(v):
    if isinstance(v, tuple):
        return "block %s + %s" % (aff_s(v[1]), aff_s(v[2]))
    return aff_s(v) if isinstance(v, Aff) else str(v)


def aff_s(a):
    return " + ".join("%s%s" % ("" if v == 1 and k != 1 else v,
                                "" if k == 1 else k)
                      for k, v in a.items()) or "0"


def feas(ev, pc):
    for k, v in pc.items():
        g = ev.lit(k)
        if g is not None and g != v:
            return False
    return True


def post(ctx, fn, ev, p, delta, what, evs=None):
    """the invariant holds after the writes of path p and the size changed
    by `delta`"""
    c = ev.c
    st = {"Start": None, "Pos": None, "End": None, "Size": c.size(),
          "BlockIdx": c.k}
    if c.empty:
        st.update(Start="null", Pos="null", End="null")
    else:
        st.update(Start=("p", c.k, num(0)), Pos=("p", c.k, c.n),
                  End=("p", c.k, c.w))
    m = c.m
    for e in (p.ev if evs is None else evs):
        if e.kind == "write" and t2s(e.obj).startswith("this."):
            f = t2s(e.obj)[5:]
            if f in st:
                st[f] = ev.val(e.args[0])
                if st[f] is not None and st[f] == num(0) and f in (
                        "Start", "Pos", "End"):
                    st[f] = "null"
        elif e.kind == "call" and last(e.name) == "push_back" and \
                t2s(e.obj) == "this.Blocks":
            w = c.width(m) if not c.empty else num(32)
            a = e.args[0]
            ok = a[0] == "call" and last(a[1]) == "allocate" and \
                w is not None and zeq(ev.val(a[3][-1]), w)
            ctx.ob("sv-width", ok, e.where(), "%s: block %s gets %s elements"
                   " instead of %s (%s)" % (what, aff_s(m), t2s(
                       a[3][-1]) if a[0] == "call" else t2s(a),
                       w and aff_s(w), c.name), fn.qn)
            m = m.plus(num(1))
    k = st["BlockIdx"]
    z = what + " (" + c.name + ")"
    if not isinstance(k, Aff):
        ctx.ob("sv-inv", False, where(fn), "%s: BlockIdx unknown" % z, fn.qn)
        return st
    if st["Start"] == st["Pos"] == st["End"] == "null":
        ctx.ob("sv-inv", zeq(m, num(0)) and zeq(st["Size"], num(0)) and
               zeq(k, num(0)), where(fn), "%s: no current block, but size "
               "%s" % (z, aff_s(st["Size"])), fn.qn)
        return st
    w = c.width(k)
    if c.empty:
        w = num(32) if zeq(k, num(0)) else None
    ok = w is not None
    for f, off in (("Start", num(0)), ("End", w or num(0))):
        v = st[f]
        g = ok and isinstance(v, tuple) and v[0] == "p" and zeq(v[1], k) \
            and zeq(v[2], off)
        ctx.ob("sv-inv", g, where(fn), "%s: %s is %s, expected block %s + %s"
               % (z, f, ptr(v), aff_s(k), aff_s(off)), fn.qn)
    v = st["Pos"]
    g = isinstance(v, tuple) and v[0] == "p" and zeq(v[1], k)
    ctx.ob("sv-inv", g, where(fn), "%s: Pos is %s, outside block %s" % (
        z, ptr(v), aff_s(k)), fn.qn)
    d = m.plus(k, -1)
    ctx.ob("sv-inv", ev.rel(d) == ">", where(fn), "%s: BlockIdx %s is not an"
           " allocated block" % (z, aff_s(k)), fn.qn)
    if not g or not ok:
        return st
    n = v[2]
    lo = ev.rel(n)
    ctx.ob("sv-inv", lo == ">" or zeq(k, num(0)) and lo in ("=", ">="),
           where(fn), "%s: the current block may be left empty (n = %s)" % (
               z, aff_s(n)), fn.qn)
    ctx.ob("sv-inv", ev.rel(n.plus(w, -1)) in ("<", "=", "<="), where(fn),
           "%s: Pos is beyond the end of the block (n = %s)" % (z, aff_s(n)),
           fn.qn)
    base = num(0) if zeq(k, num(0)) else w
    ctx.ob("sv-inv", zeq(st["Size"], base.plus(n)), where(fn), "%s: Size is "
           "%s, but the blocks hold %s elements" % (
               z, aff_s(st["Size"]), aff_s(base.plus(n))), fn.qn)
    want = c.size().plus(delta) if delta is not None else num(0)
    ctx.ob("sv-size", zeq(st["Size"], want), where(fn), "%s: the size becomes"
           " %s instead of %s" % (z, aff_s(st["Size"]), aff_s(want)), fn.qn)
    return st


def stable(ctx, F):
    sv_emplace(ctx, F)
    sv_pop(ctx, F)
    sv_clear(ctx, F)
    sv_shrink(ctx, F)
    sv_access(ctx, F)
    sv_walk(ctx, F)


def sv_emplace(ctx, F):
    for fn in fns(F, V + "emplace_back", SVH):
        ps = live(ctx.summary(F, fn, versions=True))
        for c in classes():
            ev = Eval(c)
            n = 0
            for p in ps:
                if not feas(ev, p.pc):
                    continue
                n += 1
                post(ctx, fn, ev, p, num(1), "emplace_back")
                full = c.empty or zeq(c.n, c.w)
                k = num(0) if c.empty else c.k.plus(num(1)) if full else c.k
                want = ("p", k, num(0) if full else c.n)
                cons = [e for e in p.ev if e.kind == "call" and
                        last(e.name) in ("construct", "construct_at")]
                got = [ev.val(e.args[1 if last(e.name) == "construct"
                                     else 0]) for e in cons]
                ctx.ob("sv-place", len(got) == 1 and got[0] == want,
                       where(fn), "emplace_back (%s) constructs at %s "
                       "instead of %s" % (c.name, [ptr(g) for g in got],
                                          ptr(want)), fn.qn)
                r = p.ret
                g = ev.val(r[1]) if r and r[0] == "deref" else \
                    ev.val(("idx",) + tuple(r[1:])) if r and r[0] == "idx" \
                    else None
                ctx.ob("sv-place", g is not None and g[1:] == want[1:],
                       where(fn), "emplace_back (%s) returns %s, the new "
                       "element is at %s" % (c.name, t2s(r), ptr(want)),
                       fn.qn)
            ctx.ob("sv-total", n > 0, where(fn), "emplace_back: no path for "
                   + c.name, fn.qn)


def destroyed(ev, p):
    out = []
    for e in p.ev:
        if e.kind != "call":
            continue
        l = last(e.name)
        if l == "destroy_at" and len(e.args) == 1:
            a = ev.val(e.args[0])
            out.append((a, ev.arith("+", a, num(1))))
        elif l == "destroy_n":
            a = ev.val(e.args[0])
            out.append((a, ev.arith("+", a, ev.val(e.args[1]))))
        elif l == "destroy" and len(e.args) == 2:
            out.append((ev.val(e.args[0]), ev.val(e.args[1])))
        elif l == "destroy" and len(e.args) == 2 + 1:
            out.append((ev.val(e.args[1]), ev.val(e.args[2])))
    return out


def sv_pop(ctx, F):
    for fn in fns(F, V + "pop_back", SVH):
        ps = live(ctx.summary(F, fn, versions=True))
        for c in classes(True):
            ev = Eval(c)
            n = 0
            for p in ps:
                if not feas(ev, p.pc):
                    continue
                n += 1
                post(ctx, fn, ev, p, num(-1), "pop_back")
                d = destroyed(ev, p)
                w = ("p", c.k, c.n.plus(num(-1))), ("p", c.k, c.n)
                ctx.ob("sv-destroy", d == [w], where(fn), "pop_back (%s) "
                       "destroys %s instead of the last element" % (
                           c.name, [ptr(x[0]) for x in d]), fn.qn)
            ctx.ob("sv-total", n > 0, where(fn), "pop_back: no path for "
                   + c.name, fn.qn)
    for fn in fns(F, V + "pop_back_n", SVH):
        ps = live(ctx.summary(F, fn, versions=True))
        seen = set()
        for p in ps:
            ls = [e.loop for e in p.ev if e.kind == "loop"]
            if not ls:
                ctx.ob("sv-popn", any(x in lits(p.pc) for x in (
                    "!$0", "($0 == 0)")), where(fn), "pop_back_n does "
                    "nothing when %s" % lits(p.pc), fn.qn)
                continue
            for l in ls:
                if l.id in seen or not any(True for _ in items(l.paths)):
                    continue
                seen.add(l.id)
                popn(ctx, fn, l)


def popn(ctx, fn, l):
    """one round: pops min(N, n) elements and N shrinks by as many"""
    iv = [k for k, v in l.entry.items() if t2s(v) == "$0"]
    ctx.ob("sv-popn", len(iv) == 1, where(fn), "no counter that starts with "
           "N", fn.qn)
    for i in iv:
        for c in classes(True):
            for rel in "<=>":
                # the counter: below, equal to or above the elements in the
                # current block
                if rel == "<" and zeq(c.n, num(1)):
                    continue
                if rel == ">" and zeq(c.k, num(0)):
                    continue              # Size >= N
                v = {"<": sym("v"), "=": c.n, ">": c.n.plus(sym("v"))}[rel]
                ev = PopEval(c, {t2s(i): v}, rel)
                n = 0
                for p in l.paths:
                    if p.exit == "noreturn" or not feas(ev, p.pc):
                        continue
                    n += 1
                    k = v if rel == "<" else c.n
                    post(ctx, fn, ev, p, Aff({a: -b for a, b in k.items()}),
                         "pop_back_n, N %s n" % rel)
                    d = destroyed(ev, p)
                    w = ("p", c.k, c.n.plus(k, -1)), ("p", c.k, c.n)
                    ctx.ob("sv-destroy", d == [w], where(fn), "pop_back_n "
                           "(%s) destroys [%s, %s) instead of [%s, %s)" % (
                               (c.name,) + tuple(map(ptr, (d or [
                                   (None, None)])[0])) + tuple(map(ptr, w))),
                           fn.qn)
                    ctx.ob("sv-popn", (rel == "<") <= (p.exit == "return" or
                                                       p.exit == "break"),
                           where(fn), "pop_back_n goes on after the last "
                           "element (%s)" % c.name, fn.qn)
                ctx.ob("sv-total", n > 0 or rel != "<", where(fn),
                       "pop_back_n: no path for %s, N %s n" % (c.name, rel),
                       fn.qn)
                for kd, vals, pc in l.carry:
                    if not feas(ev, pc):
                        continue
                    nv = ev.val(vals[i]) if i in vals else v
                    left = v.plus(c.n, -1)
                    if kd == "next":
                        ctx.ob("sv-popn", rel != "<" and zeq(nv, left) and
                               (rel == ">" or l.kind != "do"),
                               where(fn), "pop_back_n goes on with %s "
                               "instead of %s (%s)" % (
                                   aff_s(nv) if nv else nv, aff_s(left),
                                   c.name), fn.qn)
                for pc in l.exits:
                    if feas(ev, pc):
                        ctx.ob("sv-popn", rel == "=", where(fn),
                               "pop_back_n ends before N elements are gone "
                               "(%s)" % c.name, fn.qn)


class PopEval(Eval):
    """0 < v < n (rel '<'), N = n (rel '='), N = n + v (rel '>')"""

    def __init__(self, c, extra, r):
        super().__init__(c, extra)
        self.r = r

    def rel(self, a):
        if self.r == "<" and a.get("v"):
            # v = n - u, u >= 1
            f = a["v"]
            b = Aff({k: x for k, x in a.items() if k != "v"}).plus(
                self.c.n, f)
            r = Eval.rel(self, b)
            s = Eval.rel(self, Aff({k: x for k, x in a.items()
                                    if k != "v"}))
            # b - f*u with u in [1, n-1]: between b - f and s + f
            lo, hi = b.plus(num(-f)), s
            r1 = Eval.rel(self, b.plus(num(-f)))
            r2 = Eval.rel(self, Aff({k: x for k, x in a.items()
                                     if k != "v"}).plus(num(f)))
            if r1 == r2:
                return r1
            if {r1, r2} <= {">", "=", ">="}:
                return ">="
            if {r1, r2} <= {"<", "=", "<="}:
                return "<="
            return None
        return Eval.rel(self, a)


def sv_clear(ctx, F):
    for fn in fns(F, V + "clear", SVH):
        ps = live(ctx.summary(F, fn, versions=True))
        for c in classes():
            ev = Eval(c)
            n = 0
            for p in ps:
                if not feas(ev, {k: v for k, v in p.pc.items()
                                 if "?" not in t2s(k)}):
                    continue
                n += 1
                post(ctx, fn, ev, p, None, "clear")
                d = destroyed(ev, p)
                w = (("p", c.k, num(0)), ("p", c.k, c.n)) if not c.empty \
                    else ("null", "null")
                ctx.ob("sv-destroy", d == [w], where(fn), "clear (%s) "
                       "destroys %s of the current block" % (
                           c.name, [(ptr(x), ptr(y)) for x, y in d]), fn.qn)
            ctx.ob("sv-total", n > 0, where(fn), "clear: no path for " +
                   c.name, fn.qn)
        full_blocks(ctx, fn, ps, ["destroy_n"])
    for fn in F.find(V + "(dtor)") if has(F, V + "(dtor)") else \
            fns(F, V + "~StableVector", SVH):
        ps = live(ctx.summary(F, fn, versions=True))
        full_blocks(ctx, fn, ps, ["destroy_n", "deallocate"])
        for p in ps:
            ls = [e.loop for e in p.ev if e.kind == "loop"]
            de = [l for l in ls if any(last(it.ev.name) == "deallocate"
                                       for it in items(l.paths))]
            cur = [e for e in p.ev if e.kind == "call" and
                   last(e.name) == "destroy"]
            ctx.ob("sv-dtor", len(cur) == 1 and [t2s(a) for a in
                                                 cur[0].args[-2:]] ==
                   ["this.Start", "this.Pos"], where(fn), "the elements of "
                   "the last block are not destroyed", fn.qn)
            ctx.ob("sv-dtor", len(de) == 2, where(fn), "%d loops free blocks"
                   % len(de), fn.qn)
            for l in de[1:]:
                tail_blocks(ctx, fn, l, de[0])


def has(F, qn):
    return any(f.qn == qn and f.body is not None for f in F.all_fns())


def full_blocks(ctx, fn, ps, ops):
    """loop over blocks 0 .. BlockIdx - 1 whose elements are all handled:
    Cap, Total run 32,32 -> 32,64 -> 64,128 -> ..."""
    seen = set()
    for p in ps:
        ls = [e.loop for e in p.ev if e.kind == "loop" and any(
            last(it.ev.name) in ops for it in items(e.loop.paths))]
        ctx.ob("sv-blocks", len(ls) >= 1, where(fn), "%s does not handle the"
               " full blocks" % fn.qn, fn.qn)
        for l in ls[:1]:
            if l.id in seen:
                continue
            seen.add(l.id)
            block_loop(ctx, fn, l, ops, "this.BlockIdx")


def block_loop(ctx, fn, l, ops, bound, root="this"):
    i, cap, tot = roles(ctx, fn, l)
    if i is None:
        return
    I, C = t2s(i), t2s(cap)
    ctx.ob("sv-blocks", t2s(l.entry[i]) == "0" and all(
        "!(%s < %s)" % (I, bound) in lits(pc) or
        "(%s == %s)" % (I, bound) in lits(pc) or
        "(%s == %s)" % (bound, I) in lits(pc) for pc in l.exits),
        where(fn), "%s: not every block before the current one is visited: "
        "from %s until %s" % (fn.qn, t2s(l.entry[i]), [
            lits(pc) for pc in l.exits]), fn.qn)
    for q in l.paths:
        if q.exit == "return":
            continue
        for o in ops:
            cs = [e for e in q.ev if e.kind == "call" and last(e.name) == o]
            blk = r"(elem\(%s\.Blocks\)|%s\.Blocks\[%s\])" % (
                root, root, re.escape(I))
            ok = len(cs) == 1 and (o == "allocate" or any(
                re.fullmatch(blk, t2s(a)) for a in cs[0].args)) and \
                t2s(cs[0].args[-1] if o != "uninitialized_copy_n" else
                    cs[0].args[1]) == C
            ctx.ob("sv-blocks", ok, where(fn), "%s: %s of a full block: %s" %
                   (fn.qn, o, [e.s() for e in cs]), fn.qn)


def roles(ctx, fn, l, need_total=True):
    """(index, capacity, running total) of a block loop; checks how they
    advance"""
    i = cap = tot = None
    nx = [vals for k, vals, pc in l.carry if k == "next"]
    for v in l.entry:
        if nx and all(t2s(x.get(v)) in ("(%s + 1)" % t2s(v),) or
                      v[0] == "ind" for x in nx):
            i = v
    for v in l.entry:
        for w in l.entry:
            if v == i or w == i or v == w or not nx:
                continue
            if all(x.get(v) == w for x in nx):
                cap, tot = v, w
    dbl = tot is not None and all(t2s(x.get(tot)) in (
        "(%s << 1)" % t2s(tot), "(%s * 2)" % t2s(tot),
        "(2 * %s)" % t2s(tot), "(%s + %s)" % (t2s(tot), t2s(tot)))
        for x in nx)
    ok = i is not None and dbl and t2s(l.entry[cap]) == "32" and \
        t2s(l.entry[tot]) == "32"
    ctx.ob("sv-blocks", ok, where(fn), "%s: the block sizes of the loop are "
           "not 32, 32, 64, ...: %s" % (fn.qn, {
               t2s(k): t2s(v) for k, v in l.entry.items()}), fn.qn)
    return (i, cap, tot) if ok else (None, None, None)


def tail_blocks(ctx, fn, l, first):
    """the remaining blocks are freed with the capacities that continue the
    sequence of the first loop"""
    ok = False
    nx = [vals for k, vals, pc in l.carry if k == "next"]
    for i, en in l.entry.items():
        if t2s(en) != "this.BlockIdx":
            continue
        for cap in l.entry:
            for tot in l.entry:
                if len({i, cap, tot}) < 3 or not all(
                        x.get(cap) == tot and t2s(x.get(tot)) in (
                            "(%s << 1)" % t2s(tot), "(%s * 2)" % t2s(tot))
                        for x in nx):
                    continue
                a = {t2s(e.args[-1]) for it in items(l.paths)
                     for e in [it.ev] if last(e.name) == "deallocate"}
                ok |= a == {t2s(cap)} and len(first.entry) >= 3
    ctx.ob("sv-dtor", ok, where(fn), "the spare blocks are not freed with "
           "their own sizes", fn.qn)
    for pc in l.exits:
        L = lits(pc)
        ctx.ob("sv-dtor", any("this.Blocks.size()" in x for x in L),
               where(fn), "not every spare block is freed: %s" % L, fn.qn)


def sv_shrink(ctx, F):
    for fn in fns(F, V + "shrink_to_fit", SVH):
        ps = live(ctx.summary(F, fn, versions=True))
        for c in classes():
            ev = Eval(c)
            n = 0
            for p in ps:
                if not feas(ev, {k: v for k, v in p.pc.items()
                                 if "?" not in t2s(k)}):
                    continue
                n += 1
                ls = [e.loop for e in p.ev if e.kind == "loop"]
                fr = [e for e in p.ev if e.kind == "call" and
                      last(e.name) == "deallocate"]
                rs = [e for e in p.ev if e.kind == "call" and last(
                    e.name) in ("resize", "truncate", "clear") and
                    t2s(e.obj) == "this.Blocks"]
                if not ls:
                    ctx.ob("sv-shrink", not fr and not rs and not c.spare,
                           where(fn), "shrink_to_fit (%s) does nothing" %
                           c.name, fn.qn)
                    continue
                zero = zeq(c.size(), num(0))
                keep = num(0) if zero else c.k.plus(num(1))
                ctx.ob("sv-shrink", len(rs) == 1 and keeps(
                    ev, rs[0], keep, zero), where(fn), "shrink_to_fit (%s) "
                    "keeps %s blocks instead of %s" % (
                        c.name, [e.s() for e in rs], aff_s(keep)), fn.qn)
                ok = not fr if not zero else len(fr) == 1 and ev.val(
                    fr[0].args[1]) == ("p", num(0), num(0)) and zeq(
                        ev.val(fr[0].args[2]), num(32))
                ctx.ob("sv-shrink", ok, where(fn), "shrink_to_fit (%s) frees"
                       " %s" % (c.name, [e.s() for e in fr]), fn.qn)
                w = {t2s(e.obj): ev.val(e.args[0]) for e in p.ev
                     if e.kind == "write"}
                if zero:
                    for f in ("Start", "Pos", "End"):
                        ctx.ob("sv-dangle", w.get("this." + f) in (
                            "null", num(0)), where(fn), "shrink_to_fit "
                            "frees the current block, but %s still points "
                            "to it" % f, fn.qn)
                else:
                    ctx.ob("sv-shrink", not w, where(fn), "shrink_to_fit "
                           "(%s) writes %s" % (c.name, sorted(w)), fn.qn)
                for l in ls:
                    en = [(k, ev.val(v)) for k, v in l.entry.items()]
                    ix = [k for k, v in en if isinstance(v, Aff) and
                          zeq(v, c.k.plus(num(1)))]
                    wd = c.width(c.k.plus(num(1)))
                    cp = [k for k, v in en if isinstance(v, Aff) and
                          zeq(v, wd)]
                    good = False
                    for i in ix:
                        for q in cp:
                            if i == q:
                                continue
                            I, Q = t2s(i), t2s(q)
                            good |= all(
                                t2s(x.get(i)) == "(%s + 1)" % I and
                                t2s(x.get(q)) in ("(%s << 1)" % Q,
                                                  "(%s * 2)" % Q)
                                for k, x, pc in l.carry if k == "next") and \
                                all(any(r in lits(pc) for r in (
                                    "!(%s < this.Blocks.size())" % I,
                                    "(%s == this.Blocks.size())" % I))
                                    for pc in l.exits) and all(
                                    [e.s() for e in y.ev if last(
                                        e.name) == "deallocate"] ==
                                    ["std::allocator_traits::deallocate(this"
                                     ".Alloc, this.Blocks[%s], %s)" % (I, Q)]
                                    for y in l.paths)
                    ctx.ob("sv-shrink", good, where(fn), "shrink_to_fit (%s)"
                           " does not free exactly the spare blocks with "
                           "their sizes" % c.name, fn.qn)
            ctx.ob("sv-total", n > 0, where(fn), "shrink_to_fit: no path for"
                   " " + c.name, fn.qn)


def keeps(ev, e, keep, zero):
    if last(e.name) == "clear":
        return zero
    v = ev.val(e.args[0])
    if v is None:
        # BlockIdx + (Size != 0)
        s = t2s(e.args[0])
        s2 = re.sub(r"not\(\(this\.Size == 0\)\)|\(0 < this\.Size\)",
                    "FLAG", s)
        a = {"(this.BlockIdx + FLAG)", "(FLAG + this.BlockIdx)"}
        return s2 in a
    return zeq(v, keep)


def sv_access(ctx, F):
    for n in ("operator[]",):
        for fn in fns(F, V + n, SVH, 2):
            ps = live(ctx.summary(F, fn))
            big = 0
            for p in ps:
                L, r = lits(p.pc), t2s(p.ret)
                small = any(x in L for x in ("($0 < 32)", "!(31 < $0)"))
                if small:
                    ok = r == "this.Blocks[0][$0]"
                else:
                    big += 1
                    lg = r"(?:llvm::)?Log2_64\(\$0\)"
                    ok = re.fullmatch(
                        r"this\.Blocks\[\((%s) - 4\)\]\[\(\$0 - \(1 << "
                        r"(%s)\)\)\]" % (lg, lg), r) and (
                        "!($0 < 32)" in L or "(31 < $0)" in L)
                ctx.ob("sv-index", bool(ok), where(fn), "[i] is %s when %s" %
                       (r, L), fn.qn)
            ctx.ob("sv-index", big > 0 and len(ps) > big, where(fn),
                   "[i]: a case is missing", fn.qn)
    for n, want in (("front", ["*this.Blocks[0]", "*this.Blocks.front()"]),
                    ("back", ["this.Pos[-1]", "*(this.Pos - 1)"]),
                    ("size", ["this.Size"]),
                    ("empty", ["(this.Size == 0)"])):
        for fn in fns(F, V + n, SVH):
            for p in live(ctx.summary(F, fn)):
                r = t2s(p.ret)
                L = lits(p.pc)
                ok = r in want or r in ("true", "false") and (
                    want[0] if r == "true" else "!" + want[0]) in L
                ctx.ob("sv-" + n, ok, where(fn), "%s() is %s" % (n, r),
                       fn.qn)
    for fn in fns(F, V + "pop_back_val", SVH):
        ps = live(ctx.summary(F, fn, stop=["pop_back"]))
        for p in ps:
            cs = [e for e in p.ev if e.kind == "call" and
                  last(e.name) == "pop_back"]
            ctx.ob("sv-popval", len(cs) == 1 and t2s(p.ret) in (
                "this.Pos[-1]", "*(this.Pos - 1)"), where(fn),
                "pop_back_val returns %s" % t2s(p.ret), fn.qn)
    for fn in F.find("psr::operator=="):
        if not fn.file.endswith("StableVector.h"):
            continue
        ps = live(ctx.summary(F, fn))
        sv_eq(ctx, fn, ps)
    for fn in F.find("psr::operator!="):
        if fn.file.endswith("StableVector.h"):
            negated(ctx, "sv-ne", fn, live(ctx.summary(
                F, fn, stop=["psr::operator=="])))
    for fn in fns(F, V + "swap", SVH):
        for p in live(ctx.summary(F, fn)):
            got = [sorted(t2s(a) for a in e.args) for e in p.ev
                   if e.kind == "call" and last(e.name) == "swap"]
            fs = {"Blocks", "Start", "Pos", "End", "Size", "BlockIdx"}
            ok = {a[1][5:] for a in got if len(a) == 2 and
                  a[0] == "$0." + a[1][5:]} >= fs and len(got) <= 7
            ctx.ob("sv-swap", ok, where(fn), "swap does not exchange "
                   "everything: %s" % got, fn.qn)


def sv_eq(ctx, fn, ps):
    seen = set()
    kinds = set()
    for p in ps:
        L, r = lits(p.pc), t2s(p.ret)
        ne = "!($0.Size == $1.Size)" in L or "!($1.Size == $0.Size)" in L
        emp = any(x in L for x in ("($0.Size == 0)", "($1.Size == 0)"))
        ls = [e.loop for e in p.ev if e.kind == "loop"]
        cur = r"std::equal\(\$(\d)\.Start, \$\1\.Pos, \$(?!\1)\d\.Start\)"
        blk = [l for l in L if re.match(r"!std::equal\(", l)]
        if ne:
            kinds.add("size")
            ctx.ob("sv-eq", r == "false", where(fn), "vectors of different "
                   "sizes compare %s" % r, fn.qn)
        elif emp:
            ctx.ob("sv-eq", r == "true", where(fn), "empty vectors compare "
                   "%s" % r, fn.qn)
        elif r == "false":
            ctx.ob("sv-eq", bool(blk), where(fn), "equal although %s" % L,
                   fn.qn)
        else:
            ok = re.fullmatch(cur, r) or r == "true" and any(
                re.fullmatch(cur, x) for x in L)
            ctx.ob("sv-eq", bool(ok) and len(ls) == 1, where(fn), "equality "
                   "is decided by %s when %s" % (r, L), fn.qn)
            kinds.add("all")
        for l in ls:
            if l.id in seen:
                continue
            seen.add(l.id)
            i, cap, tot = roles(ctx, fn, l)
            if i is None:
                continue
            I, C = t2s(i), t2s(cap)
            ctx.ob("sv-eq", t2s(l.entry[i]) == "0" and all(any(
                re.fullmatch(r"!\(%s < \$\d\.BlockIdx\)" % re.escape(I), x)
                for x in lits(pc)) for pc in l.exits), where(fn), "not every"
                " full block is compared", fn.qn)
            # the extractor names the left block as an element of Blocks
            for k, vals, pc in l.carry:
                if k != "next":
                    continue
                b = r"(?:elem\(\$%s\.Blocks\)|\$%s\.Blocks\[" + \
                    re.escape(I) + r"\])"
                good = any(re.fullmatch(
                    r"std::equal\(%s, \(%s \+ %s\), %s\)" % (
                        b % (x, x), b % (x, x), re.escape(C), b % (y, y)), t)
                    for t in lits(pc) for x, y in ("01", "10"))
                ctx.ob("sv-eq", good, where(fn), "a block is compared with "
                       "%s" % lits(pc), fn.qn)
    ctx.ob("sv-eq", kinds == {"size", "all"}, where(fn), "a case is missing:"
           " %s" % kinds, fn.qn)


def sv_walk(ctx, F):
    """iteration: block after block, the last one only up to Pos"""
    for fn in fns(F, V + "Iterator::operator++", SVH):
        if fn.ps:
            continue
        ps = live(ctx.summary(F, fn))
        nx = r"\(this\.It \+ 1\)"
        lasts = ("(this.OuterEnd - 1)", "(this.Outer + 1)")
        seen = set()
        for p in ps:
            L = {re.sub(r"__builtin_expect\((.*), (true|false)\)", r"\1",
                        x) for x in lits(p.pc)}
            w = {}
            for e in p.ev:
                if e.kind == "write":
                    w[t2s(e.obj)] = t2s(e.args[0])
            inside = "not((this.ItEnd == (this.It + 1)))" in L or \
                "!(this.ItEnd == (this.It + 1))" in L
            atlast = "(this.Outer == (this.OuterEnd - 1))" in L or \
                "((this.OuterEnd - 1) == this.Outer)" in L
            tail = "((this.Outer + 1) == (this.OuterEnd - 1))" in L
            if inside:
                k, want = "in", {"this.It": "(this.It + 1)"}
            elif atlast:
                k, want = "end", {"this.It": "null"}
            else:
                o = "*(this.Outer + 1)"
                want = {"this.It": o, "this.Outer": "(this.Outer + 1)"}
                if tail:
                    k = "tail"
                    want["this.ItEnd"] = "this.Pos"
                else:
                    k = "main"
                    want["this.ItEnd"] = "(%s + this.Total)" % o
                    want["this.Total"] = "(this.Total << 1)"
                    if w.get("this.Total") in ("(this.Total * 2)",
                                               "(this.Total + this.Total)"):
                        w["this.Total"] = want["this.Total"]
            seen.add(k)
            ctx.ob("sv-iter", w == want, where(fn), "++it (%s) does %s "
                   "instead of %s" % (k, w, want), fn.qn)
        ctx.ob("sv-iter", seen == {"in", "end", "tail", "main"}, where(fn),
               "++it: cases %s" % sorted(seen), fn.qn)
    bk = "begin(this.Blocks)"
    stop_ = {"((%s + this.BlockIdx) + 1)" % bk, "(%s + (this.BlockIdx + 1))" %
             bk, "(%s + (1 + this.BlockIdx))" % bk}
    for n in ("begin", "cbegin", "end", "cend"):
        for fn in fns(F, V + n, SVH):
            cases = set()
            for p in live(ctx.summary(F, fn)):
                r, L = t2s(p.ret), lits(p.pc)
                emp = "(this.Size == 0)" in L
                cases.add(emp)
                e = any(r == "Iterator{%s, %s, null}" % (x, x)
                        for x in stop_)
                b = any(r == "Iterator{%s, %s, this.Pos}" % (bk, x)
                        for x in stop_)
                ctx.ob("sv-begin", e if emp or n.endswith("end") else b,
                       where(fn), "%s() is %s when %s" % (n, r, L), fn.qn)
            if n.endswith("begin"):
                ctx.ob("sv-begin", cases == {True, False}, where(fn), "%s() "
                       "of an empty vector is not its end()" % n, fn.qn)
    for fn in F.find(V + "Iterator::(ctor)"):
        ps = live(ctx.summary(F, fn))
        if len(fn.ps) != 3:
            for p in ps:
                w = {t2s(e.obj)[5:]: t2s(e.args[0]) for e in p.ev
                     if e.kind == "write"}
                ctx.ob("sv-iter", all(v == "$0." + k for k, v in w.items())
                       and (not w or len(w) == 6), where(fn), "an iterator "
                       "is converted to %s" % w, fn.qn)
            continue
        for p in ps:
            L = lits(p.pc)
            w = {t2s(e.obj)[5:]: t2s(e.args[0]) for e in p.ev
                 if e.kind == "write"}
            none = "($0 == $1)" in L or "($1 == $0)" in L
            one = "(($1 - 1) == $0)" in L or "($0 == ($1 - 1))" in L or \
                "(($0 + 1) == $1)" in L
            want = {"Outer": "$0", "OuterEnd": "$1", "Pos": "$2",
                    "Total": "32", "It": "null" if none else "*$0",
                    "ItEnd": "null" if none else "$2" if one else
                    "(*$0 + 32)"}
            ctx.ob("sv-iter", w == want, where(fn), "a new iterator is %s "
                   "instead of %s when %s" % (w, want, L), fn.qn)
    for fn in F.find(V + "Iterator::operator=="):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("sv-iter", t2s(p.ret) in ("($0.It == this.It)",
                                             "(this.It == $0.It)"),
                   where(fn), "iterators are equal when %s" % t2s(p.ret),
                   fn.qn)
    for fn in F.find(V + "(ctor)"):
        if len(fn.ps) == 1 and "StableVector" in fn.ps[0][2]:
            ps = live(ctx.summary(F, fn))
            if "&&" in fn.ps[0][2]:
                sv_move(ctx, fn, ps)
            else:
                sv_copy(ctx, fn, ps)


def sv_move(ctx, fn, ps):
    for p in ps:
        w = {t2s(e.obj): t2s(e.args[0]) for e in p.ev if e.kind == "write"}
        for f, z in (("Start", "null"), ("Pos", "null"), ("End", "null"),
                     ("Size", "0"), ("BlockIdx", "0")):
            g = w.get("this." + f)
            ok = g == "std::exchange($0.%s, %s)" % (f, z) or \
                g == "$0." + f and w.get("$0." + f) == z
            ctx.ob("sv-move", ok, where(fn), "the moved-to vector gets %s := "
                   "%s, the moved-from one keeps %s" % (
                       f, g, w.get("$0." + f)), fn.qn)
        ctx.ob("sv-move", w.get("this.Blocks") in ("$0.Blocks",), where(fn),
               "the blocks are not taken over: %s" % w.get("this.Blocks"),
               fn.qn)


def sv_copy(ctx, fn, ps):
    """the copy has the shape of the original: block I gets the elements of
    block I and is as wide"""
    for p in ps:
        L = lits(p.pc)
        w = {t2s(e.obj)[5:]: t2s(e.args[0]) for e in p.ev
             if e.kind == "write"}
        ctx.ob("sv-copy", w.get("Size") == "$0.Size" and
               w.get("BlockIdx") == "$0.BlockIdx", where(fn), "the copy has "
               "size %s, block index %s" % (w.get("Size"),
                                            w.get("BlockIdx")), fn.qn)
        if "($0.Size == 0)" in L:
            ctx.ob("sv-copy", all(w.get(f) == "null" for f in (
                "Start", "Pos", "End")), where(fn), "the copy of an empty "
                "vector points to a block", fn.qn)
            continue
        ls = [e.loop for e in p.ev if e.kind == "loop"]
        ctx.ob("sv-copy", len(ls) == 1, where(fn), "%d loops" % len(ls),
               fn.qn)
        for l in ls:
            block_loop(ctx, fn, l, ["uninitialized_copy_n", "allocate"],
                       "$0.BlockIdx", r"\$0")
            i, cap, tot = roles(ctx, fn, l)
            if i is None:
                continue
            C = t2s(cap)
            for q in l.paths:
                a = [e.s() for e in q.ev if e.kind == "call" and
                     last(e.name) == "allocate"]
                c = [e for e in q.ev if e.kind == "call" and
                     last(e.name) == "uninitialized_copy_n"]
                b = [t2s(e.args[0]) for e in q.ev if e.kind == "call" and
                     last(e.name) == "push_back"]
                ctx.ob("sv-copy", len(a) == 1 and b == a and len(c) == 1 and
                       t2s(c[0].args[2]) == a[0], where(fn), "a full block "
                       "is not copied into its own new block: %s %s" % (
                           a, b), fn.qn)
            after = [e for e in p.ev[[k for k, e in enumerate(p.ev)
                                      if e.kind == "loop"][0]:]
                     if e.kind == "call"]
            a = [e.s() for e in after if last(e.name) == "allocate"]
            c = [[t2s(x) for x in e.args] for e in after
                 if last(e.name) == "uninitialized_copy"]
            b = [t2s(e.args[0]) for e in after
                 if last(e.name) == "push_back"]
            ok = len(a) == 1 and t2s([e for e in after if last(
                e.name) == "allocate"][0].args[-1]) == C and \
                c == [["$0.Start", "$0.Pos", a[0]]] and b == a
            ctx.ob("sv-copy", ok, where(fn), "the last block is not copied: "
                   "%s %s %s" % (a, c, b), fn.qn)
            if ok:
                for f, v in (("Start", [a[0]]),
                             ("End", ["(%s + %s)" % (a[0], C)]),
                             ("Pos", ["(%s + ($0.Pos - $0.Start))" % a[0]])):
                    ctx.ob("sv-copy", w.get(f) in v, where(fn), "the copy "
                           "has %s = %s" % (f, w.get(f)), fn.qn)
