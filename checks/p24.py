"""P24: what the solver computed is what its result queries return, and the
seeds a problem adds are the seeds the solver starts from."""
import re
from spec import *
from p12 import live, whole
from p20 import over, calls
from p16 import tri

EXPLAIN = ("Dataflow summaries of the result queries, the initial seeds and "
           "the default seeding, on the repository's own domains and on an "
           "opaque lattice: the entry of the value table every path reads is "
           "compared with the documented instruction, the copies may lose "
           "exactly the zero fact, and every forwarding query must pass its "
           "arguments in the roles the target gives them.")

TU = "results.cpp"
B = "psr::detail::SolverResultsBase::"
STOP = ["row", "get", "cellVec", "llvmIRToString", "addSeed", "sort",
        "getStartPointsOf", "NToString", "DToString", "LToString",
        "getFunctionName", "generateFlow", "bottomElement"]
SELF = r"(?:(?:SolverResults\{this\.\w+, this\.\w+\}|this)(?:\.self\(\))?)"
TAB = SELF + r"\.Results"
VOID = r"\$0\.getType\(\)\.isVoidTy\(\)"
LAST = r"\(\$0\.getNextNode\(\) == null\)|\$0\.isTerminator\(\)"
SUCC = r"successors\(\$0\)"
UNIQ = r"elem\(%s\)\.hasNPredecessors\(1\)" % SUCC
DEFAULT = r"\w+\{\}|\{0\}|0"
BOT = r"BinaryDomain::BOTTOM|.*bottom\(\)|Bottom\{\}"
MUT = re.compile(r"^(erase|clear|insert|emplace|try_emplace|erase_if|swap|"
                 r"insert_or_assign|remove|operator\[\]|extract|merge)$")


def fns(F, qn):
    return F.find(qn)


def first_of(s, L, bb):
    """s is the first real instruction of the block, given the literals"""
    b = re.escape(bb)
    front = r"(?:%s\.front\(\)|\*?%s\.begin\(\))" % (b, b)
    dbg = tri(L, r"isa<DbgInfoIntrinsic>\(&?%s\)" % front)
    if re.fullmatch(r"&?%s" % front, s):
        return dbg is False
    if re.fullmatch(r"%s\.getNextNonDebugInstruction\(.*\)" % front, s):
        return dbg is True
    return False


def key_of(t, name, more=()):
    """the instruction whose row/entry the text reads"""
    tail = "".join(", " + m for m in more)
    m = re.fullmatch(r"(?:%s)\.%s\((.*)%s\)" % (TAB, name, re.escape(tail)),
                     t)
    return m and m.group(1)


def site(ctx, rule, fn, p, name, more, overp, extra=()):
    """which entry the path reads, against the documented instruction;
    returns the case it handles"""
    L = lits(p.pc)
    v, n = tri(L, VOID), tri(L, LAST)
    u = tri(L, UNIQ)
    t = t2s(p.ret) if p.ret is not None else "-"
    k = key_of(t, name, more)
    w = where(fn)
    if v is True:
        ctx.ob(rule, k == "$0", w, "for an instruction without a value the "
               "result is %s, expected the one at the instruction" % t[:160],
               fn.qn)
        return "void"
    if v is False and n is False:
        ctx.ob(rule, k == "$0.getNextNode()", w, "for an instruction with a "
               "value the result is %s, expected the one at the next "
               "instruction" % t[:160], fn.qn)
        return "next"
    if v is False and n is True and u is True:
        ctx.ob(rule, k is not None and first_of(k, L, "elem(successors($0))"),
               w, "for a terminator with a value the result is %s, expected "
               "the one at the first instruction of the successor" % t[:160],
               fn.qn)
        return "uniq"
    if v is False and n is True:
        ctx.ob(rule, tri(L, re.escape(overp)) is True, w, "an approximation "
               "is returned although the caller did not allow it (%s)" %
               sorted(L)[:6], fn.qn)
        return "merge"
    ctx.ob(rule, False, w, "the result %s is returned without regard to "
           "whether the instruction yields a value or has a next one (%s)" %
           (t[:160], sorted(L)[:6]), fn.qn)
    return "?"


def stripped(ctx, rule, fn, p, strip, zero):
    """the returned copy loses the zero fact, if asked for, and nothing
    else"""
    L = lits(p.pc)
    s = tri(L, re.escape(strip))
    r = t2s(p.ret)
    mods = [it for it in items([p]) if it.ev.kind == "call" and
            it.ev.obj is not None and MUT.match(last(it.ev.name)) and
            t2s(it.ev.obj) == r and not it.loops]
    w = where(fn)
    er = [it for it in mods if last(it.ev.name) == "erase"]
    ok = len(er) == len(mods) <= 1 and all(
        re.fullmatch(r"(?:.*\bfind\((?:.*, )?)?%s\)?" % zero, t2s(it.ev.args[0]))
        for it in er)
    ctx.ob(rule, ok, w, "the returned results are changed: %s" %
           [it.ev.s()[:120] for it in mods], fn.qn)
    gone = any(re.search(r"^!.* has %s$|^!.*(contains|count)\(%s\)$|^\(.*find"
                         r"\(%s\) == .*end|^\(.*end\(.* == .*find\(%s\)" % (
                             (zero,) * 4), l) for l in L)
    if s is None:
        ctx.ob(rule, False, w, "stripping the zero fact does not depend on "
               "the argument", fn.qn)
    elif s:
        ctx.ob(rule, bool(er) or gone, w, "the zero fact is not stripped "
               "although asked for", fn.qn)
    else:
        ctx.ob(rule, not er, w, "the zero fact is stripped although not "
               "asked for", fn.qn)


def simple(ctx, F):
    kw = dict(stop=STOP)
    for fn in fns(F, B + "resultAt"):
        for p in live(ctx.summary(F, fn, **kw)):
            ctx.ob("row", key_of(t2s(p.ret), "get", ("$1",)) == "$0",
                   where(fn), "returns %s, not the entry of the statement "
                   "and the fact" % t2s(p.ret)[:160], fn.qn)
    for fn in fns(F, B + "resultsAt"):
        for p in live(ctx.summary(F, fn, **kw)):
            ctx.ob("row", key_of(t2s(p.ret), "row") == "$0", where(fn),
                   "returns %s, not the row of the statement" %
                   t2s(p.ret)[:160], fn.qn)
            if len(fn.ps) > 1:
                stripped(ctx, "strip", fn, p, "$1", r"(?:%s)\.ZV" % SELF)
            else:
                ctx.ob("strip", not [it for it in items([p]) if MUT.match(
                    last(it.ev.name or "")) and it.ev.kind == "call"],
                    where(fn), "the row is changed", fn.qn)
    for fn in fns(F, B + "getAllResultEntries"):
        for p in live(ctx.summary(F, fn, **kw)):
            ctx.ob("row", re.fullmatch(r"(?:%s)\.cellVec\(\)" % TAB,
                                       t2s(p.ret)), where(fn),
                   "returns %s, not all entries" % t2s(p.ret)[:160], fn.qn)
    for fn in fns(F, B + "ifdsResultsAt"):
        for p in live(ctx.summary(F, fn, **kw)):
            keys(ctx, fn, p, r"(?:%s)\.row\(\$0\)" % TAB)


def keys(ctx, fn, p, rows):
    """the returned set holds exactly the facts of the row"""
    w = where(fn)
    r = t2s(p.ret)
    ins = [it for it in items([p]) if it.ev.kind == "call" and
           it.ev.obj is not None and t2s(it.ev.obj) == r and
           MUT.match(last(it.ev.name))]
    ctx.ob("facts", len(ins) == 1 and len(ins[0].loops) == 1, w,
           "the facts are not collected in one pass over the row", fn.qn)
    for it in ins:
        m = re.fullmatch(r"elem\((%s)\)\.first" % rows,
                         t2s(it.ev.args[-1]))
        ctx.ob("facts", last(it.ev.name) in ("insert", "emplace") and
               m is not None, w, "the set receives %s by %s" % (
                   t2s(it.ev.args[-1])[:120], last(it.ev.name)), fn.qn)
        for l in it.loops:
            own = [x for q in l.paths for x in lits(q.pc)]
            ctx.ob("facts", whole(l) and not own, w, "not every fact of the "
                   "row is returned: %s" % own[:4], fn.qn)
            if m:
                c = t2s(l.container) if l.container is not None else None
                ctx.ob("facts", c in (None, m.group(1)), w,
                       "the loop runs over %s" % c, fn.qn)


def ssa(ctx, F):
    kw = dict(stop=STOP)
    for fn in fns(F, B + "resultsAtInLLVMSSA"):
        if fn.body is None:
            continue
        got = set()
        for p in live(ctx.summary(F, fn, **kw)):
            c = site(ctx, "ssa", fn, p, "row", (), "$1")
            got.add(c)
            stripped(ctx, "strip", fn, p, "$2", r"this\.ZV")
            if c == "merge":
                merged(ctx, fn, p)
        for c in ("void", "next", "uniq", "merge"):
            ctx.ob("ssa", c in got, where(fn), "the case '%s' is not handled"
                   % c, fn.qn)
    for fn in fns(F, B + "resultAtInLLVMSSA"):
        if fn.body is None:
            continue
        got = set()
        for p in live(ctx.summary(F, fn, **kw)):
            c = site(ctx, "ssa", fn, p, "get", ("$1",), "$2")
            got.add(c)
            if c == "merge":
                joined(ctx, fn, p)
        for c in ("void", "next", "uniq", "merge"):
            ctx.ob("ssa", c in got, where(fn), "the case '%s' is not handled"
                   % c, fn.qn)




def merged(ctx, fn, p):
    """the approximation holds every fact of every successor"""
    w = where(fn)
    r = t2s(p.ret)
    ins = 0
    for e in p.ev:
        if e.kind != "loop" or e.loop.container is None or \
                t2s(e.loop.container) != "successors($0)":
            continue
        if not any(x.ev.kind == "call" and x.ev.obj is not None and
                   t2s(x.ev.obj) == r for x in items(e.loop.paths)):
            continue
        ctx.ob("merge", whole(e.loop), w, "not all successors are merged",
               fn.qn)
        for q in live(e.loop.paths):
            inner = [x.loop for x in q.ev if x.kind == "loop"]
            ok = len(inner) == 1 and inner[0].container is not None and \
                whole(inner[0])
            ctx.ob("merge", ok, w, "not every entry of a successor is "
                   "merged", fn.qn)
            if not ok:
                continue
            c = t2s(inner[0].container)
            k = key_of(c, "row")
            ctx.ob("merge", k is not None and first_of(
                k, lits(q.pc), "elem(successors($0))"), w, "the approximation"
                " merges %s" % c[:160], fn.qn)
            for z in live(inner[0].paths):
                ins += 1
                one_entry(ctx, fn, z, r, c)
    ctx.ob("merge", ins > 0, w, "the results of the successors are not "
           "merged", fn.qn)


def one_entry(ctx, fn, z, r, c):
    w = where(fn)
    f, v = "elem(%s).first" % c, "elem(%s).second" % c
    ent = {"entry(%s, %s).second" % (r, f), "%s[%s]" % (r, f)}
    its = list(items([z]))
    ins = [it for it in its if it.ev.kind == "call" and it.ev.obj is not None
           and t2s(it.ev.obj) == r and last(it.ev.name) in (
               "try_emplace", "emplace", "insert")]
    ok = len(ins) == 1 and [t2s(a) for a in ins[0].ev.args] in (
        [f, v], ["pair{%s, %s}" % (f, v)], ["elem(%s)" % c])
    ctx.ob("merge", ok, w, "a fact of a successor is not entered with its "
           "value", fn.qn)
    L = lits(z.pc)
    new = [x for x in L if re.search(
        r"\.(try_emplace|emplace|insert)\(.*\)\.second$", x)]
    eq = [x for x in L if "==" in x]
    wr = [it for it in its if it.ev.kind == "write" and
          t2s(it.ev.obj) in ent]
    fresh = any(not x.startswith("!") for x in new)
    same = any(not x.startswith("!") for x in eq)
    if fresh or same and not wr:
        ctx.ob("merge", not wr or not fresh, w, "a new entry is changed",
               fn.qn)
        return
    ok = len(wr) == 1 and bool(new)
    ctx.ob("merge", ok, w, "a different value of another successor is "
           "ignored", fn.qn)
    for it in wr:
        vv = t2s(it.ev.args[0])
        k = "Opaque" if "OpaqueLattice" in vv or ".join(" in vv or \
            "::join(" in vv else "const"
        if k == "Opaque":
            m = re.fullmatch(r"JoinLatticeTraits(?:<.*>)?::join\((.*)\)", vv)
            args = m.group(1) if m else ""
            ctx.ob("merge", m is not None and any(
                args in (a + ", " + v, v + ", " + a) for a in ent), w,
                "the values are merged to %s" % vv[:200], fn.qn)
        else:
            ctx.ob("merge", vv in ("BinaryDomain::BOTTOM", "OwnLattice{}",
                                   "{0}"), w, "different values are merged to "
                   "%s" % vv[:160], fn.qn)


def joined(ctx, fn, p):
    """the approximation of one value joins the values of the successors"""
    w = where(fn)
    n = 0
    for it in items([p]):
        e = it.ev
        if e.kind != "call" or last(e.name) != "get" or \
                not re.fullmatch(TAB, t2s(e.obj)):
            continue
        n += 1
        k = t2s(e.args[0])
        m = re.match(r"&?(.*?)\.front\(\)", k)
        bb = m.group(1) if m else "?"
        # the caller's literals hold inside the loop as well
        ok = re.fullmatch(r"\*?succ_begin\(\$0\)|\*?\?v\d+|elem\(%s\)" % SUCC,
                          bb) and first_of(k, lits(it.pc), bb)
        ctx.ob("merge", ok and t2s(e.args[1]) == "$1", w, "the approximation "
               "reads %s" % e.s()[:200], fn.qn)
    t = t2s(p.ret)
    L = lits(p.pc)
    if re.fullmatch(DEFAULT,
                    t):
        none = any(re.search(r"succ_(begin|end)\(\$0\) == succ_(begin|end)\("
                             r"\$0\)|succ_empty\(\$0\)|empty\(succ", x) and
                   not x.startswith("!") for x in L)
        none |= any(x.startswith("!(") and "==" in x and ".get(" in x
                    for x in L)
        ctx.ob("merge", none, w, "a default value is returned although there "
               "are successors", fn.qn)
        return
    val = r"%s\.get\(.*, \$1\)" % TAB
    ok = re.fullmatch(val + r"|JoinLatticeTraits.*::join\(.*\)|\?v\d+|"
                      r"BinaryDomain::BOTTOM|OwnLattice\{\}|\{0\}", t)
    ctx.ob("merge", ok, w, "the approximation is %s" % t[:200], fn.qn)
    loops = [e.loop for e in p.ev if e.kind == "loop"][1:]
    ctx.ob("merge", len(loops) == 1, w, "the successors are not joined in "
           "one pass", fn.qn)
    for l in loops:
        for q in l.paths:
            if q.exit in ("break", "return"):
                G = lits(q.pc)
                bot = any(re.search(r"== (%s)\)$|^\((%s) ==" % (BOT, BOT), x) and
                          not x.startswith("!") for x in G)
                dif = any(x.startswith("!(") and ".get(" in x and "==" in x
                          for x in G)
                ctx.ob("merge", bot or dif, w, "the merge stops early when "
                       "%s" % sorted(G)[:4], fn.qn)
        for v, t0 in l.entry.items():
            if not re.match(r"\(?succ_begin\(\$0\)(?! ==)", t2s(t0)) or \
                    "." in t2s(t0) or t2s(t0).startswith("*"):
                continue
            ctx.ob("merge", t2s(t0) in ("succ_begin($0)",
                                        "(succ_begin($0) + 1)") and all(
                t2s(c.get(v, v)) == "(%s + 1)" % t2s(v)
                for kd, c, _ in l.carry if kd == "next"), w,
                "a successor is skipped", fn.qn)
        js = {t2s(x) for _, c, _ in l.carry for x in c.values()
              if "join(" in t2s(x)}
        if "JoinLatticeTraits" in str([p.ret, l.carry]) or js:
            ctx.ob("merge", bool(js), w, "the values are not joined", fn.qn)


FWD = {
    "psr::IDESolver::resultAt": ("resultAt", ("$0", "$1"), ()),
    "psr::IDESolver::resultsAt": ("resultsAt", ("$0", "$1"), ()),
    "psr::IDESolver::resultAtInLLVMSSA":
        ("resultAtInLLVMSSA", ("$0", "$1", "false"), ()),
    "psr::IDESolver::resultsAtInLLVMSSA":
        ("resultsAtInLLVMSSA", ("$0", "false", "$1"), ()),
    "psr::IDESolver::emitTextReport":
        ("emitTextReport", (r"<R>", "$0"), "this.IDEProblem"),
    "psr::IDESolver::emitGraphicalReport":
        ("emitGraphicalReport", (r"<R>", "$0"), "this.IDEProblem"),
    "psr::IDESolver::dumpResults":
        ("dumpResults", ("*this.ICF", "$0"), ()),
}
RES = r"SolverResults\{this\.ValTab, this\.ZeroValue\}"


def forwards(ctx, F):
    stop = [v[0] for v in FWD.values()] + ["getStartPointsOf"]
    for qn, (name, want, obj) in FWD.items():
        for fn in fns(F, qn):
            w = where(fn)
            for p in live(ctx.summary(F, fn, stop=stop)):
                got = [it for it in items([p]) if it.ev.kind == "call" and
                       last(it.ev.name) == name]
                ctx.ob("forward", len(got) == 1, w, "the query is not "
                       "answered by %s" % name, fn.qn)
                for it in got:
                    o = t2s(it.ev.obj) if it.ev.obj is not None else ""
                    ctx.ob("forward", o == obj if obj else
                           re.fullmatch(RES, o), w, "%s asks %s" % (
                               last(qn), o[:120]), fn.qn)
                    a = [t2s(x) for x in it.ev.args]
                    ok = len(a) >= len(want) and all(
                        re.fullmatch(RES, x) if y == "<R>" else
                        x in (y, y.lstrip("*")) for x, y in zip(a, want))
                    ctx.ob("forward", ok, w, "%s passes %s, expected %s" % (
                        last(qn), [x[:60] for x in a], list(want)), fn.qn)
                if p.ret is not None and "emit" not in qn and \
                        "dump" not in qn:
                    ctx.ob("forward", bool(got) and re.search(
                        r"\.%s\(" % name, t2s(p.ret)), w,
                        "returns %s" % t2s(p.ret)[:160], fn.qn)


def handles(ctx, F):
    for qn in ("psr::SolverResults::(ctor)", "psr::OwningSolverResults::"
               "(ctor)"):
        for fn in fns(F, qn):
            if len(fn.ps) != 2:
                continue
            for p in live(ctx.summary(F, fn)):
                for f, a in (("Results", "$0"), ("ZV", "$1")):
                    ws = [t2s(it.ev.args[0]) for it in items([p]) if
                          it.ev.kind == "write" and
                          t2s(it.ev.obj) == "this." + f]
                    ctx.ob("handle", ws == [a], where(fn), "%s is set to %s"
                           % (f, ws), fn.qn)
    for qn, rx in (
            ("psr::OwningSolverResults::get",
             r"SolverResults\{this\.Results, this\.ZV\}"),
            ("psr::IDESolver::getSolverResults", RES),
            ("psr::IDESolver::consumeSolverResults",
             r"OwningSolverResults\{this\.ValTab, this\.ZeroValue\}")):
        for fn in fns(F, qn):
            for p in live(ctx.summary(F, fn)):
                ctx.ob("handle", re.fullmatch(rx, t2s(p.ret)), where(fn),
                       "returns %s" % t2s(p.ret)[:160], fn.qn)
                # the results are handed out only after they were built
                mv = [i for i, e in enumerate(p.ev) if e.kind == "write" and
                      e.name == "clear"]
                ctx.ob("handle", not mv, where(fn), "results are dropped",
                       fn.qn)
    conv = [f for f in F.all_fns() if f.body is not None and
            f.qn.startswith("psr::OwningSolverResults::operator ")]
    ctx.ob("handle", bool(conv), "include/phasar/DataFlow/IfdsIde/"
           "SolverResults.h:0", "the conversion is gone", "conversion")
    for fn in conv:
        for p in live(ctx.summary(F, fn)):
            ctx.ob("handle", re.fullmatch(r"SolverResults\{this\.Results, "
                                          r"this\.ZV\}", t2s(p.ret)),
                   where(fn), "returns %s" % t2s(p.ret)[:160], fn.qn)
    for qn, cls in (("psr::solveIDEProblem", "IDESolver"),
                    ("psr::solveIFDSProblem", "IFDSSolver")):
        for fn in fns(F, qn):
            for p in live(ctx.summary(F, fn, stop=[
                    "solve", "consumeSolverResults", "(ctor)"])):
                ev = [e for e in p.ev if e.kind == "call"]
                i = [k for k, e in enumerate(ev) if last(e.name) == "solve"]
                j = [k for k, e in enumerate(ev) if last(e.name) ==
                     "consumeSolverResults" or "OwningSolverResults" in
                     e.name]
                ctx.ob("handle", len(i) == 1 and j and i[0] < j[0] and
                       re.match(r"%s(<.*>)?\{\$0, &\$1\}" % cls,
                                t2s(ev[i[0]].obj)), where(fn),
                       "the problem is not solved before its results are "
                       "taken", fn.qn)


def dump(ctx, F):
    """every entry of the table is printed with its own parts"""
    for fn in fns(F, B + "dumpResults"):
        w = where(fn)
        full = 0
        for p in live(ctx.summary(F, fn, stop=STOP)):
            L = lits(p.pc)
            if tri(L, r"empty\((?:%s)\.cellVec\(\)\)" % TAB) is True:
                continue
            for e in p.ev:
                if e.kind != "loop":
                    continue
                if not any("elem" in x.ev.s() for x in items(e.loop.paths)):
                    continue
                full += 1
                ctx.ob("dump", whole(e.loop), w, "not every entry is "
                       "printed", fn.qn)
                for q in live(e.loop.paths):
                    s = " ".join(x.ev.s() for x in items([q]))
                    el = r"elem\((?:%s)\.cellVec\(\)\)" % TAB
                    for part, rx in (
                            ("fact", r"DToString\(%s\.(Column|getColumnKey"
                             r"\(\))\)" % el),
                            ("value", r"(LToString|adl_to_string)\(%s\."
                             r"(Value|getValue\(\))\)" % el)):
                        ctx.ob("dump", re.search(rx, s), w, "an entry is "
                               "printed without its %s" % part, fn.qn)
        ctx.ob("dump", full > 0, w, "the entries are not printed", fn.qn)


def seeds(ctx, F):
    Q = "psr::InitialSeeds::"
    for fn in fns(F, Q + "addSeed"):
        for p in live(ctx.summary(F, fn)):
            w = where(fn)
            val = "$2" if len(fn.ps) == 3 else "BinaryDomain::BOTTOM"
            got = []
            for it in items([p]):
                e = it.ev
                if e.kind == "call" and last(e.name) in (
                        "insert_or_assign",):
                    got.append((t2s(e.obj), t2s(e.args[0]), t2s(e.args[1])))
                elif e.kind == "write" and e.obj[0] == "idx":
                    got.append((t2s(e.obj[1]), t2s(e.obj[2]),
                                t2s(e.args[0])))
                elif e.kind == "call" and not e.pure and e.obj is not None:
                    got.append((t2s(e.obj), last(e.name)))
            ctx.ob("seeds", got == [("this.Seeds[$0]", "$1", val)], w,
                   "a seed is recorded as %s" % got, fn.qn)
            ctx.ob("seeds", not lits(p.pc), w, "a seed is recorded only if "
                   "%s" % sorted(lits(p.pc)), fn.qn)
    for fn in fns(F, Q + "(ctor)"):
        w = where(fn)
        if len(fn.ps) != 1:
            continue
        for p in live(ctx.summary(F, fn)):
            whole_map = [it for it in items([p]) if it.ev.kind == "write" and
                         t2s(it.ev.obj) == "this.Seeds"]
            if any(t2s(it.ev.args[0]) in ("$0", "$0.Seeds")
                   for it in whole_map):
                ctx.ob("seeds", len(whole_map) == 1, w, "the seeds are set "
                       "twice", fn.qn)
                continue
            one = [it for it in items([p]) if it.loops]
            ws = [it for it in one if it.ev.kind == "write" or
                  it.ev.kind == "call" and not it.ev.pure]
            ok = bool(ws)
            for it in ws:
                e = it.ev
                if e.kind == "write" and e.obj[0] == "idx":
                    g = (t2s(e.obj[1]), t2s(e.obj[2]), t2s(e.args[0]))
                elif last(e.name) in ("insert_or_assign", "emplace",
                                      "try_emplace"):
                    g = (t2s(e.obj), t2s(e.args[0]), t2s(e.args[1]))
                elif last(e.name) == "addSeed":
                    a = [t2s(x) for x in e.args]
                    g = ("this.Seeds[%s]" % a[0], a[1],
                         a[2] if len(a) > 2 else "BinaryDomain::BOTTOM")
                else:
                    g = (e.s(),)
                g = (g[0].replace("map{}", "this.Seeds"),) + g[1:]
                ok &= g == ("this.Seeds[elem($0).first]",
                            "elem(elem($0).second)", "BinaryDomain::BOTTOM")
                over(ctx, "seeds", fn, it, [r"\$0", r"elem\(\$0\)\.second"],
                     "recording the given seeds")
                ctx.ob("seeds", not lits(it.pc), w, "a given seed is "
                       "recorded only if %s" % sorted(lits(it.pc)), fn.qn)
            ctx.ob("seeds", ok, w, "the given seeds are not recorded with "
                   "the bottom value", fn.qn)
    for fn in fns(F, Q + "getSeeds"):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("seeds", t2s(p.ret) == "this.Seeds", where(fn),
                   "returns %s" % t2s(p.ret), fn.qn)
    decide_all(ctx, F, Q + "containsInitialSeedsFor",
               {"has": "this.Seeds has $0"}, lambda A: A["has"])
    decide_all(ctx, F, Q + "empty", {"e": "empty(this.Seeds)"},
               lambda A: A["e"])
    for fn in fns(F, Q + "countInitialSeeds"):
        for p in live(ctx.summary(F, fn)):
            t, w = t2s(p.ret), where(fn)
            if fn.ps:
                has = tri(lits(p.pc), r"this\.Seeds has \$0")
                ctx.ob("seeds", has is not None and re.fullmatch(
                    r"0" if not has else r"(entry\(this\.Seeds, \$0\)\."
                    r"second|this\.Seeds\[\$0\]|.*find\(\$0\)\.second)"
                    r"\.size\(\)", t), w, "counts %s" % t, fn.qn)
                continue
            ls = [e.loop for e in p.ev if e.kind == "loop"]
            ok = len(ls) == 1 and whole(ls[0]) and \
                t2s(ls[0].container or ("none",)) == "this.Seeds"
            if ok:
                ok = any(t2s(v) == "0" and t2s(k) == t
                         for k, v in ls[0].entry.items()) and all(
                    {"(elem(this.Seeds).second.size() + %s)" % t,
                     "(%s + elem(this.Seeds).second.size())" % t} & {
                        t2s(v) for v in c.values()} for _, c, _ in
                    ls[0].carry)
            ctx.ob("seeds", ok, w, "the number of seeds is not the sum over "
                   "all nodes", fn.qn)


def decide_all(ctx, F, qn, atoms, expect):
    for fn in fns(F, qn):
        decide(ctx, "seeds", fn, ctx.summary(F, fn), atoms, expect)


def problem(ctx, F):
    P = "psr::IDETabulationProblem::"
    Z = r"(?:\*this\.ZeroValue|this\.ZeroValue\.value\(\)|this\.getZeroValue"\
        r"\(\))"
    for qn, rx, what in (
            ("isZeroValue", r"\((?:%s == \$0|\$0 == %s)\)" % (Z, Z),
             "the comparison with the zero value"),
            ("getZeroValue", Z, "the zero value"),
            ("generateFromZero", r".*generateFlow\(\$0, %s\)" % Z,
             "the flow that generates the fact from zero")):
        for fn in fns(F, P + qn):
            for p in live(ctx.summary(F, fn, stop=STOP)):
                t = t2s(p.ret)
                if t in ("true", "false"):
                    s = tri(lits(p.pc), rx)
                    ok = s is not None and s == (t == "true")
                else:
                    ok = re.fullmatch(rx, t)
                ctx.ob("zero", ok, where(fn), "returns %s, not %s" % (
                    t[:160], what), fn.qn)
    for fn in fns(F, P + "initializeZeroValue"):
        for p in live(ctx.summary(F, fn)):
            ws = [(t2s(it.ev.obj), t2s(it.ev.args[0]))
                  for it in items([p]) if it.ev.kind == "write"]
            ctx.ob("zero", ws == [("this.ZeroValue", "$0")], where(fn),
                   "the zero value is set by %s" % ws, fn.qn)
    for fn in fns(F, P + "createDefaultSeeds"):
        for p in live(ctx.summary(F, fn, stop=STOP +
                                  ["addSeedsForStartingPoints"])):
            got = [[t2s(a) for a in it.ev.args] for it in items([p])
                   if it.ev.kind == "call" and
                   last(it.ev.name) == "addSeedsForStartingPoints"]
            ok = len(got) == 1 and len(got[0]) == 6 and \
                got[0][0] == "this.EntryPoints" and \
                got[0][1] == "this.IRDB" and got[0][3] == t2s(p.ret) and \
                re.fullmatch(Z, got[0][4]) and \
                got[0][5] == "this.bottomElement()"
            ctx.ob("start", ok, where(fn), "the default seeds are made from "
                   "%s" % got, fn.qn)


def starts(ctx, F):
    lam = set()
    for f in F.all_fns():
        if f.body is not None and "forallStartingPoints()::(lambda)" in f.qn:
            for p in live(ctx.summary(F, f)):
                ctx.ob("start", re.fullmatch(r".*\.getFunction(Impl)?\(\$0\)",
                                             t2s(p.ret)), where(f),
                       "an entry point is resolved to %s" %
                       t2s(p.ret)[:120], f.qn)
                lam.add(f.qn)
    for fn in fns(F, "psr::addSeedsForStartingPoints"):
        w = where(fn)
        n = len(fn.ps)
        icdb, cfg, sd, z, b = ("$1", "$2", "$3", "$4", "$5") if n == 6 else \
            ("$1", "$1", "$2", "$3", "$4")
        ALL = r"\(\*?(?:\$0\.front\(\)|begin\(\$0\)|\$0\.begin\(\)|" \
              r"\$0\[0\]|adl_begin\(\$0\)) == \"__ALL__\"\)"
        seen = set()
        for p in live(ctx.summary(F, fn, stop=["addSeed",
                                               "getStartPointsOf"])):
            L = lits(p.pc)
            one = tri(L, r"hasSingleElement\(\$0\)|\(\$0\.size\(\) == 1\)")
            al = tri(L, ALL)
            every = one is True and al is True
            ctx.ob("start", every or one is False or al is False, w,
                   "the entry points are used without asking for __ALL__",
                   fn.qn)
            got = [it for it in items([p]) if it.ev.kind == "call" and
                   last(it.ev.name) == "addSeed"]
            ctx.ob("start", len(got) == 1, w, "no seeds are added", fn.qn)
            seen.add(every)
            for it in got:
                if every:
                    c = r"%s\.getAllFunctions(?:Impl)?\(\)" % re.escape(icdb)
                else:
                    c = r"map_range\(\$0, lambda@\d+\)|\$0"
                m = re.fullmatch(r"elem\((%s\.getStartPointsOf(?:Impl)?\((.*)"
                                 r"\))\)" % re.escape(cfg),
                                 t2s(it.ev.args[0]))
                f = m.group(2) if m else "-"
                okf = re.fullmatch(r"elem\(%s\)" % c, f) if every else \
                    re.fullmatch(r"elem\(map_range\(\$0, lambda@\d+\)\)|"
                                 r"%s\.getFunction(?:Impl)?\(elem\(\$0\)\)" %
                                 re.escape(icdb), f)
                ctx.ob("start", m is not None and okf is not None and [
                    t2s(a) for a in it.ev.args[1:]] == [z, b] and
                    t2s(it.ev.obj) == sd, w, "seeds are added by %s" %
                    it.ev.s()[:200], fn.qn)
                if m:
                    over(ctx, "start", fn, it, [c, re.escape(m.group(1))],
                         "adding seeds")
                    own = [x for l in it.loops for q in l.paths
                           for x in lits(q.pc)
                           if "iter(" not in x and not re.fullmatch(r"!?\(%s == null\)|!?truthy\("
                                               r"%s\)" % (re.escape(f),
                                                          re.escape(f)), x)]
                    ctx.ob("start", not own, w, "a starting point is seeded "
                           "only if %s" % own[:3], fn.qn)
        ctx.ob("start", seen == {True, False}, w, "the entry points and "
               "__ALL__ are not both handled", fn.qn)


def ifds(ctx, F):
    st = ["resultsAt", "resultsAtInLLVMSSA"]
    for fn in fns(F, "psr::IFDSSolver::ifdsResultsAt"):
        for p in live(ctx.summary(F, fn, stop=st)):
            keys(ctx, fn, p, r"(?:this|%s)\.resultsAt\(\$0(?:, false)?\)" %
                 RES)
    for fn in fns(F, "psr::IFDSSolver::ifdsResultsAtInLLVMSSA"):
        for p in live(ctx.summary(F, fn, stop=st)):
            L = lits(p.pc)
            v, n = tri(L, VOID), tri(L, LAST)
            dele = r"(?:this|%s)\.resultsAtInLLVMSSA\(\$0(?:, false)*\)" % RES
            if v is None:
                keys(ctx, fn, p, dele)
                continue
            k = r"\$0" if v else r"\$0\.getNextNode\(\)"
            keys(ctx, fn, p, r"(?:this|%s)\.resultsAt\(%s(?:, false)?\)|%s" %
                 (RES, k, dele))


def run(ctx):
    F = ctx.facts(TU)
    simple(ctx, F)
    ssa(ctx, F)
    ifds(ctx, F)
    forwards(ctx, F)
    handles(ctx, F)
    dump(ctx, F)
    seeds(ctx, F)
    problem(ctx, F)
    starts(ctx, F)
    for r, n in (("row", 6), ("strip", 8), ("ssa", 20), ("merge", 20),
                 ("facts", 8), ("forward", 12), ("handle", 12), ("dump", 4),
                 ("seeds", 12), ("zero", 4), ("start", 10)):
        ctx.atleast(r, n)
