"""P03: the jump-function indices describe the same set, the table they are
built on behaves like a partial map."""
from spec import *
from facts import FL_CONST

EXPLAIN = ("Every mutator of the jump-function store is summarised by "
           "abstract paths; each index that a lookup reads must be updated "
           "under the same keys on each of them. Every table operation is "
           "compared against its decision table.")
JF = "psr::JumpFunctions"
TB = "psr::Table"
M = Pat(r"this\.\w+")


def pairlist(key, k):
    """iterator/element of the pair list `key` whose first component is k"""
    e = pat("elem({K})", K=key)
    f = pat("findif({K}, ({E}.first == {k}))", K=key, E=e, k=k) | \
        pat("findif({K}, ({k} == {E}.first))", K=key, E=e, k=k)
    return f | pat("{K}[{k}]", K=key, k=k) | e


def run(ctx):
    F = ctx.facts("tables.cpp")
    # -- which member does each lookup read, under which keys?
    idx = {}
    for nm, (k1, k2) in (("reverseLookup", ("$0", "$1")),
                         ("forwardLookup", ("$0", "$1"))):
        for fn in F.find(JF + "::" + nm):
            ps = ctx.summary(F, fn)
            rets = {t2s(p.ret) for p in ps if p.ret is not None}
            mem = set()
            for r in rets:
                m = re.search(r"(this\.\w+(?:\.\w+)?)\[%s\]\[%s\]" %
                              (re.escape(k1), re.escape(k2)), r)
                if m:
                    mem.add(m.group(1))
            ctx.ob("lookup-keys", len(mem) == 1, where(fn),
                   "%s does not return the entries stored under its two keys "
                   "(returns %s)" % (nm, sorted(rets)), fn.qn)
            if len(mem) != 1:
                continue
            idx[nm] = mem.pop()
            root = idx[nm].rsplit(".", 1)[0] if idx[nm].count(".") > 1 \
                else idx[nm]
            decide(ctx, "lookup-present", fn, ps, {
                "present": [pat("%s.contains(%s, %s)" % (root, k1, k2)),
                            pat("%s[%s] has %s" % (idx[nm], k1, k2))],
                "row": pat("%s has %s" % (idx[nm], k1))},
                lambda A: None if A["present"] and not A["row"] else
                (Pat(r".*nullopt.*") if not A["present"] else
                 pat("{x}%s[%s][%s]{x}" % (idx[nm], k1, k2), x=ANY)))
    tgt = None
    for fn in F.find(JF + "::lookupByTarget"):
        ps = ctx.summary(F, fn)
        for p in ps:
            m = re.fullmatch(r"(this\.\w+)\[\$0\]", t2s(p.ret))
            ctx.ob("lookup-keys", m is not None, where(fn),
                   "lookupByTarget returns %s" % t2s(p.ret), fn.qn)
            if m:
                tgt = m.group(1)
    if len(idx) != 2 or not tgt:
        return
    rev, fwd = idx["reverseLookup"], idx["forwardLookup"]
    ctx.ob("index-distinct", len({rev, fwd, tgt}) == 3, where(fn),
           "two lookups read the same index")
    top = Pat(r"isa<AllTop>\(\$3\)")
    RV, FW = "%s[$1][$2]" % rev, "%s[$0][$1]" % fwd
    for fn in F.find(JF + "::addFunction"):
        ps = ctx.summary(F, fn)
        w = where(fn)

        def ex(L):
            return any(top.ok(x) for x in L)

        def sets(key, k):
            slot = pairlist(re_(key), k)

            def f(it):
                e = it.ev
                if e.kind == "write":
                    o = t2s(e.obj)
                    return t2s(e.args[0]) == "$3" and (
                        pat("{s}.second", s=slot).ok(o) or
                        o == "%s[%s]" % (key, k))
                a = added(e)
                return a is not None and t2s(e.obj) == key and \
                    [t2s(x) for x in a] == [k, "$3"]
            return f

        def tset(it):
            e = it.ev
            if e.kind == "call" and last(e.name) in ("insert", "set"):
                return t2s(e.obj) == tgt + "[$1]" and \
                    [t2s(x) for x in e.args] == ["$0", "$2", "$3"]
            return e.kind == "write" and re.fullmatch(
                re.escape(tgt) + r"\[\$1\](\.\w+)?\[\$0\]\[\$2\]",
                t2s(e.obj)) is not None and t2s(e.args[0]) == "$3"
        for key, k, nm in ((RV, "$0", "reverse"), (FW, "$2", "forward")):
            ctx.none("add-" + nm, require(ps, [
                ("ev", sets(key, k), "%s is not updated" % key)], exempt=ex),
                w, "a recorded function is in the %s index" % nm, fn.qn)
            # an existing entry is overwritten, a new one appended
            for p in ps:
                if ex(lits(p.pc)):
                    continue
                pl = pairlist(re_(key), k)
                eq = pat("(end(%s) == {f})" % key, f=pl) | \
                    pat("({f} == end(%s))" % key, f=pl)
                st = [v for c, v in p.pc.items() if eq.ok(t2s(c))]
                app = any(added(it.ev) is not None and t2s(it.ev.obj) == key
                          for it in items([p]))
                ow = any(it.ev.kind == "write" and
                         pat("{s}.second", s=pl).ok(t2s(it.ev.obj))
                         for it in items([p]))
                if st:
                    ctx.ob("add-overwrites", app == st[0] and ow != st[0], w,
                           "an entry of the %s index is %s" % (
                               nm, "appended although one exists" if not st[0]
                               else "not appended"), fn.qn + nm)
        ctx.none("add-by-target", require(ps, [
            ("ev", tset, "%s is not updated" % tgt)], exempt=ex), w,
            "a recorded function is in the by-target index", fn.qn)
        # nothing else is touched
        for p in ps:
            for it in effects(p):
                o = t2s(it.ev.obj)
                ok = sets(RV, "$0")(it) or sets(FW, "$2")(it) or tset(it)
                ctx.ob("add-only", ok or not o.startswith(
                    (rev, fwd, tgt)), it.ev.where(),
                    "recording a function has the additional effect %s" %
                    it.ev.s(), fn.qn)
    for fn in F.find(JF + "::removeFunction", need=False):
        ps = ctx.summary(F, fn)
        for p in ps:
            for it in effects(p):
                e, o = it.ev, t2s(it.ev.obj)
                ok = True
                if o.startswith(tgt):
                    ok = last(e.name) in ("remove", "erase") and (
                        o.startswith(tgt + "[$1]") and
                        t2s(e.args[0]) == "$0" and len(e.args) == 2 and
                        t2s(e.args[1]) == "$2" or o == tgt and any(
                            re.search(r"empty\(", x) and not
                            x.startswith("!") for x in lits(it.pc)))
                elif o.startswith(rev):
                    ok = o == RV
                elif o.startswith(fwd):
                    ok = o == FW
                ctx.ob("remove-only", ok, e.where(), "removing one function "
                       "has the effect %s" % e.s(), fn.qn)
        has = pat("%s has $1" % tgt)
        ctx.none("remove-by-target", require(ps, [
            ("ev", lambda it: it.ev.kind == "call" and last(it.ev.name) in (
                "remove", "erase") and t2s(it.ev.obj).startswith(tgt),
             "it stays in the by-target index")],
            exempt=lambda L: any(has.ok(x[1:]) for x in L if x[0] == "!")),
            where(fn), "a removed function is in no index", fn.qn)
    rec = F.rec(JF)
    for fn in F.find(JF + "::clear", need=False):
        ps = ctx.summary(F, fn)
        for f in rec["fields"]:
            if "Table" not in f[1] and "map" not in f[1]:
                continue
            ctx.none("clear-all", require(ps, [
                ("ev", lambda it, f=f: it.ev.kind in ("call", "write") and
                 t2s(it.ev.obj) == "this." + f[0] and
                 (it.ev.kind == "write" or last(it.ev.name) == "clear"),
                 "%s is kept" % f[0])]), where(fn),
                "clearing empties every index", fn.qn + f[0])
    table(ctx, F)
    for r, n in (("lookup-keys", 3), ("lookup-present", 4), ("add-reverse", 1),
                 ("add-forward", 1), ("add-by-target", 1), ("clear-all", 3),
                 ("add-overwrites", 4), ("table-get", 4)):
        ctx.atleast(r, n)


def re_(s):
    return Pat(re.escape(s))


def table(ctx, F):
    T = r"this\.\w+"
    row = pat("{T} has $0", T=Pat(T))
    cell = pat("{T}[$0] has $1", T=Pat(T))
    at = {"row": row, "cell": cell}

    def imp(A):
        return A["cell"] and not A["row"]
    V = pat("{T}[$0][$1]", T=Pat(T))
    for fn in F.find(TB + "::insert"):
        ps = ctx.summary(F, fn)
        ctx.none("table-insert", require(ps, [
            ("ev", lambda it: it.ev.kind == "write" and V.ok(it.ev.obj) and
             t2s(it.ev.args[0]) == "$2" or it.ev.kind == "call" and
             last(it.ev.name) == "insert_or_assign" and
             pat("{T}[$0]", T=Pat(T)).ok(it.ev.obj) and
             [t2s(x) for x in it.ev.args] == ["$1", "$2"],
             "the cell is not (over)written")]), where(fn),
            "insert associates the value with both keys, replacing an old "
            "value", fn.qn)
    for fn in F.find(TB + "::contains"):
        decide(ctx, "table-contains", fn, ctx.summary(F, fn), at,
               lambda A: None if imp(A) else A["cell"] and A["row"])
    for fn in F.find(TB + "::containsRow"):
        decide(ctx, "table-contains", fn, ctx.summary(F, fn), {"row": row},
               lambda A: A["row"])
    for fn in F.find(TB + "::get"):
        ps = ctx.summary(F, fn)
        if fn.decl.fl & FL_CONST:
            decide(ctx, "table-get", fn, ps, at, lambda A: None if imp(A) else
                   V if A["cell"] else Pat(r".*getDefaultValue.*|0|\w+\{\}"))
        else:
            decide(ctx, "table-get", fn, ps, at, lambda A: V)
    for fn in F.find(TB + "::row"):
        ps = ctx.summary(F, fn)
        if fn.decl.fl & FL_CONST:
            decide(ctx, "table-row", fn, ps, {"row": row}, lambda A:
                   pat("{T}[$0]", T=Pat(T)) if A["row"] else
                   Pat(r".*getDefaultValue.*"))
        else:
            decide(ctx, "table-row", fn, ps, {"row": row},
                   lambda A: pat("{T}[$0]", T=Pat(T)))
    for fn in F.find(TB + "::remove"):
        ps = ctx.summary(F, fn)
        w = where(fn)
        if len(fn.ps) == 1:
            rowkill = Pat(T + r"\.erase\((\$0|find\(%s, \$0\))\)" % T)
            ctx.none("table-remove", require(ps, [
                ("ev", lambda it: it.ev.kind == "call" and
                 rowkill.ok(it.ev.term), "the row is kept")],
                exempt=lambda L: any(row.ok(x[1:]) for x in L)), w,
                "removing a row drops it", fn.qn + "/1")
            for p in ps:
                for it in effects(p):
                    ctx.ob("table-remove", rowkill.ok(it.ev.term), w,
                           "removing a row also does %s" % it.ev.s(),
                           fn.qn + "/1")
            continue
        kill = Pat(r"%s\[\$0\]\.erase\((\$1|find\(%s\[\$0\], \$1\))\)" %
                   (T, T))
        rk = Pat(T + r"\.erase\((\$0|find\(%s, \$0\))\)" % T)

        def ex(L):
            return any(row.ok(x[1:]) or cell.ok(x[1:]) for x in L
                       if x[0] == "!")
        ctx.none("table-remove", require(ps, [
            ("ev", lambda it: it.ev.kind == "call" and kill.ok(it.ev.term),
             "the cell is kept")], exempt=ex), w,
            "removing a cell drops it", fn.qn)
        for p in ps:
            em = any(re.fullmatch(r"empty\(%s\[\$0\]\)" % T, x)
                     for x in lits(p.pc))
            for it in effects(p):
                e = it.ev
                ok = e.kind == "call" and (kill.ok(e.term) or
                                           rk.ok(e.term) and em)
                ctx.ob("table-remove", ok, w, "removing a cell also does %s"
                       % e.s(), fn.qn)
            if not ex(lits(p.pc)):
                ctx.ob("table-remove", V.ok(t2s(p.ret)), w, "removing a cell "
                       "returns %s" % t2s(p.ret), fn.qn)
    for nm in ("cellSet", "cellVec", "foreachCell"):
        for fn in F.find(TB + "::" + nm):
            ps = ctx.summary(F, fn)
            m1 = pat("elem({T})", T=Pat(T))
            m2 = pat("elem({m}.second)", m=m1)
            want = [pat("{m}.first", m=m1), pat("{m}.first", m=m2),
                    pat("{m}.second", m=m2)]

            def hit(it):
                a = added(it.ev)
                if a is None and it.ev.kind in ("call", "calli"):
                    a = it.ev.args
                if a is None:
                    return False
                if len(a) == 4 and t2s(a[0]).startswith("$0"):
                    a = a[1:]
                if len(a) == 1 and a[0][0] in ("ctor", "il"):
                    a = a[0][2]
                return len(a) == 3 and all(p.ok(x) for p, x in zip(want, a))
            ctx.none("table-iterate", require(ps, [
                ("loop", pat("{T}", T=Pat(T))),
                ("loop", pat("{m}.second", m=m1)),
                ("ev", hit, "the cell is not reported as (row, column, "
                 "value)")]), where(fn),
                "%s visits every cell" % nm, fn.qn)
    for fn in F.find(TB + "::containsColumn"):
        ps = ctx.summary(F, fn)
        w = where(fn)
        col = Pat(r"elem\(%s\)\.second has \$0|%s\[elem.*\] has \$0" % (T, T))
        for p in ps:
            r = t2s(p.ret)
            hit = any(col.ok(x) for it in items([p]) for x in lits(it.pc))
            if r == "true":
                # taken from inside the loop: the last loop's path must test it
                t = any(col.ok(x) for x in lits(p.pc)) or any(
                    e.kind == "loop" and any(
                        q.exit == "return" and any(col.ok(x)
                                                   for x in lits(q.pc))
                        for q in e.loop.paths) for e in p.ev)
                ctx.ob("table-column", t, w, "reports a column that no row "
                       "was found to have", fn.qn)
            elif r.startswith("anyof("):
                ctx.ob("table-column", True, w, "", fn.qn)
            else:
                ctx.ob("table-column", r == "false" and not any(
                    col.ok(x) for x in lits(p.pc)), w,
                    "returns %s" % r, fn.qn)
