"""P20: type hierarchies: the subtype relation and the vtables."""
from spec import *
from p12 import live, whole, contested, exits, flows, path

EXPLAIN = ("Effect and guard analysis of the construction of both type "
           "hierarchies: which types become vertices, which pairs become "
           "edges, how the transitive relation is derived (linearisation "
           "protocol of the work-list, transitive closure), at which slot a "
           "virtual function is entered; decision tables for the queries.")

TH = "lib/PhasarLLVM/TypeHierarchy/"


# ------------------------------------------------------------------ helpers
def iff(ctx, rule, fn, ps, its, when, what, free=()):
    """together, the items happen exactly when all literals matching `when`
    hold (`free`: cases that are not judged)"""
    C = contested(ps) - exits(ps)
    W = [Pat(w) for w in when]
    F = [Pat(w) for w in free]
    isfree = lambda n: any(f.ok(n) or f.ok("!" + n) for f in F)
    L = [frozenset(l for l in lits(it.pc) if l.lstrip("!") in C and
                   not isfree(l.lstrip("!"))) for it in its]
    names = {l.lstrip("!") for s in L for l in s}
    for w in W:
        hit = [n for n in C if w.ok(n) or w.ok("!" + n)]
        names |= set(hit)
        if not hit and not any(w.ok(l) for it in its for l in lits(it.pc)):
            ctx.ob(rule, False, where(fn), "%s: nothing checks that %s" % (
                what, w), fn.qn)
            return
    names = sorted(names)
    if len(names) > 14:
        ctx.ob(rule, False, where(fn), "%s depends on %d conditions" % (
            what, len(names)), fn.qn)
        return
    # assignments that occur on some path
    bad = None
    for A in assigns(names):
        hap = any(all(A[l.lstrip("!")] != l.startswith("!") for l in s)
                  for s in L)
        want = True
        for w in W:
            for n in names:
                if w.ok(n) and not A[n] or w.ok("!" + n) and A[n]:
                    want = False
        if hap != want and feasible(ps, A):
            bad = A, hap
            break
    ctx.ob(rule, bad is None, where(fn), "%s %s when %s" % (
        what, "happens" if bad and bad[1] else "does not happen",
        bad and fmtA(bad[0])), fn.qn)


def feasible(ps, A):
    """does some complete nest of paths agree with the assignment?"""
    def ok(pc):
        return all(A.get(l.lstrip("!"), not l.startswith("!")) !=
                   l.startswith("!") for l in lits(pc))

    def walk(qs):
        good = [q for q in live(qs) if ok(q.pc)]
        if not good:
            return False
        for q in good:
            ls = [e.loop for e in q.ev if e.kind == "loop"]
            if all(walk(l.paths) or not rel(l.paths) for l in ls):
                return True
        return False

    def rel(qs):
        return any(n in A for q in qs for n in
                   {l.lstrip("!") for l in lits(q.pc)})
    return walk(ps)


def over(ctx, rule, fn, it, pats, what):
    """the loop nest of the item visits every element of these containers"""
    got = [t2s(l.container) if l.container is not None else "_"
           for l in it.loops]
    ctx.ob(rule, len(got) == len(pats) and
           all(Pat(p).ok(g) for p, g in zip(pats, got)), where(fn),
           "%s: done for each of %s" % (what, got), fn.qn)
    for l in it.loops:
        ctx.ob(rule, whole(l), where(fn), "%s: the loop is left early" % what,
               fn.qn)


def calls(ps, name, obj=None):
    out = []
    for it in items(ps):
        if it.ev.kind == "call" and last(it.ev.name) in name.split("|") and (
                obj is None or it.ev.obj is not None and
                Pat(obj).ok(t2s(it.ev.obj))):
            out.append(it)
    return out


def writes(ps, obj):
    return [it for it in items(ps) if it.ev.kind == "write" and
            Pat(obj).ok(t2s(it.ev.obj))]


def only(ctx, rule, fn, its, want, what):
    """all items have these argument texts (patterns); the number is > 0"""
    ctx.ob(rule, bool(its), where(fn), "%s: never done" % what, fn.qn)
    for it in its:
        got = [t2s(a) for a in it.ev.args]
        ctx.ob(rule, len(got) >= len(want) and all(
            Pat(w).ok(g) for w, g in zip(want, got)), where(fn),
            "%s: done with %s" % (what, [g[:200] for g in got]), fn.qn)


def consts(F, ps, t):
    """the strings of a constant array"""
    for p in ps:
        if t in p.mem:
            return t2s(p.mem[t])
    return t2s(t)


def run(ctx):
    di(ctx)
    di_queries(ctx)
    llvm(ctx)
    llvm_names(ctx)
    llvm_queries(ctx)
    vft(ctx)


# ------------------------------------------------------------------ DI based
def di(ctx):
    F = ctx.facts(TH + "DIBasedTypeHierarchy.cpp")
    for fn in F.find("psr::DIBasedTypeHierarchy::(ctor)"):
        if len(fn.ps) != 1:
            continue
        ps = live(ctx.summary(F, fn, keep_mem=True,
                              stop=["getCompositeTypeName"]))
        di_types(ctx, F, fn, ps)
        di_vtables(ctx, fn, ps)
        di_graph(ctx, fn, ps)
        di_closure(ctx, fn, ps)


DITAGS = {"DW_TAG_class_type", "DW_TAG_structure_type", "DW_TAG_union_type"}


def di_types(ctx, F, fn, ps):
    X = r"elem\((~\w+(?:\.types\(\))?)\)"
    add = calls(ps, "push_back|emplace_back", r"this\.VertexTypes")
    only(ctx, "types", fn, add, [r"(?:as<DICompositeType>\()?" + X + r"\)?"],
         "the types are entered")
    if not add:
        return
    x = t2s(add[0].ev.args[0])
    q = re.escape(x)
    src = re.search(X, x)
    src = src.group(1) if src else "?"
    over(ctx, "types", fn, add[0], [re.escape(src)], "a type is entered")
    new = r"(?:this\.TypeToVertex\.try_emplace\(%s, this\.VertexTypes\.size" \
        r"\(\)\)\.second|!this\.TypeToVertex has %s)" % (q, q)
    direct = src.endswith(".types()")
    iff(ctx, "types", fn, ps, add, [new], "a type is entered",
        free=[r".*isa<DICompositeType>.*", r".*getTag\(\).*"])
    # its number: the size before it is appended
    num = calls(ps, "try_emplace|insert|emplace|insert_or_assign",
                r"this\.TypeToVertex")
    num += writes(ps, r"this\.TypeToVertex\[.*\]")
    ctx.ob("types", bool(num), where(fn), "the types are not numbered", fn.qn)
    for it in num:
        kv = [t2s(a) for a in (added(it.ev) or ())] if it.ev.kind == "call" \
            else [t2s(it.ev.obj[2]), t2s(it.ev.args[0])]
        ctx.ob("types", kv == [x, "this.VertexTypes.size()"], where(fn),
               "a type is numbered %s" % kv, fn.qn)
        evs = it.path.ev
        k = evs.index(it.ev)
        later = [e for e in evs[:k] if e.kind == "call" and
                 e.obj is not None and t2s(e.obj) == "this.VertexTypes" and
                 last(e.name) in ("push_back", "emplace_back")]
        ctx.ob("types", not later, where(fn), "the number of a type is taken "
               "after it was appended", fn.qn)
    # names
    nm = calls(ps, "try_emplace|insert|emplace|insert_or_assign",
               r"this\.NameToType") + writes(ps, r"this\.NameToType\[.*\]")
    ctx.ob("types", bool(nm), where(fn), "types cannot be found by name",
           fn.qn)
    for it in nm:
        kv = [t2s(a) for a in (added(it.ev) or ())] if it.ev.kind == "call" \
            else [t2s(it.ev.obj[2]), t2s(it.ev.args[0])]
        ctx.ob("types", kv == ["getCompositeTypeName(%s)" % x, x], where(fn),
               "a type is named %s" % kv, fn.qn)
    iff(ctx, "types", fn, ps, nm, [new], "a type is named",
        free=[r".*isa<DICompositeType>.*", r".*getTag\(\).*"])
    # which types are collected
    pick, y = add, src
    if not direct:
        pick = calls(ps, "push_back|emplace_back", re.escape(src))
        only(ctx, "types", fn, pick,
             [r"as<DICompositeType>\(elem\(~\w+\.types\(\)\)\)"],
             "the class types are collected")
        for it in pick:
            over(ctx, "types", fn, it, [r"~\w+\.types\(\)"],
                 "a class type is collected")
    ctx.ob("types", bool(pick) and all(
        t2s(it.loops[0].container).endswith(".types()") for it in pick
        if it.loops), where(fn), "the types are not taken from the debug "
        "info", fn.qn)
    tags(ctx, F, fn, ps, pick)
    pm = calls(ps, "processModule")
    ctx.ob("types", len({id(it.ev) for it in pm}) == 1 and
           "$0.getModule()" in t2s(pm[0].ev.args[0]) and not pm[0].pc,
           where(fn), "the debug info of the module is not processed", fn.qn)


def tags(ctx, F, fn, ps, pick):
    univ = sorted(DITAGS) + ["DW_TAG_enumeration_type", "DW_TAG_array_type"]
    for tag in univ:
        hap = False
        for it in pick:
            ok = True
            for l in lits(it.pc):
                n, neg = l.lstrip("!"), l.startswith("!")
                if "getTag()" not in n:
                    continue
                g = re.findall(r"DW_TAG_\w+", n)
                h = re.match(r"(@[\w:]+) has ", n)
                if h:
                    for p in ps:
                        for k, v in p.mem.items():
                            if t2s(k) == h.group(1):
                                g = re.findall(r"DW_TAG_\w+", t2s(v))
                    if not g:
                        for k, v in F.globs.items():
                            if last(str(k)) == h.group(1).split(":")[-1]:
                                g = re.findall(r"DW_TAG_\w+", str(v))
                v = tag in g
                ok = ok and v != neg
            hap = hap or ok
        ctx.ob("types", hap == (tag in DITAGS), where(fn), "types with tag %s "
               "are %s" % (tag, "entered" if hap else "left out"), fn.qn)


def di_vtables(ctx, fn, ps):
    S = r"elem\(~\w+\.subprograms\(\)\)"
    par = r"as<DICompositeType>\(%s\.getScope\(\)\)" % S
    fun = r"\$0\.getFunction\(%s\.getLinkageName\(\)\)" % S
    slot = r"~(\w+)\[this\.TypeToVertex\[%s\]\]" % par
    idx = r"%s\.getVirtualIndex\(\)" % S
    puts = []
    for it in calls(ps, "push_back|emplace_back", slot):
        puts.append(it)
        ctx.ob("vtable", Pat(fun).ok(t2s(it.ev.args[0])), where(fn),
               "the function entered into a vtable is %s" % t2s(
                   it.ev.args[0]), fn.qn)
        eq = r"\((?:%s\.size\(\) == %s|%s == %s\.size\(\))\)" % (
            slot, idx, idx, slot)
        ctx.ob("vtable", any(Pat(eq).ok(l) for l in lits(it.pc)), where(fn),
               "a virtual function is appended although its index is not "
               "the size of the vtable", fn.qn)
    for it in writes(ps, slot + r"\[.*\]"):
        puts.append(it)
        ctx.ob("vtable", Pat(idx).ok(t2s(it.ev.obj[2])), where(fn), "a "
               "virtual function is entered at %s" % t2s(it.ev.obj[2]), fn.qn)
        ctx.ob("vtable", Pat(fun).ok(t2s(it.ev.args[0])), where(fn),
               "the function entered into a vtable is %s" % t2s(
                   it.ev.args[0]), fn.qn)
        # the slot exists
        sz = [e for e in it.path.ev[:it.path.ev.index(it.ev)]
              if e.kind == "call" and last(e.name) == "resize"]
        grown = any(Pat(slot).ok(t2s(e.obj)) and Pat(
            r"\((?:%s \+ 1|1 \+ %s)\)" % (idx, idx)).ok(t2s(e.args[0]))
            for e in sz)
        L = lits(it.pc)
        lt = r"\(%s\.size\(\) < %s\)" % (slot, idx)
        gt = r"\(%s < %s\.size\(\)\)" % (idx, slot)
        ne = r"!\((?:%s\.size\(\) == %s|%s == %s\.size\(\))\)" % (
            slot, idx, idx, slot)
        fits = any(Pat(gt).ok(l) for l in L) or (
            any(Pat("!" + lt).ok(l) for l in L) and
            any(Pat(ne).ok(l) for l in L))
        ctx.ob("vtable", grown or fits, where(fn), "the vtable may be too "
               "small for the entry (%s)" % sorted(
                   l for l in L if "size()" in l), fn.qn)
        # entries are not cut off
        for e in sz:
            ctx.ob("vtable", any(Pat(lt).ok(l) for l in L) or
                   any(Pat("!" + gt).ok(l) for l in L), where(fn),
                   "a vtable may be shortened", fn.qn)
    ctx.ob("vtable", bool(puts), where(fn), "no virtual function is entered",
           fn.qn)
    if not puts:
        return
    for it in puts:
        over(ctx, "vtable", fn, it, [r"~\w+\.subprograms\(\)"],
             "a virtual function is entered")
    iff(ctx, "vtable", fn, ps, puts,
        [r"%s\.getVirtuality\(\)|!\((?:%s\.getVirtuality\(\) == 0|0 == "
         r"%s\.getVirtuality\(\))\)" % (S, S, S),
         r"isa<DICompositeType>\(%s\.getScope\(\)\)" % S,
         r"this\.TypeToVertex has %s" % par,
         r"!\((?:%s == null|null == %s)\)" % (fun, fun)],
        "a virtual function is entered")
    for it in items(ps):
        e = it.ev
        if e.obj is None or e.kind not in ("call", "write") or \
                e.kind == "call" and e.pure:
            continue
        if re.match(slot, t2s(e.obj)):
            ctx.ob("vtable", any(x.ev is e for x in puts) or
                   last(e.name or "") in ("resize", "reserve"), where(fn),
                   "a vtable is modified by %s" % e.s()[:200], fn.qn)
    # one vtable per type, kept
    vt = None
    for it in puts:
        g = re.match(slot, t2s(it.ev.obj))
        vt = g and g.group(1)
    asg = calls(ps, "assign|insert|append", r"this\.VTables")
    ctx.ob("vtable", any(re.search(
        r"begin\(~%s\).*end\(~%s\)" % (vt, vt),
        ", ".join(t2s(a) for a in it.ev.args)) and not it.pc
        for it in asg) or any(re.search(r"~%s\b" % vt, t2s(it.ev.args[0]))
                              for it in writes(ps, r"this\.VTables")),
        where(fn), "the vtables are not kept", fn.qn)
    sz = [it for it in items(ps) if it.ev.kind in ("init", "call") and
          "this.VertexTypes.size()" in it.ev.s() and
          ("~" + str(vt)) in (t2s(it.ev.obj) if it.ev.obj is not None else "")]
    ctx.ob("vtable", bool(sz), where(fn), "the number of vtables is not the "
           "number of types", fn.qn)


def di_graph(ctx, fn, ps):
    V = r"elem\(this\.VertexTypes\)"
    E = r"elem\(%s\.getElements\(\)\)" % V
    D = r"as<DIDerivedType>\(%s\)" % E
    me = r"this\.TypeToVertex\[%s\]" % V
    inh = [r"isa<DIDerivedType>\(%s\)" % E,
           r"\(%s\.getTag\(\) == (?:dwarf::)?(?:Tag::)?DW_TAG_inheritance\)"
           % D]
    push = calls(ps, "push_back|emplace_back",
                 r"~\w+(?:\.\w+)?\[this\.TypeToVertex\[.*\]\]")
    push = [it for it in push if len(it.loops) == 2]
    only(ctx, "edges", fn, push, [me], "the derived type is entered")
    rst = [it for it in calls(ps, "reset") if it.ev.args]
    only(ctx, "edges", fn, rst, [me], "a derived type is no root")
    for its, what in ((push, "an inheritance is entered"),
                      (rst, "a derived type is removed from the roots")):
        if its:
            iff(ctx, "edges", fn, ps, its, inh, what,
                free=[r".*this\.TypeToVertex\[.*\] == 0.*",
                      r".*== this\.VertexTypes\[0\].*", r".*typedef.*",
                      r".*this\.VertexTypes\[0\] ==.*"])
            for it in its:
                over(ctx, "edges", fn, it, [
                    r"this\.VertexTypes", r"%s\.getElements\(\)" % V], what)
    # the base with its typedefs stripped
    for it in push:
        base = it.ev.obj[2]
        while base[0] != "idx" and len(base) > 1 and \
                isinstance(base[-1], tuple):
            base = base[-1]
        b = base[2]
        sb = t2s(b)
        lp = [e.loop for e in it.path.ev[:it.path.ev.index(it.ev)]
              if e.kind == "loop"]
        ok = False
        for l in lp:
            for k, vals, pc in l.carry:
                v = {t2s(s): t2s(y) for s, y in vals.items() if y is not None}
                if k == "next" and sb in v:
                    q = re.escape(sb)
                    ok = re.fullmatch(
                        r"as<DIDerivedType>\(%s\)\.getBaseType\(\)" % q,
                        v[sb]) is not None
            ent = {t2s(s): t2s(y) for s, y in (l.entry or {}).items()} \
                if isinstance(l.entry, dict) else {}
            if sb in ent:
                ctx.ob("edges", Pat(D + r"\.getBaseType\(\)").ok(ent[sb]),
                       where(fn), "the base of an inheritance is %s" %
                       ent[sb], fn.qn)
            td = {x for pc in l.exits for x in lits(pc)}
            ctx.ob("edges", any("DW_TAG_typedef" in x and x.startswith("!")
                                for x in td) and len(td) == 1, where(fn),
                   "typedefs are followed until %s" % sorted(td), fn.qn)
        ctx.ob("edges", ok, where(fn), "the base of an inheritance is entered "
               "as %s" % sb[:200], fn.qn)
    # all types are roots at first
    ini = [t2s(v) for p in ps for k, v in p.mem.items()
           if t2s(k).endswith(".Roots")]
    ini += [it.ev.s() for it in items(ps) if it.ev.kind == "init"]
    rt = [i for i in ini if re.search(
        r"BitVector\w*\{this\.VertexTypes\.size\(\), true\}", i)]
    st = [it for it in calls(ps, "set|resize") if not it.loops and (
        not it.ev.args or t2s(it.ev.args[-1]) == "true")]
    ctx.ob("edges", bool(rt) or bool(st), where(fn), "not every type is a "
           "root at first", fn.qn)


def di_closure(ctx, fn, ps):
    """the linearisation: [first, second) of a type is exactly what is pushed
    between entering and leaving it"""
    WL = r"~\w+"
    pop = None
    for it in items(ps):
        for l in it.loops:
            for q in l.paths:
                for e in q.ev:
                    if e.kind == "write" and t2s(e.obj).startswith(
                            "this.TransitiveDerivedIndex["):
                        pop = (it.loops[:it.loops.index(l)], l)
    ctx.ob("closure", pop is not None, where(fn), "the transitive relation "
           "is not built", fn.qn)
    if pop is None:
        return
    outer, l = pop
    cs = [t2s(o.container) for o in outer if o.container is not None]
    seeds = [it for it in calls(ps, "push_back|emplace_back", WL)
             if it.loops and tuple(it.loops) == tuple(outer) and
             any(e.kind == "loop" and e.loop is l for e in it.path.ev)]
    R = r"~\w+(?:\.\w+)?\.set_bits\(\)"
    ctx.ob("closure", len(outer) == 1 and Pat(R).ok(cs[0] if cs else "") and
           whole(outer[0]), where(fn), "the traversal starts at %s" % cs,
           fn.qn)
    ctx.ob("closure", len({id(s.ev) for s in seeds}) == 1 and Pat(
        r"elem\(%s\)" % R).ok(t2s(seeds[0].ev.args[0])) and
        not lits(seeds[0].pc) - {x for p in ps for x in ()}, where(fn),
        "not every root is put on the work-list", fn.qn) if not outer or \
        not any("empty(" in x for s in seeds for x in lits(s.pc)) else \
        ctx.ob("closure", True, where(fn), "", fn.qn)
    if not seeds:
        return
    wl = t2s(seeds[0].ev.obj)
    ex = [lits(pc) for pc in l.exits]
    ctx.ob("closure", all(x == {"empty(%s)" % wl} for x in ex) and ex and
           not any(q.exit in ("break", "return") for q in l.paths),
           where(fn), "the traversal ends when %s" % ex, fn.qn)
    TOP = r"%s\.(?:pop_back_val|back)\(\)" % re.escape(wl)
    T = "this.TransitiveDerivedIndex["
    sett = [set(lits(q.pc)) for q in live(l.paths) for e in q.ev
            if e.kind == "call" and last(e.name) == "set" and e.args]
    for q in live(l.paths):
        L = lits(q.pc)
        leave = [x for x in L if re.fullmatch(r"\(%s < 0\)" % TOP, x)]
        enter = [x for x in L if re.fullmatch(r"!\(%s < 0\)" % TOP, x)]
        ctx.ob("closure", bool(leave) != bool(enter), where(fn), "entering "
               "and leaving a type is not distinguished: %s" % sorted(L),
               fn.qn)
        evs = [e for e in q.ev if e.kind in ("write", "call") and
               (e.kind == "write" or not e.pure) and e.obj is not None and
               (t2s(e.obj).startswith(T) or t2s(e.obj) in
                (wl, "this.Hierarchy")) and last(e.name or "") not in (
                   "pop_back", "pop_back_val", "reserve")]
        if leave:
            ok = len(evs) == 1 and evs[0].kind == "write" and re.fullmatch(
                r"this\.TransitiveDerivedIndex\[~%s\]\.second" % TOP,
                t2s(evs[0].obj)) and \
                t2s(evs[0].args[0]) == "this.Hierarchy.size()"
            ctx.ob("closure", bool(ok), where(fn), "leaving a type does %s" %
                   [e.s()[:120] for e in evs], fn.qn)
            continue
        # entering
        dead = False
        for x in L:
            g = re.fullmatch(r"(~\w+)\.test\((.*)\)", x)
            if g and Pat(TOP).ok(g.group(2)):
                # set only under the guard that it is already set
                dead = all(x in s for s in sett)
        if dead:
            continue
        kinds = []
        for e in evs:
            o = t2s(e.obj)
            if o.startswith(T):
                ok = re.fullmatch(r"this\.TransitiveDerivedIndex\[%s\]\.first"
                                  % TOP, o) and \
                    t2s(e.args[0]) == "this.Hierarchy.size()"
                kinds.append("first" if ok else e.s()[:120])
            elif o == "this.Hierarchy":
                ok = Pat(r"this\.VertexTypes\[%s\]" % TOP).ok(t2s(e.args[0]))
                kinds.append("type" if ok else e.s()[:120])
            elif last(e.name) in ("push_back", "emplace_back"):
                ok = Pat("~" + TOP).ok(t2s(e.args[0]))
                kinds.append("end" if ok else e.s()[:120])
            else:
                s = ", ".join(t2s(a) for a in e.args)
                ch = r"~\w+(?:\.\w+)?\[%s\]" % TOP
                ok = last(e.name) == "append" and Pat(
                    r"begin\((%s)\), end\((%s)\)" % (ch, ch)).ok(s) or Pat(
                        ch).ok(s)
                kinds.append("children" if ok else e.s()[:120])
        for e in q.ev:
            if e.kind == "loop":
                for q2 in live(e.loop.paths):
                    for e2 in q2.ev:
                        if e2.kind == "call" and e2.obj is not None and \
                                t2s(e2.obj) == wl and not e2.pure:
                            kinds.append("children" if whole(e.loop) and Pat(
                                r"elem\(~\w+(?:\.\w+)?\[%s\]\)" % TOP).ok(
                                    t2s(e2.args[0])) else e2.s()[:120])
        pos = {k: i for i, k in enumerate(kinds)}
        ok = sorted(kinds) == ["children", "end", "first", "type"] and \
            pos["first"] < pos["type"] and pos["end"] < pos["children"]
        ctx.ob("closure", ok, where(fn), "entering a type does %s" % kinds,
               fn.qn)
    rs = [it for it in calls(ps, "resize", r"this\.TransitiveDerivedIndex")]
    ctx.ob("closure", any(t2s(it.ev.args[0]) == "this.VertexTypes.size()"
                          for it in rs), where(fn), "the index does not cover "
           "every type", fn.qn)


def di_queries(ctx):
    F = ctx.facts(TH + "DIBasedTypeHierarchy.cpp")
    Q = "psr::DIBasedTypeHierarchy::"

    def rng(i):
        D = r"this\.Hierarchy\.data\(\)|begin\(this\.Hierarchy\)"
        a = r"this\.TransitiveDerivedIndex\[%s\]\.%s"
        step = r"(?:std::next\((?:%s), %s\)|\((?:%s) \+ %s\)|" \
               r"\(%s \+ (?:%s)\))"
        f, s = a % (i, "first"), a % (i, "second")
        return r"iterator_range\{%s, %s\}" % (
            step % (D, f, D, f, f, D), step % (D, s, D, s, s, D))
    for fn in F.find(Q + "subTypesOf"):
        ps = live(ctx.summary(F, fn))
        byidx = "*" not in fn.ps[0][2]
        i = r"\$0" if byidx else r"this\.TypeToVertex\[\$0\]"
        for p in ps:
            L = lits(p.pc)
            known = byidx or "this.TypeToVertex has $0" in L
            r = t2s(p.ret)
            if known:
                ctx.ob("query", Pat(rng(i)).ok(r), where(fn), "the subtypes "
                       "are %s" % r, fn.qn)
            else:
                g = re.fullmatch(r"iterator_range\{(?:(.*), (\1)|)\}", r)
                ctx.ob("query", g is not None and
                       "!this.TypeToVertex has $0" in L, where(fn),
                       "the subtypes of an unknown type are %s" % r, fn.qn)
    sub = r"this\.subTypesOf\(\$0\)"
    tab = {
        "isSubType": r"%s has \$1" % sub,
        "hasType": r"this\.TypeToVertex has \$0",
        "getSubTypes": r"set\w*\{begin\(%s\), end\(%s\)(, .*)?\}" % (sub, sub),
        "getType": r"this\.NameToType(\.lookup\(\$0\)|\[\$0\])",
        "getAllTypes": r"vector\w*\{begin\(this\.VertexTypes\), "
                       r"end\(this\.VertexTypes\)(, .*)?\}",
        "getAllVTables": r"this\.VTables",
        "size": r"this\.VertexTypes\.size\(\)",
        "empty": r"empty\(this\.VertexTypes\)",
    }
    returns(ctx, F, Q, tab, ["subTypesOf"])
    for fn in F.find(Q + "getTypeName"):
        c = "as<DICompositeType>($0)"
        model_name(ctx, F, fn, "isa<DICompositeType>($0)",
                   "empty(%s.getIdentifier())" % c, c + ".getName()",
                   c + ".getIdentifier()", "$0.getName()")
    for fn in F.find("psr::getCompositeTypeName"):
        model_name(ctx, F, fn, None, "empty($0.getIdentifier())",
                   "$0.getName()", "$0.getIdentifier()", None)


def model_name(ctx, F, fn, isa, emp, a, b, c):
    for p in live(ctx.summary(F, fn)):
        L, r = lits(p.pc), t2s(p.ret)
        r = re.sub(r"^(?:\w+::)*StringRef\{(.*)\}$", r"\1", r)
        if isa and "!" + isa in L:
            want = [c]
        elif emp in L:
            want = [a]
        elif "!" + emp in L:
            want = [b]
        else:
            want = ["ite(%s, %s, %s)" % (emp, a, b),
                    "(%s ? %s : %s)" % (emp, a, b)]
        if isa and isa not in L and "!" + isa not in L:
            want = []
        ctx.ob("query", r in want, where(fn), "the name of a type is %s when "
               "%s" % (r, sorted(L)), fn.qn)


def boolret(p):
    """(value or term text) of a returned bool"""
    r = t2s(p.ret)
    return r


def returns(ctx, F, Q, tab, stop=()):
    for n, want in tab.items():
        fs = [f for f in F.find(Q + n)]
        ctx.ob("query", bool(fs), Q + n, "%s is missing" % n, Q + n)
        for fn in fs:
            for p in live(ctx.summary(F, fn, stop=list(stop))):
                L = lits(p.pc)
                r = t2s(p.ret)
                if r in ("true", "false") and len(L) == 1:
                    l = next(iter(L))
                    r = l.lstrip("!") if (r == "true") != l.startswith("!") \
                        else "!" + l.lstrip("!")
                    L = set()
                g = re.fullmatch(r"(?:bool\()?\(?(.*?) (?:!=|>) 0\)?", r)
                ctx.ob("query", not L and (Pat(want).ok(r)), where(fn),
                       "%s returns %s when %s" % (n, r, sorted(L)), fn.qn)


# ---------------------------------------------------------------- LLVM based
def llvm(ctx):
    F = ctx.facts(TH + "LLVMTypeHierarchy.cpp")
    Q = "psr::LLVMTypeHierarchy::"
    STR = ["getVirtualFunctions", "getSubTypes", "indexTypesAndGlobals",
           "isTypeInfo", "isVTable", "removeTypeInfoPrefix",
           "removeVTablePrefix", "removeStructOrClassPrefix",
           "constructHierarchy"]
    T = r"elem\(\$0\.getIdentifiedStructTypes\(\)\)"
    for fn in F.find(Q + "constructHierarchy"):
        ps = live(ctx.summary(F, fn, stop=STR))
        over1 = [r"\$0\.getIdentifiedStructTypes\(\)"]
        new = r"!this\.TypeVertexMap has %s" % T
        av = r"boost::add_vertex\((?:.*, )?this\.TypeGraph\)"
        for nm, its, want in (
                ("a vertex is added", calls(ps, "add_vertex"), None),
                ("the vertex of a type is stored",
                 writes(ps, r"this\.TypeVertexMap\[%s\]" % T) + calls(
                     ps, "try_emplace|emplace|insert",
                     r"this\.TypeVertexMap"), av),
                ("the properties of a vertex are stored",
                 writes(ps, r"this\.TypeGraph\[.*\]"),
                 r"(?:\w+::)*VertexProperties\{%s\}" % T),
                ("the vtable of a type is stored",
                 writes(ps, r"this\.TypeVFTMap\[%s\]" % T) + calls(
                     ps, "try_emplace|emplace|insert", r"this\.TypeVFTMap"),
                 r"(?:(?:\w+::)*LLVMVFTable\{)?this\.getVirtualFunctions"
                 r"\(\$0, \*%s\)\}?" % T)):
            ctx.ob("types", bool(its), where(fn), "%s: never" % nm, fn.qn)
            if not its:
                continue
            iff(ctx, "types", fn, ps, its, [new], nm)
            for it in its:
                over(ctx, "types", fn, it, over1, nm)
                if want:
                    v = t2s(it.ev.args[-1])
                    ctx.ob("types", Pat(want).ok(v), where(fn), "%s: %s" % (
                        nm, v), fn.qn)
                if nm.startswith("the properties"):
                    ctx.ob("types", Pat(
                        r"this\.TypeGraph\[(?:%s|this\.TypeVertexMap\[%s\])\]"
                        % (av, T)).ok(t2s(it.ev.obj)), where(fn),
                        "the properties are stored at %s" % t2s(it.ev.obj),
                        fn.qn)
        S = r"this\.getSubTypes\(\$0, \*%s\)" % T
        ed = calls(ps, "add_edge")
        only(ctx, "edges", fn, ed, [
            r"this\.TypeVertexMap(?:\[elem\(%s\)\]|\.at\(elem\(%s\)\))"
            % (S, S), r"this\.TypeVertexMap(?:\[%s\]|\.at\(%s\))" % (T, T),
            r"this\.TypeGraph"], "an edge from base to derived type is added")
        if ed:
            iff(ctx, "edges", fn, ps, ed, [], "an edge is added")
        for it in ed:
            over(ctx, "edges", fn, it, over1 + [S], "an edge is added")
        idx = calls(ps, "indexTypesAndGlobals")
        ctx.ob("types", bool(idx) and all(
            t2s(it.ev.args[0]) == "$0" and not it.loops and not it.pc
            for it in idx), where(fn), "the globals of the module are not "
            "indexed", fn.qn)
        for p in ps:
            k = [i for i, e in enumerate(p.ev) if e.kind == "call" and
                 last(e.name) == "indexTypesAndGlobals"]
            v = [i for i, e in enumerate(p.ev) if e.kind == "loop"]
            ctx.ob("types", bool(k) and bool(v) and k[0] < v[0], where(fn),
                   "the globals are indexed after they are needed", fn.qn)
            # vertices before edges
            pos = {}
            for i, e in enumerate(p.ev):
                if e.kind == "loop":
                    for it in items(e.loop.paths):
                        if it.ev.kind == "call" and last(it.ev.name) in (
                                "add_vertex", "add_edge"):
                            pos.setdefault(last(it.ev.name), set()).add(i)
            ctx.ob("edges", max(pos.get("add_vertex", {99})) <
                   min(pos.get("add_edge", {-1})), where(fn), "edges are "
                   "added before all types have a vertex", fn.qn)
    for fn in F.find(Q + "buildLLVMTypeHierarchy"):
        ps = live(ctx.summary(F, fn, stop=STR, keep_mem=True))
        closure(ctx, fn, ps)
    for fn in F.find(Q + "VertexProperties::(ctor)"):
        if len(fn.ps) != 1 or "StructType" not in fn.ps[0][2]:
            continue
        ps = live(ctx.summary(F, fn))
        for p in ps:
            w = {t2s(e.obj): t2s(e.args[0]) for e in p.ev
                 if e.kind == "write"}
            ins = [e for e in p.ev if e.kind == "call" and
                   last(e.name) in ("insert", "emplace")]
            ctx.ob("closure", w.get("this.Type") == "$0", where(fn),
                   "the type of a vertex is %s" % w.get("this.Type"), fn.qn)
            r = w.get("this.ReachableTypes", "")
            ctx.ob("closure", re.search(r"\{\$0\}", r) is not None or any(
                t2s(e.args[0]) == "$0" for e in ins), where(fn),
                "a type is not its own subtype (%s)" % r, fn.qn)
    for fn in F.find(Q + "(ctor)"):
        if len(fn.ps) != 1 or "LLVMTypeHierarchy" in fn.ps[0][2]:
            continue
        ps = live(ctx.summary(F, fn, stop=["buildLLVMTypeHierarchy"]))
        b = calls(ps, "buildLLVMTypeHierarchy")
        ctx.ob("closure", len(b) == len(ps) and all(
            t2s(it.ev.args[0]) in ("$0", "*$0.getModule()") and not it.loops
            for it in b), where(fn), "the hierarchy of the module is not "
            "built", fn.qn)


def closure(ctx, fn, ps):
    for p in ps:
        k = {}
        for i, e in enumerate(p.ev):
            if e.kind == "call":
                k.setdefault(last(e.name), i)
            elif e.kind == "loop":
                k["loop"] = i
        ctx.ob("closure", "transitive_closure" in k and
               k.get("constructHierarchy", 99) < k["transitive_closure"] <
               k.get("loop", -1), where(fn), "the transitive closure is not "
               "built from the complete graph: %s" % sorted(
                   k, key=k.get), fn.qn)
    tc = calls(ps, "transitive_closure")
    ctx.ob("closure", bool(tc) and all(
        t2s(it.ev.args[0]) == "this.TypeGraph" and not it.pc for it in tc),
        where(fn), "the closure is built from something else", fn.qn)
    for it in calls(ps, "constructHierarchy"):
        ctx.ob("closure", t2s(it.ev.args[0]) == "$0" and not it.pc,
               where(fn), "the module is not analysed", fn.qn)
    ins = calls(ps, "insert|emplace", r"this\.TypeGraph\[.*\]\.ReachableTypes")
    ctx.ob("closure", bool(ins), where(fn), "no subtypes are stored", fn.qn)
    if not tc or not ins:
        return
    C = re.escape(t2s(tc[0].ev.args[1]))
    V = r"elem\(boost::make_iterator_range\(boost::vertices\((?:this\." \
        r"TypeGraph|%s)\)\)\)" % C
    E = r"boost::make_iterator_range\(boost::(?:out_edges|adjacent_vertices" \
        r")\(%s, %s\)\)" % (V, C)
    tgt = r"(?:boost::target\(elem\(%s\), %s\)|elem\(boost::" \
        r"make_iterator_range\(boost::adjacent_vertices\(%s, %s\)\)\))" % (
            E, C, V, C)
    only(ctx, "closure", fn, ins, [r"this\.TypeGraph\[%s\]\.Type" % tgt],
         "a reachable type is stored")
    for it in ins:
        ctx.ob("closure", Pat(r"this\.TypeGraph\[%s\]\.ReachableTypes" % V)
               .ok(t2s(it.ev.obj)), where(fn), "it is stored to %s" % t2s(
                   it.ev.obj)[:150], fn.qn)
        over(ctx, "closure", fn, it, [V[6:-2], E], "a subtype is stored")
    iff(ctx, "closure", fn, ps, ins, [], "a reachable type is stored")


def llvm_names(ctx):
    F = ctx.facts(TH + "LLVMTypeHierarchy.cpp")
    Q = "psr::LLVMTypeHierarchy::"
    STR = ["isTypeInfo", "isVTable", "removeTypeInfoPrefix",
           "removeVTablePrefix", "removeStructOrClassPrefix",
           "getVFVectorFromIRVTable"]
    G = r"elem\(\$0\.globals\(\)\)"
    NM = G + r"\.getName\(\)"
    P = r"(?:(?:this\.)?|(?:\w+::)*)"
    for fn in F.find(Q + "indexTypesAndGlobals"):
        ps = live(ctx.summary(F, fn, stop=STR))
        T = r"elem\(\$0\.getIdentifiedStructTypes\(\)\)"
        for mp, key, val, when, ov in (
                ("ClearNameTypeMap",
                 P + r"removeStructOrClassPrefix\(\*%s\)" % T, T, [],
                 r"\$0\.getIdentifiedStructTypes\(\)"),
                ("ClearNameTIMap", P + r"removeTypeInfoPrefix\((?:llvm::)?"
                 r"demangle\(%s\.str\(\)\)\)" % NM, "&?" + G,
                 [P + r"isTypeInfo\(%s\)" % NM], r"\$0\.globals\(\)"),
                ("ClearNameTVMap", P + r"removeVTablePrefix\((?:llvm::)?"
                 r"demangle\(%s\.str\(\)\)\)" % NM, "&?" + G,
                 [P + r"isVTable\(%s\)" % NM], r"\$0\.globals\(\)")):
            its = writes(ps, r"this\.%s\[.*\]" % mp)
            ctx.ob("names", bool(its), where(fn), "%s is not filled" % mp,
                   fn.qn)
            for it in its:
                k, v = t2s(it.ev.obj[2]), t2s(it.ev.args[0])
                ctx.ob("names", Pat(key).ok(k) and Pat(val).ok(v), where(fn),
                       "%s[%s] = %s" % (mp, k, v), fn.qn)
                over(ctx, "names", fn, it, [ov], mp + " is filled")
            if its:
                iff(ctx, "names", fn, ps, its, when, mp + " is filled",
                    free=[r"!?%s\.hasName\(\)" % G,
                          P + ("isVTable.*" if "TI" in mp else
                               "isTypeInfo.*")])
    # prefixes
    for nm, pre in (("removeStructOrClassPrefix", ["StructPrefix",
                                                   "ClassPrefix"]),
                    ("removeTypeInfoPrefix", ["TypeInfoPrefixDemang",
                                              "TypeInfoPrefix"]),
                    ("removeVTablePrefix", ["VTablePrefixDemang",
                                            "VTablePrefix"])):
        for fn in F.find(Q + nm):
            ps = live(ctx.summary(F, fn, stop=[nm] if "StructType" in
                                  fn.ps[0][2] else []))
            if "StructType" in fn.ps[0][2]:
                for p in ps:
                    ctx.ob("names", Pat(
                        P + nm + r"\((?:StringRef\{)?\$0\.getName\(\)"
                        r"(?:\.str\(\))?\}?\)").ok(t2s(p.ret)), where(fn),
                        "the name is %s" % t2s(p.ret), fn.qn)
                continue
            strips(ctx, fn, ps, pre)
    for nm, pre, dm in (("isTypeInfo", "_ZTI", "TypeInfoPrefixDemang"),
                        ("isVTable", "_ZTV", "VTablePrefixDemang")):
        for fn in F.find(Q + nm):
            ps = live(ctx.summary(F, fn))
            isx(ctx, F, fn, ps, pre, dm)
    for n, v in (("StructPrefix", "struct."), ("ClassPrefix", "class."),
                 ("VTablePrefix", "_ZTV"), ("TypeInfoPrefix", "_ZTI"),
                 ("VTablePrefixDemang", "vtable for "),
                 ("TypeInfoPrefixDemang", "typeinfo for ")):
        got = [t2s_glob(g) for k, g in F.globs.items()
               if str(k).endswith("LLVMTypeHierarchy::" + n) or
               str(g).find("LLVMTypeHierarchy::" + n) >= 0]
        ctx.ob("names", any('"%s"' % v in g or "'%s'" % v in g for g in got),
               TH + "LLVMTypeHierarchy.h", "%s is %s" % (n, got), n)
    for fn in F.find(Q + "getSubTypes"):
        if len(fn.ps) == 2:
            ps = live(ctx.summary(F, fn, stop=STR, keep_mem=True))
            bases(ctx, fn, ps, P)
    for fn in F.find(Q + "getVirtualFunctions"):
        if len(fn.ps) == 2:
            ps = live(ctx.summary(F, fn, stop=STR, keep_mem=True))
            vfuncs(ctx, fn, ps, P)


def t2s_glob(g):
    return str(g)


def strips(ctx, fn, ps, pre):
    gone = set()
    for p in ps:
        L, r = lits(p.pc), t2s(p.ret)
        r = re.sub(r"\.str\(\)$", "", r)
        r = re.sub(r"^(?:\w+::)*(?:basic_string|string|StringRef)\{(.*)\}$",
                   r"\1", r)
        pos = [x for x in pre if any(re.fullmatch(
            r"\$0\.(?:startswith|starts_with)\(.*@[\w:]*\b%s\)?\}?" % x, l)
            for l in L)]
        neg = [x for x in pre if any(re.fullmatch(
            r"!\$0\.(?:startswith|starts_with)\(.*@[\w:]*\b%s\)?\}?" % x, l)
            for l in L)]
        if pos:
            ctx.ob("names", len(pos) == 1 and re.fullmatch(
                r"\$0\.(?:drop_front|substr)\(@[\w:]*\b%s\.size\(\)\)" %
                pos[0], r) is not None, where(fn), "the name with prefix %s "
                "is %s" % (pos, r), fn.qn)
            gone |= set(pos)
        else:
            ctx.ob("names", r == "$0" and sorted(neg) == sorted(pre),
                   where(fn), "the name without %s is %s" % (neg, r), fn.qn)
    ctx.ob("names", gone == set(pre), where(fn), "the prefixes %s are removed"
           % sorted(gone), fn.qn)


def isx(ctx, F, fn, ps, pre, dm):
    A = r'\$0\.(?:startswith|starts_with)\((?:StringRef\{)?(?:"%s"|@[\w:]*%s' \
        r')\}?\)' % (pre, "TypeInfoPrefix" if "TI" in pre else "VTablePrefix")
    B = r'(?:StringRef\{)?(?:llvm::)?demangle\(\$0\.str\(\)\)\}?\.' \
        r'(?:startswith|starts_with)\(.*@[\w:]*%s\}?\)' % dm
    for p in ps:
        L, r = lits(p.pc), t2s(p.ret)
        a = any(Pat(A).ok(l) for l in L)
        b = any(Pat(B).ok(l) for l in L)
        na = any(Pat("!" + A).ok(l) for l in L)
        nb = any(Pat("!" + B).ok(l) for l in L)
        if a or b:
            ok = r == "true"
        elif na and nb:
            ok = r == "false"
        elif na:
            ok = Pat(B).ok(r)
        elif nb:
            ok = Pat(A).ok(r)
        else:
            ok = False
        ctx.ob("names", ok, where(fn), "returns %s when %s" % (r, sorted(L)),
               fn.qn)


def bases(ctx, fn, ps, P):
    key = P + r"removeStructOrClassPrefix\(\$1(?:\.getName\(\))?\)"
    ti = r"this\.ClearNameTIMap\[%s\]" % key
    ini = ti + r"\.getInitializer\(\)"
    ops = r"as<ConstantStruct>\(%s\)\.operands\(\)" % ini
    bc = r"as<BitCastOperator>\((?:as<ConstantExpr>\()?elem\(%s\)\)?\)" % ops
    g = bc + r"\.getOperand\(0\)"
    nm = g + r"\.getName\(\)"
    cl = P + r"removeTypeInfoPrefix\((?:llvm::)?demangle\(%s\.str\(\)\)\)" % nm
    ret = {t2s(p.ret) for p in ps}
    ctx.ob("edges", len(ret) == 1, where(fn), "returns %s" % ret, fn.qn)
    add = calls(ps, "push_back|emplace_back", re.escape(sorted(ret)[0]))
    only(ctx, "edges", fn, add, [r"this\.ClearNameTypeMap\[%s\]" % cl],
         "a base is entered")
    if not add:
        return
    for it in add:
        over(ctx, "edges", fn, it, [ops], "a base is entered")
    find = r"\((?:%s\.find\(.*TypeInfoPrefix.*\) == .*npos|.*npos == %s\.find" \
        r"\(.*TypeInfoPrefix.*\))\)" % (nm, nm)
    iff(ctx, "edges", fn, ps, add, [
        r"this\.ClearNameTIMap has " + key, ti + r"\.hasInitializer\(\)",
        r"isa<ConstantStruct>\(%s\)" % ini, r"isa<BitCastOperator>\(.*\)",
        g + r"\.hasName\(\)", r"this\.ClearNameTypeMap has " + cl],
        "a base is entered", free=[
            r"isa<ConstantExpr>\(elem\(%s\)\)" % ops, find,
            nm + r"\.(?:startswith|starts_with|contains)\(.*TypeInfoPrefix.*"])
    # conditions on the name: a type info
    for it in add:
        ctx.ob("edges", not any(Pat(find).ok(l) for l in lits(it.pc)),
               where(fn), "an operand that is no type info is entered", fn.qn)


def vfuncs(ctx, fn, ps, P):
    key = P + r"removeStructOrClassPrefix\(\$1(?:\.getName\(\))?\)"
    tv = r"this\.ClearNameTVMap(?:\[%s\]|\.lookup\(%s\))" % (key, key)
    gv = r"(?:as<GlobalVariable>\()?%s\)?" % tv
    ini = gv + r"\.getInitializer\(\)"
    want = P + r"getVFVectorFromIRVTable\(\*?as<ConstantStruct>\(%s\)\)" % ini
    nul = r"\((?:%s == null|null == %s)\)" % (tv, tv)
    got = 0
    for p in ps:
        L, r = lits(p.pc), p.ret
        res = None
        val = t2s(r)
        for e in p.ev:
            if e.kind in ("write", "init") and e.obj == r:
                val = t2s(e.args[0])
        full = any(Pat(r"isa<ConstantStruct>\(%s\)" % ini).ok(l) for l in L)
        none = any(Pat(w).ok(l) for l in L for w in (
            nul, "!isa<GlobalVariable>\\(%s\\)" % tv,
            "!" + gv + r"\.hasInitializer\(\)",
            r"!isa<ConstantStruct>\(%s\)" % ini,
            r"!this\.ClearNameTVMap has " + key))
        if full:
            got += 1
            ctx.ob("vtable", Pat(want).ok(val), where(fn), "the virtual "
                   "functions are %s" % val, fn.qn)
        else:
            ctx.ob("vtable", none and re.fullmatch(
                r"~?\w*|vector\w*\{\}", val) is not None, where(fn), "the "
                "virtual functions are %s when %s" % (val, sorted(L)), fn.qn)
    ctx.ob("vtable", got > 0, where(fn), "no vtable is read", fn.qn)


def llvm_queries(ctx):
    F = ctx.facts(TH + "LLVMTypeHierarchy.cpp")
    Q = "psr::LLVMTypeHierarchy::"
    returns(ctx, F, Q, {
        "hasType": r"this\.TypeVertexMap has \$0",
        "isSubType": r"this\.getSubTypes\(\$0\) has \$1",
        "size": r"boost::num_vertices\(this\.TypeGraph\)|"
                r"this\.TypeVertexMap\.size\(\)",
        "empty": r"\((?:boost::num_vertices\(this\.TypeGraph\) == 0|0 == "
                 r"boost::num_vertices\(this\.TypeGraph\))\)|"
                 r"empty\(this\.TypeVertexMap\)",
        "getTypeName": r"(?:StringRef\{)?\$0\.(?:getStructName|getName)\(\)"
                       r"\}?",
    }, ["getSubTypes"])
    for fn in F.find(Q + "getSubTypes"):
        if len(fn.ps) != 1:
            continue
        for p in live(ctx.summary(F, fn)):
            L, r = lits(p.pc), t2s(p.ret)
            if "this.TypeVertexMap has $0" in L:
                ctx.ob("query", Pat(
                    r"(?:set\{)?this\.TypeGraph\[this\.TypeVertexMap(?:"
                    r"\[\$0\]|\.at\(\$0\))\]\.ReachableTypes\}?").ok(r),
                    where(fn), "the subtypes are %s" % r, fn.qn)
            else:
                ctx.ob("query", "!this.TypeVertexMap has $0" in L and
                       re.fullmatch(r"set\w*\{\}|\{\}", r) is not None,
                       where(fn), "the subtypes of an unknown type are %s"
                       % r, fn.qn)
    V = r"elem\(boost::make_iterator_range\(boost::vertices\(this\.TypeGraph" \
        r"\)\)\)"
    for fn in F.find(Q + "getAllTypes"):
        ps = live(ctx.summary(F, fn, keep_mem=True))
        ret = {t2s(p.ret) for p in ps}
        add = calls(ps, "push_back|emplace_back|insert")
        only(ctx, "query", fn, add, [r"this\.TypeGraph\[%s\]\.Type|elem\("
                                     r"this\.Type\w+Map\)\.first" % V],
             "a type is listed")
        if add:
            ctx.ob("query", ret == {t2s(add[0].ev.obj)}, where(fn),
                   "returns %s" % ret, fn.qn)
            iff(ctx, "query", fn, ps, add, [], "a type is listed")
            over(ctx, "query", fn, add[0],
                 [V[6:-2] + r"|this\.Type\w+Map"], "a type is listed")
    for fn in F.find(Q + "getType"):
        ps = live(ctx.summary(F, fn, stop=["getTypeName"]))
        n = 0
        for p in ps:
            if t2s(p.ret) == "null":
                continue
            n += 1
            r = t2s(p.ret)
            e = r"elem\(this\.TypeVertexMap\)|elem\(this\.Type\w+Map\)"
            ctx.ob("query", Pat(
                r"(?:this\.TypeGraph\[%s\]\.Type|elem\(this\.TypeVertexMap\)"
                r"\.first)" % V).ok(r), where(fn), "the type found is %s" % r,
                fn.qn)
        found = False
        for it in items(ps):
            for l in it.loops:
                for q in l.paths:
                    if q.exit == "return":
                        found = True
                        LL = lits(q.pc)
                        x = t2s(q.ret)
                        y = re.escape(x)
                        y2 = re.escape(re.sub(r"\.Type$", "", x))
                        nm = r"(?:(?:StringRef\{)?(?:%s\.(?:getName|" \
                            r"getStructName)\(\)(?:\.str\(\))?|%s\." \
                            r"getTypeName\(\)|this\.getTypeName\(%s\))\}?)" % (
                                y, y2, y)
                        k = r"\$0(?:\.str\(\))?"
                        ctx.ob("query", any(Pat(
                            r"\((?:%s == %s|%s == %s)\)" % (nm, k, k, nm))
                            .ok(z) for z in LL), where(fn), "the type %s is "
                            "found when %s" % (x, sorted(LL)), fn.qn)
        ctx.ob("query", found or n > 0, where(fn), "no type is found", fn.qn)


def vft(ctx):
    F = ctx.facts(TH + "LLVMVFTable.cpp")
    Q = "psr::LLVMVFTable::"
    for fn in F.find(Q + "getFunction"):
        lt = {"($0 < this.VFT.size())", "($0 < this.size())"}
        for p in live(ctx.summary(F, fn)):
            L, r = lits(p.pc), t2s(p.ret)
            inb = bool(L & lt)
            out = bool(L & {"!" + x for x in lt})
            ctx.ob("vtable", inb and r in ("this.VFT[$0]", "this.VFT.at($0)")
                   or out and r == "null", where(fn), "entry $0 is %s when %s"
                   % (r, sorted(L)), fn.qn)
    for fn in F.find(Q + "getIndex"):
        for p in live(ctx.summary(F, fn)):
            L, r = lits(p.pc), t2s(p.ret)
            f = r"std::find\(begin\(this\.VFT\), end\(this\.VFT\), \$0\)"
            miss = r"\((?:%s == end\(this\.VFT\)|end\(this\.VFT\) == %s)\)" % (
                f, f)
            has = "this.VFT has $0" in L or any(
                Pat("!" + miss).ok(l) for l in L)
            no = "!this.VFT has $0" in L or any(Pat(miss).ok(l) for l in L)
            good = Pat(r"(?:std::distance\(begin\(this\.VFT\), .*\)|"
                       r"\(.* - begin\(this\.VFT\)\))").ok(r)
            ctx.ob("vtable", has and good or no and r == "-1", where(fn),
                   "the index is %s when %s" % (r, sorted(L)), fn.qn)
    for fn in F.find(Q + "getVFVectorFromIRVTable"):
        ps = live(ctx.summary(F, fn, keep_mem=True))
        ret = {t2s(p.ret) for p in ps}
        add = calls(ps, "push_back|emplace_back", re.escape(sorted(ret)[0]))
        ctx.ob("vtable", len(ret) == 1 and bool(add), where(fn), "no entries",
               fn.qn)
        arr = r"as<ConstantArray>\(elem\(\$0\.operands\(\)\)\)\.operands\(\)"
        for l in {id(it.loops[-1]): it.loops[-1] for it in add}.values():
            slots(ctx, fn, l, arr)
        for it in add:
            ctx.ob("vtable", len(it.loops) == 2 and t2s(
                it.loops[0].container) == "$0.operands()" and whole(
                    it.loops[0]), where(fn), "not every array of the vtable "
                "is read", fn.qn)
            ctx.ob("vtable", "isa<ConstantArray>(elem($0.operands()))" in
                   lits(it.pc), where(fn), "an operand that is no array is "
                   "read", fn.qn)
    returns(ctx, F, Q, {"size": r"this\.VFT\.size\(\)",
                        "empty": r"empty\(this\.VFT\)",
                        "getAllFunctions": r"this\.VFT"})


def slots(ctx, fn, l, arr):
    """every entry from the third on gets its slot"""
    start = step = False
    src = ""
    var = None
    if l.kind == "range":
        src = t2s(l.container)
        start = step = Pat(
            r"(?:llvm::)?drop_begin\(%s, 2\)|%s\.(?:drop_front|slice)\(2\)" % (
                arr, arr)).ok(src)
        cur = r"elem\(%s\)" % re.escape(src)
    else:
        for s, y in (l.entry or {}).items():
            if Pat(r"std::next\(begin\(%s\), 2\)|\(begin\(%s\) \+ 2\)" % (
                    arr, arr)).ok(t2s(y)):
                start, var = True, t2s(s)
        for k, vals, pc in l.carry:
            v = {t2s(s): t2s(y) for s, y in vals.items() if y is not None}
            if k == "next" and var:
                step = v.get(var) in ("(%s + 1)" % var, "(1 + %s)" % var,
                                      "std::next(%s)" % var)
        cur = r"\*%s" % re.escape(var or "")
        ex = [lits(pc) for pc in l.exits]
        ctx.ob("vtable", all(Pat(
            r"\((?:end\(%s\) == %s|%s == end\(%s\))\)" % (
                arr, re.escape(var or ""), re.escape(var or ""), arr)).ok(
                    "".join(x)) for x in ex) and ex, where(fn),
            "the entries end when %s" % ex, fn.qn)
    ctx.ob("vtable", start and step and not any(
        q.exit in ("break", "return") for q in l.paths), where(fn),
        "not every entry from the third on is read (%s)" % src, fn.qn)
    for q in live(l.paths):
        L = lits(q.pc)
        ad = [e for e in q.ev if e.kind == "call" and
              last(e.name) in ("push_back", "emplace_back")]
        fun = any(re.match(r"isa<BitCastOperator>", x) for x in L)
        ctx.ob("vtable", len(ad) == 1, where(fn), "an entry takes %d slots "
               "when %s" % (len(ad), sorted(L)), fn.qn)
        if len(ad) != 1:
            continue
        v = t2s(ad[0].args[0])
        if not fun:
            ctx.ob("vtable", v == "null", where(fn), "the entry is %s when %s"
                   % (v, sorted(L)), fn.qn)
            continue
        g = re.fullmatch(r"as<Function>\((.*)\)", v)
        ok = g is not None
        lp = [e.loop for e in q.ev if e.kind == "loop"]
        if ok:
            x = g.group(1)
            ok = False
            op = r"as<BitCastOperator>\((?:as<ConstantExpr>\()?%s\)?\)\." \
                r"getOperand\(0\)" % cur
            if Pat(r"%s\.stripPointerCastsAndAliases\(\)" % op).ok(x):
                ok = True
            for l2 in lp:
                ent = {t2s(s): t2s(y) for s, y in (l2.entry or {}).items()}
                ok = Pat(op).ok(ent.get(x, ""))
                for k, vals, pc in l2.carry:
                    vv = {t2s(s): t2s(y) for s, y in vals.items()
                          if y is not None}
                    if k == "next" and vv.get(x) != \
                            "as<GlobalAlias>(%s).getAliasee()" % x:
                        ok = False
        ctx.ob("vtable", ok or v == "null" and any(
            x.startswith("!isa<Function>") for x in L), where(fn),
            "the entry is %s" % v, fn.qn)
