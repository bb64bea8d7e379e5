"""P07: the type-erased edge-function handle owns its payload correctly and
dispatches to it faithfully."""
from spec import *

EXPLAIN = ("Ownership/typestate rules over the dataflow summaries of every "
           "constructor, assignment, destructor, dispatch slot, cast and "
           "comparison of EdgeFunction/EdgeFunctionRef and of the singleton "
           "caches, instantiated with empty, small, heap-allocated, hashable "
           "and non-hashable payloads, plus compile-fail witnesses.")
EF = "psr::EdgeFunction::"
REF = "psr::EdgeFunctionRef::"
STOP = ["getPtr", "isa"]
POL = {0: "SmallObjectOptimized", 1: "DefaultHeapAllocated",
       2: "CustomHeapAllocated"}
SOOS = ("Empty", "Small")


def polrx(n, F):
    v = next((c[1] for c in F.enums["psr::EdgeFunctionAllocationPolicy"][
        "consts"] if c[0] == POL[n]), n)
    return r"(?:(?:\w+::)*%s|%s)" % (POL[n], v)


def evs(p, names=None):
    """observable events of a path as text"""
    out = []
    for it in items([p]):
        e = it.ev
        if e.kind == "call" and (e.pure or last(e.name) in ("getPtr", "isa")):
            continue
        if e.kind in ("loop",):
            continue
        if e.kind == "write" and t2s(e.obj).startswith("?"):
            continue
        out.append(re.sub(r"^[!~]\s*", "", e.s().strip()))
    return out


def live(ps):
    return [p for p in ps if p.exit not in ("noreturn", "throw")]


def delegate(p):
    """arguments handed to the counting constructor"""
    for it in items([p]):
        e = it.ev
        if e.name and "(delegating)" in e.name or "(delegating)" in e.s():
            return t2s(e.args[0]) if e.args else e.s()
    return None


def final(p):
    """last value written to each location, with exchange/swap understood"""
    st = {}
    for it in items([p]):
        e = it.ev
        if e.kind == "call" and last(e.name) == "exchange":
            st[t2s(e.args[0])] = t2s(e.args[1])
        elif e.kind == "call" and last(e.name) == "swap":
            a = [t2s(x) for x in ([e.obj] if e.obj is not None and
                                  len(e.args) == 1 else []) + list(e.args)]
            va, vb = st.get(a[0], a[0]), st.get(a[1], a[1])
            st[a[0]], st[a[1]] = vb, va
        elif e.kind == "write":
            v = t2s(e.args[0]) if e.args else "?"
            m = re.fullmatch(r"(?:std::)?exchange\((\S+), .*\)", v)
            st[t2s(e.obj)] = m[1] if m else v
    return st


NULLV = re.compile(r"null|0|\w*PointerIntPair\{(?:null, 0|)\}")


def payload(fn):
    m = re.findall(r"verif_inst::(\w+)", " ".join(
        list(map(str, fn.decl.ta)) + [fn.decl.clsT] + fn.decl.pt))
    return m[0] if m else None


def run(ctx):
    ctx.witness("handle-layout", "wit_ef.cpp")
    F = ctx.facts("ef_handle.cpp")
    SOO, DEF, CUS = (polrx(i, F) for i in range(3))
    construct(ctx, F, SOO, DEF, CUS)
    destroy(ctx, F, SOO, DEF, CUS)
    slots(ctx, F, CUS, DEF)
    api(ctx, F, SOO, DEF, CUS)
    compare(ctx, F)
    casts(ctx, F, CUS, DEF)
    cache(ctx, F)


def construct(ctx, F, SOO, DEF, CUS):
    VT = r"&@(?:\w+::)*VTableFor<(?:\w+::)*%s>"
    seen = {}
    for fn in F.find(EF + "(ctor)"):
        ps = live(ctx.summary(F, fn, stop=STOP))
        pt = fn.decl.pt
        w = where(fn)
        pay = payload(fn)
        k = None
        if len(pt) == 2 and pt[0] == "const void *":
            k = "counting"
            for p in ps:
                L = lits(p.pc)
                soo = [x for x in L if re.fullmatch(
                    r"!?\((?:\$1|this\.VTAndHeapAlloc)\.getInt\(\) == %s\)"
                    % SOO, x)]
                ctx.ob("count", len(soo) == 1, w, "a path does not depend on "
                       "the allocation policy: %s" % sorted(L))
                if len(soo) != 1:
                    continue
                heap = soo[0][0] == "!"
                rc = [x for x in evs(p) if ".Rc" in x]
                inc = [x for x in rc if re.search(
                    r"(?:\$0|this\.EF)\.Rc(?:\.fetch_add\(1\b|\.operator\+\+|"
                    r".*\+\+|\.operator\+=\(1)", x)]
                ctx.ob("count", len(inc) == len(rc) == (1 if heap else 0), w,
                       "%s payload changes the reference count by %s" % (
                           "a shared" if heap else "an in-place", rc))
                st = final(p)
                ctx.ob("count-state", st.get("this.EF") == "$0" and
                       st.get("this.VTAndHeapAlloc") == "$1", w,
                       "the handle does not hold what it was given: %s" % st)
        elif not pt or pt == ["std::nullptr_t"]:
            k = "null"
            for p in ps:
                st = final(p)
                d = delegate(p)
                ctx.ob("null-handle", d in ("EdgeFunction{}",
                                            "EdgeFunction{null}") or
                       all(NULLV.fullmatch(st.get("this." + f, "?"))
                           for f in ("EF", "VTAndHeapAlloc")), w,
                       "a null handle is not empty: %s" % (d or st))
                ctx.ob("null-handle", not [x for x in evs(p) if ".Rc" in x],
                       w, "counts a null handle")
        elif len(pt) == 1 and re.fullmatch(
                r"const psr::EdgeFunction<[^{]*> &", pt[0]):
            k = "copy"
            for p in ps:
                ctx.ob("copy", delegate(p) ==
                       "EdgeFunction{$0.EF, $0.VTAndHeapAlloc}", w, "a copy "
                       "must share the payload and count itself: %s" % evs(p))
        elif len(pt) == 1 and re.fullmatch(r"psr::EdgeFunction<[^{]*> &&",
                                           pt[0]):
            k = "move"
            for p in ps:
                st = final(p)
                ok = (st.get("this.EF") == "$0.EF" and
                      st.get("this.VTAndHeapAlloc") == "$0.VTAndHeapAlloc" and
                      NULLV.fullmatch(st.get("$0.VTAndHeapAlloc", "?")) and
                      NULLV.fullmatch(st.get("$0.EF", "?")))
                ctx.ob("move", bool(ok) and not any(".Rc" in x
                                                    for x in evs(p)), w,
                       "a move must transfer the payload, leave null behind "
                       "and not touch the count: %s" % evs(p))
        elif "EdgeFunctionRef<" in pt[0]:
            k = "ref"
            for p in ps:
                d = delegate(p) or ""
                L = lits(p.pc)
                pol = SOO if pay in SOOS else CUS if "$0.IsCached" in L else \
                    DEF if "!$0.IsCached" in L else "never"
                ctx.ob("from-ref", re.fullmatch(
                    r"EdgeFunction\{\$0\.Instance, \w+\{%s, %s\}\}" % (
                        VT % pay, pol), d), w, "a reference to %s %s becomes "
                    "%s" % (pay, sorted(L), d))
        elif "CachedEdgeFunction<" in pt[0]:
            k = "cached"
            for p in ps:
                d = delegate(p) or ""
                m = re.fullmatch(r"EdgeFunction\{(.*), \w+\{%s, (%s)\}\}" % (
                    VT % pay, SOO if pay in SOOS else CUS), d)
                ctx.ob("from-cached", m, w, "builds %s for a cached %s" % (
                    d, pay))
                if not m:
                    continue
                src = m[1]
                E = evs(p)
                new = [x for x in E if x.startswith("new ")]
                ins = [x for x in E if ".insert(" in x]
                L = lits(p.pc)
                if pay in SOOS:
                    ctx.ob("in-place", not src.startswith("~"), w, "the "
                           "in-place payload leaves bytes of the stored "
                           "pointer uninitialised")
                    ctx.ob("in-place", len(new) == 1 and
                           "%s($0.EF)" % pay in new[0] and not ins, w,
                           "an in-place payload is stored by %s" % E)
                    continue
                hit = "!($0.Cache.lookup($0.EF) == null)" in L
                miss = "($0.Cache.lookup($0.EF) == null)" in L
                ctx.ob("from-cached", hit != miss, w, "does not consult the "
                       "cache: %s" % sorted(L))
                if hit:
                    ctx.ob("from-cached", src == "$0.Cache.lookup($0.EF)" and
                           not new and not ins, w,
                           "a cached payload must be shared: %s" % E)
                elif miss:
                    ok = len(new) == 1 and len(ins) == 1 and re.search(
                        r"CachedRefCounted.*\$0\.EF.*\$0\.Cache", new[0]) and \
                        src in new[0] and E.index(new[0]) < E.index(ins[0])
                    n = src
                    ok = ok and ins[0] in (
                        "$0.Cache.insert(&%s.Value, %s)" % (n, n),)
                    ctx.ob("from-cached", ok, w, "a new payload must be "
                           "allocated with its cache and registered there: %s"
                           % E)
        elif "in_place_type_t" in pt[0]:
            k = "emplace"
            for p in ps:
                d = delegate(p) or ""
                m = re.fullmatch(r"EdgeFunction\{(.*), \w+\{%s, (%s)\}\}" % (
                    VT % pay, SOO if pay in SOOS else DEF), d)
                ctx.ob("emplace", m, w, "builds %s for %s" % (d, pay))
                E = evs(p)
                new = [x for x in E if x.startswith("new ")]
                ctx.ob("emplace", len(new) == 1 and "$1" in new[0] and
                       not any(".Rc" in x or ".insert(" in x for x in E), w,
                       "the payload is stored by %s" % E)
                if m and pay in SOOS:
                    ctx.ob("in-place", not m[1].startswith("~"), w, "the "
                           "in-place payload leaves bytes of the stored "
                           "pointer uninitialised")
                elif m and new:
                    ctx.ob("emplace", m[1] == new[0][4:] and re.search(
                        r"\bRefCounted", m[1]), w, "stores %s" % m[1])
        else:
            k = "convert"
            for p in ps:
                d = delegate(p) or ""
                ctx.ob("convert", re.fullmatch(
                    r"EdgeFunction\{@?(?:std::)?in_place_type\S*, \$0\}", d) or
                    re.fullmatch(r"EdgeFunction\{(?:new .*|null|.*), \w+\{%s, "
                                 r"%s\}\}" % (VT % pay, SOO if pay in SOOS
                                              else DEF), d), w,
                    "converts to %s" % d)
        seen[k] = seen.get(k, 0) + 1
    for k, n in (("counting", 1), ("null", 1), ("copy", 1), ("move", 1),
                 ("ref", 5), ("cached", 5), ("emplace", 5), ("convert", 5)):
        ctx.ob("every-constructor", seen.get(k, 0) >= n, "EdgeFunction",
               "only %d %s constructors found" % (seen.get(k, 0), k))
    for fn in F.find(EF + "operator="):
        for p in live(ctx.summary(F, fn, stop=STOP)):
            E = evs2(p)
            null = "nullptr_t" in fn.decl.pt[0]
            news = [i for i, x in enumerate(E) if x.startswith("new ")]
            dest = [i for i, x in enumerate(E) if re.search(
                r"destroy_at\((?:&\*)?this\)|this\.~EdgeFunction|\(dtor\)", x)]
            swp = [x for x in E if re.search(r"swap\(", x)]
            if swp:
                ok = len(swp) == 1 and not news and not dest
            else:
                want = r"new (?:psr::)?EdgeFunction\(%s\)" % (
                    r"(?:null|EdgeFunction\{(?:null)?\})?" if null
                    else r"(?:EdgeFunction\{)?\$0\}?")
                ok = len(news) == len(dest) == 1 and dest[0] < news[0] and \
                    re.search(want, E[news[0]])
            ctx.ob("assign", ok, where(fn), "assignment must release the old "
                   "payload exactly once before it takes over the new one: %s"
                   % E)
            ctx.ob("assign", t2s(p.ret) in ("*this", "this") or
                   t2s(p.ret).startswith("*new EdgeFunction"), where(fn),
                   "returns %s" % t2s(p.ret))
    ctx.atleast("assign", 4)
    for fn in F.find(EF + "swap"):
        for p in live(ctx.summary(F, fn, stop=STOP)):
            st = final(p)
            ctx.ob("swap", all(st.get("this." + f) == "$0." + f and
                               st.get("$0." + f) == "this." + f
                               for f in ("EF", "VTAndHeapAlloc")),
                   where(fn), "swaps %s" % st)
    ctx.atleast("swap", 1)


def evs2(p):
    return [re.sub(r"^[!~]\s*", "", it.ev.s().strip()) for it in items([p])
            if it.ev.kind in ("call", "new", "write")]


def destroy(ctx, F, SOO, DEF, CUS):
    for fn in F.find(EF + "(dtor)"):
        w = where(fn)
        for p in live(ctx.summary(F, fn, stop=STOP)):
            L = lits(p.pc)
            E = evs(p)
            soo = "this.VTAndHeapAlloc.getInt() == "
            isoo = [x for x in L if soo in x and re.search(SOO, x)]
            ctx.ob("release", len(isoo) == 1, w, "does not depend on the "
                   "allocation policy: %s" % sorted(L))
            if len(isoo) != 1:
                continue
            heap = isoo[0][0] == "!"
            dec = [x for x in E if ".Rc" in x]
            call = [x for x in E if ".destroy" in x]
            if not heap:
                ctx.ob("release", not dec and not call, w,
                       "an in-place payload is released: %s" % E)
                continue
            ctx.ob("release", len(dec) == 1 and re.search(
                r"this\.EF\.Rc(?:\.fetch_sub\(1\b|\.operator--|.*--|"
                r"\.operator-=\(1)", dec[0]), w, "a shared payload is not "
                "counted down exactly once: %s" % E)
            lastref = [x for x in L if re.fullmatch(
                r"!?\(this\.EF\.Rc\.fetch_sub\(1(?:, \S+)?\) == 1\)|!?\(?"
                r"this\.EF\.Rc\.(?:operator--\(.*\)|operator-=\(1\)) == 0\)",
                x)]
            ctx.ob("release", len(lastref) == 1 and
                   (lastref[0][0] != "!") == (len(call) == 1), w,
                   "the payload must be destroyed exactly when the last "
                   "reference goes: %s when %s" % (call, sorted(L)))
            for x in call:
                ctx.ob("release", re.search(
                    r"\(?this\.VTAndHeapAlloc\.getPointer\(\)\.destroy\)?"
                    r"\(this\.EF, this\.VTAndHeapAlloc\.getInt\(\)\)", x), w,
                    "destroys with %s" % x)
            for it in items([p]):
                m = re.search(r"memory_order(?:::memory_order)?_(\w+)",
                              it.ev.s()) if ".Rc" in it.ev.s() else None
                if m:
                    ctx.ob("release-order", m[1] in ("acq_rel", "seq_cst"), w,
                           "counting down with memory order %s lets another "
                           "thread destroy the payload too early" % m[1])
    ctx.atleast("release", 5)


def slots(ctx, F, CUS, DEF):
    """what the dispatch table of a payload type does"""
    rec = F.recs["psr::EdgeFunction::VTable"][0]
    order = [f[0] for f in rec["fields"]]
    lam = {}
    for fn in F.all_fns():
        if fn.qn == EF + "(lambda)::operator()" and \
                fn.decl.pt[:1] == ["const void *"]:
            lam.setdefault(fn.line, []).append(fn)
    rows = [lam[l] for l in sorted(lam)]
    ctx.ob("slots", len(rows) == len(order), "EdgeFunction::VTable", "the "
           "dispatch table has %d members but %d functions" % (
               len(order), len(rows)))
    if len(rows) != len(order):
        return
    P = r"\*?(?:\w+::)*getPtr(?:<[^>]*>)?\(\$0\)"
    for nm, fns in zip(order, rows):
        ctx.ob("slots", len(fns) >= 5, "EdgeFunction::VTable",
               "%s is instantiated only %d times" % (nm, len(fns)))
        for fn in fns:
            w = where(fn)
            ps = live(ctx.summary(F, fn, stop=STOP + [
                "computeTarget", "compose", "join", "isConstant", "depth",
                "hash_value"]))
            for p in ps:
                r = t2s(p.ret) if p.ret is not None else ""
                E = evs(p)
                if nm in ("compose", "join"):
                    pol = r"\(\$2 == %s\)" % CUS
                    ctx.ob("slots", re.fullmatch(
                        r"(?:\w+::)*(\w+)::%s\(EdgeFunctionRef\{\$0, %s\}, "
                        r"\$1\)" % (nm, pol), r), w, "%s does %s" % (nm, r))
                elif nm == "computeTarget":
                    ctx.ob("slots", re.fullmatch(
                        P + r"\.computeTarget\(\$1\)", r) or r == "$1", w,
                        "%s does %s" % (nm, r))
                elif nm == "equals":
                    P2 = P.replace("0", "1")
                    ctx.ob("slots", r == "true" or re.fullmatch(
                        r"\((?:%s == %s|%s == %s)\)" % (P, P2, P2, P), r) or
                        re.fullmatch(r"\(?%s\.operator==\(%s\)\)?" % (P, P2),
                                     r), w, "%s does %s" % (nm, r))
                elif nm == "isConstant":
                    ctx.ob("slots", r == "false" or re.fullmatch(
                        P + r"\.isConstant\(\)", r), w, "%s does %s" % (nm, r))
                elif nm == "depth":
                    ctx.ob("slots", r == "1" or re.fullmatch(
                        P + r"\.depth\(\)", r), w, "%s does %s" % (nm, r))
                elif nm == "destroy":
                    L = lits(p.pc)
                    dl = [it.ev for it in items([p])
                          if it.ev.kind == "delete"]
                    er = [x for x in E if ".erase(" in x]
                    if not L and not dl:
                        continue
                    cus = any(re.fullmatch(r"\(\$1 == %s\)" % CUS, x)
                              for x in L) or any(re.fullmatch(
                                  r"!\(\$1 == %s\)" % DEF, x) for x in L)
                    ctx.ob("destroy", len(dl) == 1 and
                           "delete($0)" in dl[0].s(), w, "a heap payload "
                           "must be deleted exactly once: %s" % E)
                    ctx.ob("destroy", len(er) == (1 if cus else 0), w,
                           "a payload is removed from its cache iff it is "
                           "cached: %s when %s" % (E, sorted(L)))
                    if er:
                        ix = [i for i, x in enumerate(E) if "delete(" in x]
                        ctx.ob("destroy", ix and re.fullmatch(
                            r"\$0\.Cache\.erase\(\$0\.Value\)", er[0]) and
                            E.index(er[0]) < ix[0], w,
                            "the cache entry must go before the payload: %s"
                            % E)
                    for e in dl:
                        ty = str(e.name)
                        ctx.ob("destroy",
                               ("CachedRefCounted<" in ty) == cus, w,
                               "a %s payload is deleted as %s" % (
                                   "cached" if cus else "plain", ty))
                elif nm == "print":
                    ctx.ob("slots", len(E) <= 1, w, "%s does %s" % (nm, E))
    # an in-place payload is never deleted, every other is
    n = {True: 0, False: 0}
    for fn in rows[order.index("destroy")]:
        ps = live(ctx.summary(F, fn, stop=STOP))
        n[any(it.ev.kind == "delete" for p in ps for it in items([p]))] += 1
    ctx.ob("destroy", n[False] == 2 and n[True] == 3, where(
        rows[order.index("destroy")][0]),
        "of 2 in-place and 3 heap payloads, %d are deleted" % n[True])
    ctx.atleast("destroy", 10)
    ctx.atleast("slots", 30)


def api(ctx, F, SOO, DEF, CUS):
    def disp(nm, self_, args, n=1):
        for fn in F.find(EF + nm):
            for p in live(ctx.summary(F, fn, stop=STOP)):
                r = t2s(p.ret)
                ok = re.fullmatch(
                    r"\(?%s\.VTAndHeapAlloc\.getPointer\(\)\.%s\)?\(%s\)" % (
                        self_, nm, args), r)
                if nm == "getHashCode" and r == "0":
                    ok = any("getOpaqueValue() == null" in x or
                             "getPointer() == null" in x
                             for x in lits(p.pc) if x[0] != "!")
                ctx.ob("dispatch", ok, where(fn), "%s does %s" % (nm, r))
    disp("computeTarget", "this", r"this\.EF, \$0")
    disp("isConstant", "this", r"this\.EF")
    disp("depth", "this", r"this\.EF")
    disp("getHashCode", "this",
         r"this\.EF, this\.VTAndHeapAlloc\.getPointer\(\)")
    for nm in ("compose", "join"):
        disp(nm, r"\$0", r"\$0\.EF, \$1, \$0\.VTAndHeapAlloc\.getInt\(\)")
        for fn in F.find(EF + nm + "With" if nm == "compose" else
                         EF + "joinWith"):
            for p in live(ctx.summary(F, fn, stop=STOP)):
                r = t2s(p.ret)
                ctx.ob("dispatch", re.fullmatch(
                    r"\(?this\.VTAndHeapAlloc\.getPointer\(\)\.%s\)?\(this\.EF"
                    r", \$0, this\.VTAndHeapAlloc\.getInt\(\)\)" % nm, r) or
                    re.fullmatch(r"(?:\w+::)*%s\(\*?this, \$0\)" % nm, r),
                    where(fn), "%sWith does %s" % (nm, r))
    ctx.atleast("dispatch", 9)

    def pol(nm, cls, ok):
        for fn in F.find(cls + nm):
            decide(ctx, "policy", fn, ctx.summary(F, fn, stop=STOP),
                   {"soo": Pat(r"\(this\.VTAndHeapAlloc\.getInt\(\) == %s\)"
                               % SOO),
                    "def": Pat(r"\(this\.VTAndHeapAlloc\.getInt\(\) == %s\)"
                               % DEF),
                    "cus": Pat(r"\(this\.VTAndHeapAlloc\.getInt\(\) == %s\)"
                               % CUS)},
                   lambda A: None if sum(A.values()) != 1 else ok(A, fn),
                   pure=False)
    pol("isRefCounted", EF, lambda A, f: not A["soo"])
    pol("isCached", EF, lambda A, f: A["cus"])
    pol("getCacheOrNull", EF, lambda A, f: Pat("null") if payload(f) in SOOS
        else ANY if A["soo"] else Pat(r"this\.EF\.Cache") if A["cus"] else
        Pat("null"))
    for fn in F.find(REF + "isCached"):
        decide(ctx, "policy", fn, ctx.summary(F, fn, stop=STOP),
               {"c": Pat(r"this\.IsCached")}, lambda A: False
               if payload(fn) in SOOS else A["c"])
    for fn in F.find(REF + "getCacheOrNull"):
        decide(ctx, "policy", fn, ctx.summary(F, fn, stop=STOP),
               {"c": Pat(r"this\.IsCached")}, lambda A:
               Pat(r"this\.Instance\.Cache") if A["c"] and
               payload(fn) not in SOOS else Pat("null"))
    ctx.atleast("policy", 20)
    for fn in F.find("psr::EdgeFunctionBase::getPtr"):
        for p in live(ctx.summary(F, fn)):
            want = "&$0" if payload(fn) in SOOS else "&$0.Value"
            ctx.ob("payload", t2s(p.ret) == want, where(fn),
                   "the payload of %s is looked up at %s" % (payload(fn),
                                                             t2s(p.ret)))
    for nm in ("get", "operator->", "operator*"):
        for fn in F.find(REF + nm):
            for p in live(ctx.summary(F, fn)):
                want = "&this.Instance" if payload(fn) in SOOS else \
                    "&this.Instance.Value"
                r = t2s(p.ret)
                ctx.ob("payload", r in (want, "*" + want, want[1:]),
                       where(fn), "%s yields %s" % (nm, r))
    ctx.atleast("payload", 20)


def compare(ctx, F):
    VP = r"(?:getPointer|getOpaqueValue)\(\)"
    vt = pat(["({a} == {b})", "({b} == {a})"],
             a=Pat(r"\$0\.VTAndHeapAlloc\.getPointer\(\)"),
             b=Pat(r"\$1\.VTAndHeapAlloc\.getPointer\(\)"))
    AT = {"vt": vt,
          "null": Pat(r"\(\$[01]\.VTAndHeapAlloc\.%s == null\)" % VP),
          "ref": Pat(r"\(\$([01])\.EF == \$(?!\1)[01]\.EF\)"),
          "eq": Pat(r"\(?\$[01]\.VTAndHeapAlloc\.getPointer\(\)\.equals\)?"
                    r"\((?:\$0\.EF, \$1\.EF|\$1\.EF, \$0\.EF)\)")}
    isrc = Pat(r"\$1\.isa\(\)|\$1\.isa<.*>\(\)|.*VTableFor.* == .*")

    def ex(A):
        if not A["vt"]:
            return False
        if A["null"]:
            return True
        return A["ref"] or A["eq"]
    n = 0
    for fn in F.find("psr::operator=="):
        pt = fn.decl.pt
        if payload(fn) and "EdgeFunctionRef<" in pt[1]:
            for p in live(ctx.summary(F, fn, stop=["operator=="])):
                if t2s(p.ret) in ("($1 == $0)", "($0 == $1)"):
                    ctx.ob("equality-ref", True, where(fn))
                    n += 1
                    pt = None
                    break
            if pt is None:
                continue
        if len(pt) != 2 or "EdgeFunction" not in pt[0] + pt[1]:
            continue
        if all(re.fullmatch(r"const psr::EdgeFunction<[^{]*> &", x)
               for x in pt):
            decide(ctx, "equality", fn, ctx.summary(F, fn, stop=STOP), AT, ex,
                   pure=False)
            n += 1
        elif "nullptr_t" in pt[0] + pt[1]:
            i = 0 if "nullptr" in pt[1] else 1
            decide(ctx, "equality", fn, ctx.summary(F, fn, stop=STOP), {
                "null": Pat(r"\(\$%d\.VTAndHeapAlloc\.%s == null\)" % (i, VP))
                }, lambda A: A["null"])
            n += 1
        elif "EdgeFunctionRef<" in pt[0] + pt[1]:
            i = 0 if "EdgeFunctionRef<" in pt[0] else 1
            pay = payload(fn)
            GP = r"\*?(?:\w+::)*getPtr(?:<[^>]*>)?\(\$%d\.EF\)"
            rp = r"\*?(?:(?:\w+::)*getPtr(?:<[^>]*>)?\(\$%d\.Instance\)|" \
                r"\$%d)" % (i, i)
            decide(ctx, "equality-ref", fn, ctx.summary(F, fn, stop=STOP), {
                "isa": Pat(r"\$%d\.isa(?:<.*>)?\(\)" % (1 - i)),
                "ref": Pat(r"\(\$0\.\w+ == \$1\.\w+\)"),
                "eq": Pat(r"\((?:%s == %s|%s == %s)\)" % (
                    rp, GP % (1 - i), GP % (1 - i), rp))},
                lambda A: A["isa"] and (pay == "Empty" or A["ref"] or
                                        A["eq"]), pure=False)
            n += 1
    ctx.ob("equality", n >= 8, "EdgeFunction.h", "only %d comparisons" % n)
    for fn in F.find(EF + "referenceEquals"):
        decide(ctx, "equality", fn, ctx.summary(F, fn, stop=STOP), {
            "vt": pat(["({a} == {b})", "({b} == {a})"],
                      a=Pat(r"\$0\.VTAndHeapAlloc(?:\.getPointer\(\))?"),
                      b=Pat(r"this\.VTAndHeapAlloc(?:\.getPointer\(\))?")),
            "ef": pat(["($0.EF == this.EF)", "(this.EF == $0.EF)"])},
            lambda A: A["vt"] and A["ef"])
    ctx.atleast("equality", 10)
    ctx.atleast("equality-ref", 10)
    # equal handles are never ordered
    for fn in F.find("psr::operator<"):
        if not all("EdgeFunction<" in x for x in fn.decl.pt):
            continue
        for p in live(ctx.summary(F, fn, stop=STOP + ["operator=="])):
            L = lits(p.pc)
            ctx.ob("order", t2s(p.ret) == "false" if "($0 == $1)" in L else
                   "!($0 == $1)" in L and bool(re.fullmatch(
                       r"\(\w+\{\$0\..*\} < \w+\{\$1\..*\}\)|\(\$0.* < "
                       r"\$1.*\)", t2s(p.ret))), where(fn),
                   "orders by %s when %s" % (t2s(p.ret), sorted(L)))
    ctx.atleast("order", 2)
    # the special keys of a dense map are equal to themselves only
    for fn in F.find("llvm::DenseMapInfo::isEqual"):
        if "EdgeFunction<" not in fn.decl.clsT:
            continue
        sp = r"(?:\w+::)*(?:getEmptyKey|getTombstoneKey)\(\)"
        for p in live(ctx.summary(F, fn, stop=[
                "referenceEquals", "getEmptyKey", "getTombstoneKey",
                "operator=="])):
            L = lits(p.pc)
            r = p.ret
            special = any(x[0] != "!" and re.search(sp, x) for x in L)
            re_ = "$0.referenceEquals($1)" in L or \
                "$1.referenceEquals($0)" in L
            if re_:
                ctx.ob("map-keys", t2s(r) == "true", where(fn), "identical "
                       "handles are not equal")
            elif special:
                ctx.ob("map-keys", t2s(r) == "false", where(fn), "a special "
                       "key equals another handle: %s" % sorted(L))
            else:
                need = ["$%d.referenceEquals(X)" % i for i in (0, 1)]
                k = {(i, n) for i in "01" for n in ("getEmptyKey",
                                                    "getTombstoneKey")
                     if any(x[0] == "!" and "$" + i in x and n in x
                            for x in L)}
                ctx.ob("map-keys", len(k) == 4, where(fn), "compares the "
                       "payload of a special key (excluded are only %s)"
                       % sorted(k))
                ctx.ob("map-keys", t2s(r) in ("($0 == $1)", "($1 == $0)",
                                              "true", "false"), where(fn),
                       "compares by %s" % t2s(r))
    ctx.atleast("map-keys", 6)


def casts(ctx, F, CUS, DEF):
    for fn in F.find(EF + "isa"):
        for p in live(ctx.summary(F, fn)):
            pay = payload(fn)
            v = r"&@(?:\w+::)*VTableFor<(?:\w+::)*%s>" % pay
            t = r"this\.VTAndHeapAlloc\.getPointer\(\)"
            ctx.ob("isa", re.fullmatch(r"\((?:%s == %s|%s == %s)\)" % (
                v, t, t, v), t2s(p.ret)), where(fn),
                "isa<%s> is %s" % (pay, t2s(p.ret)))
    ctx.atleast("isa", 5)
    gp = Pat(r"(?:\w+::)*getPtr(?:<[^>]*>)?\(this\.EF\)")
    for nm in ("dyn_cast", "cast"):
        for fn in F.find(EF + nm):
            decide(ctx, "cast", fn, ctx.summary(F, fn, stop=STOP), {
                "isa": Pat(r"this\.isa(?:<.*>)?\(\)")}, lambda A: gp
                if A["isa"] else Pat("null") if nm == "dyn_cast" else None,
                pure=False)
    ctx.atleast("cast", 10)
    for fn in F.find("llvm::dyn_cast_or_null", need=False) + \
            F.find("llvm::cast_or_null", need=False):
        if "EdgeFunction<" not in " ".join(fn.decl.pt):
            continue
        for p in live(ctx.summary(F, fn, stop=["isa", "cast", "isValid",
                                               "operator bool"])):
            L = lits(p.pc)
            nul = any(re.search(r"^!(?:truthy\()?\$0\)?(\.isValid\(\)|"
                                r"\.operator bool\(\))?$|^\(.*== null\)$", x)
                      for x in L)
            bad = any(re.match(r"!.*isa", x) for x in L)
            r = t2s(p.ret)
            ctx.ob("cast-or-null", (r == "null") if nul or bad else
                   r == "as<%s>($0)" % payload(fn) or "cast" in r, where(fn), "%s yields %s when %s" % (
                       last(fn.qn), r, sorted(L)))
    ctx.atleast("cast-or-null", 10)


def cache(ctx, F):
    C = "psr::DefaultEdgeFunctionSingletonCache::"

    def one(nm, rx, ret=None):
        for fn in F.find(C + nm):
            for p in live(ctx.summary(F, fn)):
                E = evs2(p)
                if ret:
                    ctx.ob("cache", re.fullmatch(ret, t2s(p.ret)) or
                           looked(p), where(fn), "%s yields %s" % (
                               nm, t2s(p.ret)))
                else:
                    m = [x for x in E if re.fullmatch(rx, x)]
                    ctx.ob("cache", len(m) == 1, where(fn),
                           "%s does %s" % (nm, E))
    def looked(p):
        r = t2s(p.ret)
        L = lits(p.pc)
        if r == "null":
            return any(x[0] != "!" and re.search(r"find\(&\$0\) == .*end\(", x)
                       for x in L)
        return re.fullmatch(r".*find\(&\$0\)\.second", r)
    one("lookup", None, r"this\.\w+(?:\.lookup\(&\$0\)|\[&\$0\])")
    one("insert", r"this\.\w+\.(?:try_emplace|emplace|insert)\((?:\w+\{)*\$0, "
        r"\$1\}*\)|this\.\w+\[\$0\] := \$1")
    one("erase", r"this\.\w+\.erase\(&\$0\)")
    for fn in F.find(C + "DSI::getHashValue"):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("cache", re.search(r"hash\w*(?:<.*>\{\})?\(\*\$0\)",
                                      t2s(p.ret)), where(fn),
                   "hashes by %s" % t2s(p.ret))
    for fn in F.find(C + "DSI::isEqual"):
        for p in live(ctx.summary(F, fn)):
            L = lits(p.pc)
            r = t2s(p.ret)
            if "($0 == $1)" in L:
                ctx.ob("cache-keys", r == "true", where(fn),
                       "identical entries are not equal")
            elif any(x[0] != "!" and ("EmptyKey" in x or "TombstoneKey" in x)
                     for x in L):
                ctx.ob("cache-keys", r == "false", where(fn),
                       "a special key equals an entry")
            else:
                k = {(i, n) for i in "01" for n in ("EmptyKey",
                                                    "TombstoneKey")
                     if any(x[0] == "!" and "$" + i in x and n in x
                            for x in L)}
                ctx.ob("cache-keys", len(k) == 4, where(fn), "dereferences a "
                       "special key (excluded are only %s)" % sorted(k))
                ctx.ob("cache-keys", r in ("(*$0 == *$1)", "(*$1 == *$0)",
                                           "true", "false"), where(fn),
                       "compares entries by %s" % r)
    ctx.atleast("cache", 4)
    ctx.atleast("cache-keys", 6)
    for fn in F.find("psr::EdgeFunctionSingletonCache::createEdgeFunction"):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("cache-create", re.fullmatch(
                r"CachedEdgeFunction\{(?:\w+\{)?\$0\}?, this\}", t2s(p.ret)),
                where(fn), "creates %s" % t2s(p.ret))
    ctx.atleast("cache-create", 5)
