"""P12: what is written as JSON is what is read back."""
from spec import *

EXPLAIN = ("Access-path flow analysis of writers and readers: every store is "
           "reduced to (destination path <- source path) over fields, JSON "
           "keys, elements and map entries; the composition of writer and "
           "reader must be the identity on every field, unconditional and "
           "for every element. Producers and consumers of the serialised "
           "form are judged the same way with their naming functions.")


def live(ps):
    return [p for p in ps if p.exit not in ("noreturn", "throw")]


# ------------------------------------------------------------- access paths
IDENT = {"get", "str", "move", "data", "c_str"}


class Path:
    """root, access steps, naming functions applied to the leaf"""

    def __init__(self, root, steps=(), fns=()):
        self.root, self.steps, self.fns = root, tuple(steps), tuple(fns)

    def __add__(self, s):
        if self.fns:
            return Path(str(self), (s,))
        return Path(self.root, self.steps + (s,))

    def fn(self, f):
        return Path(self.root, self.steps, self.fns + (f,))

    def under(self, root):
        return self.root == root

    def moved(self, to):
        """this path, with its root (a local) placed at the path `to`"""
        return Path(to.root, to.steps + self.steps, self.fns)

    def body(self):
        return "".join(self.steps)

    def __str__(self):
        r = self.root if isinstance(self.root, str) else t2s(self.root)
        s = r + self.body()
        for f in self.fns:
            s = "%s(%s)" % (f, s)
        return s

    def __eq__(self, o):
        return str(self) == str(o) and self.root == o.root

    def __hash__(self):
        return hash(str(self))


def path(t):
    while True:
        k = t[0]
        if k in ("cast", "addr", "deref") and len(t) >= 2 and \
                isinstance(t[-1], tuple):
            t = t[-1]
            continue
        if k == "ctor" and len(t[2]) == 1 and (
                "basic_json" in t[1] or "string" in t[1] or
                t[1].startswith("std::")):
            t = t[2][0]
            continue
        if k == "call":
            n = last(t[1])
            if t[2] is not None and (
                    n in IDENT or "operator" in t[1]) and not t[3]:
                t = t[2]
                continue
            if n in ("move", "forward", "as_const") and len(t[3]) == 1:
                t = t[3][0]
                continue
        break
    k = t[0]
    if k == "fld":
        if t[2] in ("first", "second") and t[1][0] == "elem":
            return path(t[1][1]) + ("@" if t[2] == "first" else "{}")
        return path(t[1]) + ("." + t[2])
    if k == "elem":
        return path(t[1]) + "[]"
    if k in ("idx", "entry"):
        if t[2][0] == "str":
            return path(t[1]) + ('"%s"' % t[2][1])
        q = path(t[2])
        if q.steps[-1:] == ("@",):
            return path(t[1]) + "{}"
        return path(t[1]) + ("<%s>" % q)
    if k == "call":
        n = last(t[1])
        if t[2] is not None:
            if n == "at" and len(t[3]) == 1:
                return path(("idx", t[2], t[3][0]))
            if n in ("getKey", "first", "key") and not t[3] and \
                    strip(t[2])[0] == "elem":
                return path(strip(t[2])[1]) + "@"
            if n in ("getValue", "value") and not t[3] and \
                    strip(t[2])[0] == "elem":
                return path(strip(t[2])[1]) + "{}"
            if n in ("emplace_back", "push_back") and not t[3]:
                return path(t[2]) + "[]"
            if not t[3]:
                return path(t[2]).fn(n)
            if len(t[3]) == 1 and n in ("getFunction", "lookup"):
                return path(t[3][0]).fn(n)
        elif t[3]:
            # the naming functions take the named thing last
            return path(t[3][-1]).fn(n)
    return Path(t)


class Flow:
    def __init__(self, dst, src, it, kind, pc=None):
        self.dst, self.src, self.it, self.kind = dst, src, it, kind
        self.pc = it.pc if pc is None else pc

    def __str__(self):
        return "%s <- %s" % (self.dst, self.src)


def flows(ps):
    """every store of the function, with local containers resolved to what
    they are stored into"""
    out = []
    for it in items(ps):
        e = it.ev
        if e.kind == "write":
            out.append(Flow(path(e.obj), path(e.args[0]), it, "set"))
        elif e.kind == "touch":
            out.append(Flow(path(e.obj), None, it, "touch"))
        elif e.kind == "call" and e.obj is not None:
            n = last(e.name)
            a = e.args
            if n in ("push_back", "emplace_back", "operator+=") and \
                    len(a) <= 1:
                out.append(Flow(path(e.obj) + "[]", path(a[0]) if a else None,
                                it, "set" if a else "touch"))
            elif n in ("try_emplace", "insert_or_assign", "emplace") and \
                    len(a) >= 1:
                q = path(a[0])
                b = "{}" if q.steps[-1:] == ("@",) else "<%s>" % q
                v = None
                if len(a) == 2 and not (a[1][0] == "ctor" and not a[1][2]):
                    v = path(a[1])
                out.append(Flow(path(e.obj) + b, v, it,
                                "set" if v is not None else "touch"))
            elif n == "insert" and len(a) == 1:
                out.append(Flow(path(e.obj) + "[]", path(a[0]), it, "set"))
    # locals that are stored elsewhere
    seen = set()
    res = []
    for f in out:
        for g in place(f, out):
            k = (str(g), g.kind, tuple(sorted(lits(g.pc))), id(g.it.path))
            if k not in seen:
                seen.add(k)
                res.append(g)
    return res


def place(f, out, depth=0):
    homes = [g for g in out if g.src is not None and not g.src.fns and
             g.src.root == f.dst.root and not g.src.steps and
             f.dst.root[0] == "loc"] if depth < 4 else []
    if not homes:
        return [f]
    r = []
    for g in homes:
        if all(f.pc.get(k, v) == v for k, v in g.pc.items()):
            r += place(Flow(f.dst.moved(g.dst), f.src, f.it, f.kind,
                            {**f.pc, **g.pc}), out, depth + 1)
    return r



# ------------------------------------------------------------- obligations
def taut(sets):
    """do the sets of literals cover every case?"""
    names = sorted({l.lstrip("!") for s in sets for l in s})
    if len(names) > 8:
        return False
    for A in assigns(names):
        if not any(all(A[l.lstrip("!")] != l.startswith("!") for l in s)
                   for s in sets):
            return False
    return True


def whole(loop):
    """the loop visits every element and is never left early"""
    for q in loop.paths:
        if q.exit in ("break", "return"):
            return False
    if loop.kind == "range":
        return True
    cs = set()
    for it in items(loop.paths):
        for tm in list(it.ev.args) + [it.ev.obj]:
            for x in subterms(tm) if isinstance(tm, tuple) else ():
                if x[0] == "elem":
                    cs.add(t2s(x[1]))
    return any(covers(loop, c) is True for c in cs)


def contested(ps):
    """conditions that hold on some and fail on other live paths; the others
    are asserted"""
    pos, neg = set(), set()

    def walk(qs):
        for p in live(qs):
            for l in lits(p.pc):
                (neg if l.startswith("!") else pos).add(l.lstrip("!"))
            for e in p.ev:
                if e.kind == "loop":
                    walk(e.loop.paths)
    walk(ps)
    return pos & neg


def exits(ps):
    """conditions under which loops end"""
    out = set()
    for it in items(ps):
        if it.ev.kind == "loop":
            for pc in it.ev.loop.exits:
                if len(pc) == 1:
                    out |= {l.lstrip("!") for l in lits(pc)}
    return out


def total(ctx, fn, ps, fs, what, free=lambda l: False):
    """the flows fs together happen in every case (literals for which free()
    holds are the cases in which nothing needs to be stored)"""
    C = contested(ps) - exits(ps)
    conds = [{l for l in lits(f.pc) if l.lstrip("!") in C and not free(l)}
             for f in fs]
    ctx.ob("every", taut(conds), where(fn), "%s is only stored when %s" % (
        what, sorted(" & ".join(sorted(c)) for c in conds)), fn.qn)
    for f in fs:
        for l in f.it.loops:
            ctx.ob("every", whole(l), where(fn), "%s: the loop does not "
                   "visit every element" % what, fn.qn)


def cut(dst, src):
    """strip the common element steps of both paths"""
    d, s = list(dst), list(src)
    while d and s and d[-1] == s[-1] and d[-1] in ("[]", "{}"):
        d.pop()
        s.pop()
    return tuple(d), tuple(s)


def groups(fs):
    g = {}
    for f in fs:
        g.setdefault((f.dst, f.src), []).append(f)
    return g


def data_class(ctx, tu, cls):
    F = ctx.facts(tu)
    fields = [f[0] for f in F.rec("psr::" + cls)["fields"]]
    W = {}
    for fn in F.find("psr::%s::printAsJson" % cls):
        ps = live(ctx.summary(F, fn, keep_mem=True))
        W = writer(ctx, fn, ps, fields)
    for n in ("loadJsonString", "deserializeJson"):
        for fn in F.find("psr::%s::%s" % (cls, n)):
            ps = live(ctx.summary(F, fn, keep_mem=True))
            reader(ctx, fn, ps, fields, W, n)


def keyname(steps, names):
    """replace the keys that are the value of a field by a canonical name"""
    return tuple("<=%s>" % names[s[1:-1]] if s.startswith("<") and
                 s[1:-1] in names else s for s in steps)


def writer(ctx, fn, ps, fields):
    fs = flows(ps)
    out = {}
    printed = [it for it in items(ps) if it.ev.kind == "call" and
               last(it.ev.name) == "operator<<" and len(it.ev.args) == 2 and
               it.ev.args[1][0] == "loc"]
    roots = {it.ev.args[1] for it in printed}
    ctx.ob("agree", len(roots) == 1 and
           all(t2s(it.ev.args[0]) == "$0" and not it.loops and
               not it.pc for it in printed), where(fn), "the document is "
           "not written to the stream (%s)" % [str(t2s(r)) for r in roots],
           fn.qn)
    if not roots:
        return {}
    root = roots.pop()
    sets = [f for f in fs if f.kind == "set" and f.dst.root == root and
            f.src is not None]
    names = {"this." + x: x for x in fields}
    for x in fields:
        mine = [f for f in sets if f.src.root == THIS and
                f.src.steps[:1] == ("." + x,)]
        ctx.ob("agree", bool(mine), where(fn), "the field %s is not written"
               % x, fn.qn)
        if not mine:
            continue
        for (d, s), g in groups(mine).items():
            ctx.ob("agree", not s.fns, where(fn), "%s is written as %s" % (
                x, s), fn.qn)
            total(ctx, fn, ps, g, "the field " + x)
        pairs = {tuple(keyname(y, names) for y in
                       cut(f.dst.steps, f.src.steps)) for f in mine}
        ctx.ob("agree", len(pairs) == 1, where(fn), "%s is written to several "
               "places: %s" % (x, pairs), fn.qn)
        d, s = sorted(pairs)[0]
        # container entries without values, and empty containers
        full = max((f.dst.steps for f in mine), key=len)
        n = len(full)
        for i, st in enumerate(full):
            if st == "{}":
                ent = [f for f in fs if f.dst.root == root and
                       f.dst.steps[:i + 1] == full[:i + 1] and
                       len(f.it.loops) <= full[:i + 1].count("{}")]
                ctx.ob("empty", bool(ent) and taut(
                    [lits(f.pc) for f in ent]), where(fn), "an entry of "
                    "%s without values is not written" % x, fn.qn)
            if st in ("[]", "{}"):
                n = min(n, i)
        top = [f for f in fs if f.dst.root == root and
               f.dst.steps == full[:n] and not f.it.loops]
        init = [it.ev for it in items(ps) if it.ev.kind == "init" and
                it.ev.obj == root]
        kind = "set" if any(f.kind == "set" for f in top) or (
            not n and init and "null" not in t2s(init[0].args[0])) else \
            "touch" if top or not n else None
        out[x] = (d, s, kind, keyname(full[:n], names))
    return out


def reader(ctx, fn, ps, fields, W, n):
    fs = flows(ps)
    rets = {p.ret for p in ps}
    ctx.ob("agree", len(rets) == 1 and all(r[0] in ("loc", "ctor")
                                           for r in rets), where(fn),
           "the data read is not what is returned", fn.qn)
    root = rets.pop()
    sets = [f for f in fs if f.kind == "set" and f.dst.root == root and
            f.src is not None]
    jroots = {f.src.root for f in sets if f.dst.steps[:1] and
              f.dst.steps[0][1:] in fields}
    for r in jroots:
        s = t2s(r)
        for it in items(ps):
            if it.ev.kind == "init" and it.ev.obj == r:
                s = t2s(it.ev.args[0])
        want = "readJsonFile($0)" if n == "deserializeJson" else "parse("
        ctx.ob("agree", want in s and "$0" in s, where(fn), "the data is read "
               "from %s" % s[:100], fn.qn)
    ctx.ob("agree", len(jroots) == 1, where(fn), "the data is read from %d "
           "documents" % len(jroots), fn.qn)
    if len(jroots) != 1:
        return
    jr = jroots.pop()
    names = {}
    for x in fields:
        if x in W:
            names[t2s(root) + "." + x] = x
            names[str(Path(jr, W[x][0]))] = x
    for x in fields:
        mine = [f for f in sets if f.dst.steps[:1] == ("." + x,) and
                f.src.root == jr]
        ctx.ob("agree", bool(mine), where(fn), "the field %s is not read" % x,
               fn.qn)
        if not mine or x not in W:
            continue
        for (d, s), g in groups(mine).items():
            ctx.ob("agree", not s.fns, where(fn), "%s is read as %s" % (x, s),
                   fn.qn)
            total(ctx, fn, ps, g, "the field " + x,
                  lambda l: l.endswith((".is_array()", ".is_null()",
                                        ".is_object()", ".is_string()")))
        pairs = set()
        for f in mine:
            d, s = cut(f.dst.steps, f.src.steps)
            pairs.add((keyname(s, names), d))
        w = W[x]
        ctx.ob("agree", pairs == {(w[0], w[1])}, where(fn), "%s is written "
               "as %s <- %s but read as %s" % (
                   x, "".join(w[0]), "".join(w[1]), sorted(
                       "%s <- %s" % ("".join(d), "".join(s))
                       for s, d in pairs)), fn.qn)
        full = max((f.dst.steps for f in mine), key=len)
        for i, st in enumerate(full):
            if st == "{}":
                ent = [f for f in fs if f.dst.root == root and
                       f.dst.steps == full[:i + 1] and
                       len(f.it.loops) <= full[:i + 1].count("{}")]
                ctx.ob("empty", bool(ent) and taut(
                    [lits(f.pc) for f in ent]), where(fn), "an entry of "
                    "%s without values is lost" % x, fn.qn)
        # a container that may be empty
        k = w[3]
        gets = [it for it in items(ps) if it.ev.kind == "call" and
                last(it.ev.name) == "get" and it.ev.obj is not None and
                path(it.ev.obj).root == jr and
                keyname(path(it.ev.obj).steps, names) == k]
        reads = w[2]
        ctx.ob("empty", reads == "set" or reads == "touch" and not gets,
               where(fn), "without entries, %s is %s" % (
                   x, "written as null but read as a container"
                   if reads else "not written, but required"), fn.qn)


# --------------------------------------------------- producers and consumers
def table(ctx, rule, fn, ps, fs, want, root):
    """want: {destination pattern: (source pattern, free literal patterns)};
    every flow into `root` whose destination matches must match the source,
    and together they happen in every case"""
    for d, (s, free) in want.items():
        D, S_ = pat(d), pat(s)
        fr = [pat(x) for x in free]
        mine = [f for f in fs if f.kind == "set" and f.src is not None and
                (root is None or f.dst.root == root) and
                D.ok(str(f.dst).lstrip("~"))]
        ctx.ob(rule, bool(mine), where(fn), "nothing is stored to %s" % d,
               fn.qn)
        for f in mine:
            ctx.ob(rule, S_.ok(str(f.src)), where(fn), "%s is stored to %s" % (
                f.src, f.dst), fn.qn)
        if mine:
            total(ctx, fn, ps, mine, str(d),
                  lambda l: any(x.ok(l) for x in fr))


RX = lambda r: Pat(r)
OWN = r"this\.Owner[\w.]*\[\]\[\]"


def alias_sets(ctx):
    F = ctx.facts("lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp")
    idf = [RX(r"!?\(getMetaDataID\(.*\) == \"-1\"\)"),
           RX(r"!?\(\"-1\" == getMetaDataID\(.*\)\)"), RX(r"!?empty\(.*\)")]
    for nm, a, b in (("getLLVMAliasSetData", r"\.AliasSets",
                      r"\.AnalyzedFunctions"),
                     ("getAsJson", r'"AliasSets"', r'"AnalyzedFunctions"')):
        for fn in F.find("psr::LLVMAliasSet::" + nm):
            ps = live(ctx.summary(F, fn, keep_mem=True))
            root = ps[0].ret
            fs = [f for f in flows(ps) if not (f.src is not None and
                                               "array(" in str(f.src))]
            n = len(ctx.viol)
            for d, s, free in (
                    (r"\w+%s\[\]\[\]" % a, r"getMetaDataID\(%s\)" % OWN, idf),
                    (r"\w+%s\[\]" % b,
                     r"getName\(this\.AnalyzedFunctions\[\]\)", [])):
                table(ctx, "names", fn, ps, fs, {RX(d): (RX(s), free)}, root)
            # only values without an id are left out, only empty sets too
            for f in fs:
                if f.kind == "set" and f.src is not None and \
                        "getMetaDataID(" in str(f.src):
                    L = lits(f.pc)
                    ctx.ob("names", any(re.fullmatch(
                        r'!\((?:getMetaDataID\(.*\) == "-1"|"-1" == '
                        r'getMetaDataID\(.*\))\)', l) for l in L), where(fn),
                        "values without an id are written", fn.qn)
    for fn in F.find("psr::LLVMAliasSet::printAsJson"):
        handover(ctx, F, fn, "getLLVMAliasSetData")
    for fn in F.find("psr::LLVMAliasSet::(ctor)"):
        if len(fn.ps) == 2:
            alias_reader(ctx, F, fn)


def handover(ctx, F, fn, producer):
    """printAsJson: the producer's data is written to the given stream"""
    ps = live(ctx.summary(F, fn, stop=[producer, "printAsJson"]))
    for p in ps:
        w = [it.ev for it in items([p]) if it.ev.kind == "call" and
             last(it.ev.name) == "printAsJson"]
        ctx.ob("names", len(w) == 1 and t2s(w[0].args[0]) == "$0" and
               (producer or "") + "()" in t2s(w[0].obj), where(fn),
               "printAsJson writes %s" % [x.s() for x in w], fn.qn)


def alias_reader(ctx, F, fn):
    ps = live(ctx.summary(F, fn, keep_mem=True, no_inline=None,
                          stop=["acquire", "fromMetaDataId"]))
    V = r"fromMetaDataId\(\*?\$0, elem\(elem\(\$1(?:\.at\(\"AliasSets\"\)|" \
        r"\[\"AliasSets\"\])\)\)(?:\.get\(\))?\)"
    FN = r"\$0->?getFunction|\$0\.getFunction"
    ok = 0
    for it in items(ps):
        if it.ev.kind == "loop" or len(it.loops) != 2:
            continue
        pth = it.path
        if getattr(it, "done", None) or any(pth is x for x in SEEN):
            continue
        SEEN.append(pth)
        L = {l for l in lits(it.pc)}
        null = [l for l in L if re.search(V, l)]
        w = [e for e in pth.ev if e.kind == "write" and
             e.obj[0] == "idx" and t2s(e.obj[1]) == "this.AliasSets"]
        i = [e for e in pth.ev if e.kind == "call" and
             last(e.name) == "insert"]
        if any(not l.startswith("!") and "== null" in l or
               l.startswith("!") and "== null" not in l for l in null):
            ctx.ob("names", not w and not i, where(fn), "an unresolved id is "
                   "entered", fn.qn)
            continue
        acq = {t2s(e.args[0]) for e in w}
        ctx.ob("names", len(w) == 1 and len(i) == 1 and
               re.fullmatch(V, t2s(w[0].obj[2])) is not None and
               re.fullmatch(V, t2s(i[0].args[0])) is not None and
               (t2s(i[0].obj).lstrip("*") in {a.lstrip("*") for a in acq}),
               where(fn), "a resolved value is not entered into its set: %s" %
               [e.s()[:150] for e in w + i], fn.qn)
        ctx.ob("names", not any(last(e.name) == "acquire" for e in pth.ev),
               where(fn), "every value gets a set of its own", fn.qn)
        ok += 1
    ctx.ob("names", ok > 0, where(fn), "the alias sets are not read", fn.qn)
    for p in ps:
        for e in p.ev:
            if e.kind != "loop":
                continue
            if "AliasSets" in t2s(e.loop.container or ("int", 0)):
                ctx.ob("names", whole(e.loop) and all(
                    any(last(x.name) == "acquire" for x in q.ev
                        if x.kind == "call") for q in live(e.loop.paths)),
                    where(fn), "not every set gets a set of its own", fn.qn)
    fs = [f for f in flows(ps)]
    ins = [f for f in fs if f.kind == "set" and
           str(f.dst) == "this.AnalyzedFunctions[]"]
    ctx.ob("names", bool(ins), where(fn), "the analyzed functions are not "
           "restored", fn.qn)
    for f in ins:
        ctx.ob("names", re.fullmatch(
            r'getFunction\(\$1(?:\."?at"?)?"AnalyzedFunctions"\[\]\)',
            str(f.src)) is not None, where(fn), "the analyzed functions are "
            "restored from %s" % f.src, fn.qn)
    if ins:
        total(ctx, fn, ps, ins, "AnalyzedFunctions", lambda l: ".is_string()" in l
              or "getFunction(" in l and "null" in l)


SEEN = []


def vtables(ctx):
    """entries are names; the null entry has a name of its own"""
    null = None
    N = r"getName\(%s\)"
    for tu, q, dst, src in (
            ("lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp",
             "psr::LLVMVFTable::getVFTableData", r"\w+\.VFT\[\]",
             r"this\.VFT\[\]"),
            ("lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp",
             "psr::DIBasedTypeHierarchy::getTypeHierarchyData",
             r"\w+\.VTables\[\]\[\]",
             r"(?:this\.VTables\[\](?:\.VFT)?\[\]|"
             r"getAllFunctions\(this\.VTables\[\]\)\[\])")):
        F = ctx.facts(tu)
        for fn in F.find(q):
            ps = live(ctx.summary(F, fn, keep_mem=True))
            fs = [f for f in flows(ps) if f.kind == "set" and
                  re.fullmatch(dst, str(f.dst).lstrip("~"))]
            ctx.ob("null", bool(fs), where(fn), "the vtable is not written",
                   fn.qn)
            for f in fs:
                isnull = nullness(f)
                if isnull is None:
                    ctx.ob("null", False, where(fn), "%s is written without "
                           "a null test" % f.src, fn.qn)
                elif isnull:
                    ctx.ob("null", str(f.src) == '"__null__"' or
                           "NullFunName" in str(f.src), where(fn),
                           "a null entry is written as %s" % f.src, fn.qn)
                else:
                    ctx.ob("null", re.fullmatch(N % src, str(f.src))
                           is not None, where(fn), "an entry is written as %s"
                           % f.src, fn.qn)
            if fs:
                total(ctx, fn, ps, fs, "the vtable")
        for fn in F.find(q.rsplit("::", 1)[0] + "::printAsJson"):
            handover(ctx, F, fn, q.rsplit("::", 1)[1])


def nullness(f):
    for l in lits(f.pc):
        g = re.fullmatch(r"(!?)\((.*) == null\)", l)
        if g and not g.group(2).startswith("T"):
            return not g.group(1)
    return None


def di_hierarchy(ctx):
    F = ctx.facts("lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp")
    Q = "psr::DIBasedTypeHierarchy::"
    for fn in F.find(Q + "getTypeHierarchyData"):
        ps = live(ctx.summary(F, fn, keep_mem=True))
        root = ps[0].ret
        fs = flows(ps)
        table(ctx, "names", fn, ps, fs, {
            RX(r"\w+\.TransitiveDerivedIndex"):
                (RX(r"this\.TransitiveDerivedIndex"), []),
            RX(r"\w+\.Hierarchy\[\]"):
                (RX(r".*this\.Hierarchy\[\].*"), []),
        }, root)
        vt = [f for f in fs if f.dst.root == root and f.src is not None and
              f.dst.steps[:1] == (".VertexTypes",)]
        ctx.ob("names", bool(vt) and all(
            "this.VertexTypes" in str(f.src) or f.src.root[0] == "loc"
            for f in vt), where(fn), "the types are written as %s" %
            sorted(str(f.src) for f in vt), fn.qn)
    for fn in F.find(Q + "(ctor)"):
        if len(fn.ps) == 2:
            di_reader(ctx, F, fn)


def di_reader(ctx, F, fn):
    ps = live(ctx.summary(F, fn, keep_mem=True))
    fs = flows(ps)
    # 1 the derived index is taken over
    ini = [i for i in fn.inits or [] if i[0] == "TransitiveDerivedIndex"]
    whole_ = [f for f in fs if str(f.dst) == "this.TransitiveDerivedIndex"]
    ok = any(str(f.src) == "$1.TransitiveDerivedIndex" for f in whole_)
    ctx.ob("names", ok or len(ini) == 1, where(fn), "the index of the "
           "derived types is not restored", fn.qn)
    if not ok:
        for p in ps:
            w = [e for e in p.ev if e.kind in ("init", "write") and
                 "TransitiveDerivedIndex" in t2s(e.obj)]
            ctx.ob("names", all("$1.TransitiveDerivedIndex" in t2s(e.args[0])
                   for e in w), where(fn), "the index of the derived types is "
                   "restored from %s" % [t2s(e.args[0]) for e in w], fn.qn)
    for k in ("VertexTypes", "Hierarchy"):
        mine = [f for f in fs if f.kind == "set" and
                str(f.dst) == "this.%s[]" % k]
        ctx.ob("names", bool(mine) and all(
            "$1.%s[]" % k in str(f.src) for f in mine), where(fn),
            "%s is restored from %s" % (k, [str(f.src)[:80] for f in mine]),
            fn.qn)
        if mine:
            total(ctx, fn, ps, mine, k, lambda l: "lookup(" in l or "[" in l)
    # vtables
    vt = [f for f in fs if f.kind == "set" and
          str(f.dst) == "this.VTables[][]"]
    ctx.ob("null", bool(vt), where(fn), "the vtables are not restored", fn.qn)
    per = {}
    for f in vt:
        n = None
        for l in lits(f.pc):
            g = re.fullmatch(r'(!?)\((.*"__null__".*)\)', l)
            if g:
                n = not g.group(1)
        per.setdefault((id(f.it.path), n), []).append(f)
    for (_, n), g in per.items():
        ctx.ob("null", len(g) == 1, where(fn), "one entry of a vtable is "
               "restored as %d entries" % len(g), fn.qn)
        for f in g:
            want = r"null" if n else \
                r"getFunction\(\$1\.VTables\[\]\[\]\)"
            ctx.ob("null", n is not None and re.fullmatch(
                want, str(f.src)) is not None, where(fn), "%s entry is "
                "restored as %s" % ("the null" if n else "a vtable", f.src),
                fn.qn)
    if vt:
        total(ctx, fn, ps, vt, "a vtable entry")
    # the index of a type is its position
    for p in ps:
        for e in p.ev:
            if e.kind != "loop" or \
                    "$1.VertexTypes" not in t2s(e.loop.container or THIS):
                continue
            l = e.loop
            for q in live(l.paths):
                a = [added(x) for x in q.ev if x.kind == "call" and
                     x.obj is not None and
                     t2s(x.obj) == "this.TypeToVertex" and added(x)]
                ctx.ob("names", len(a) == 1 and len(a[0]) == 2, where(fn),
                       "a type is not entered into TypeToVertex", fn.qn)
                for k, i in [x for x in a if len(x) == 2]:
                    i = strip(i)
                    if i[0] in ("ind", "hav"):
                        ent = {t2s(s): t2s(v) for s, v in l.entry.items()}
                        ctx.ob("names", ent.get(t2s(i)) == "0", where(fn),
                               "the positions start at %s" % ent.get(t2s(i)),
                               fn.qn)
                        for kind, vals, pc in l.carry:
                            if kind == "next":
                                v = {t2s(s): t2s(y) for s, y in vals.items()
                                     if y is not None}.get(t2s(i))
                                ctx.ob("names", v in (
                                    None, "(%s + 1)" % t2s(i),
                                    "(1 + %s)" % t2s(i)), where(fn),
                                    "position %s is followed by %s" % (
                                        t2s(i), v), fn.qn)
                    else:
                        ctx.ob("names", "VertexTypes.size()" in t2s(i),
                               where(fn), "the position of a type is %s" %
                               t2s(i), fn.qn)


def llvm_hierarchy(ctx):
    F = ctx.facts("lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp")
    Q = "psr::LLVMTypeHierarchy::"
    for fn in F.find(Q + "printAsJson"):
        ps = live(ctx.summary(F, fn, keep_mem=True))
        fs = flows(ps)
        ids = [f for f in fs if f.kind == "set" and f.dst.steps ==
               (".PhasarConfigJsonTypeHierarchyID",)]
        ctx.ob("names", bool(ids), where(fn), "the document has no id", fn.qn)
        tg = [f for f in fs if f.kind == "set" and f.src is not None and
              f.dst.steps[:1] == (".TypeGraph",)]
        ctx.ob("names", bool(tg), where(fn), "the subtypes are not written",
               fn.qn)
        V = r"this\.TypeGraph<.*>"
        for f in tg:
            ctx.ob("names", re.fullmatch(
                r"get(?:Struct)?Name\(%s\.ReachableTypes\[\]\)" % V,
                str(f.src)) is not None and re.fullmatch(
                    r".*\.TypeGraph<get\w*Name\(%s\.Type\)>\[\]" % V,
                    str(f.dst).lstrip("~")) is not None, where(fn),
                "%s is written to %s" % (f.src, f.dst), fn.qn)
        if tg:
            total(ctx, fn, ps, tg, "the subtypes")
        ent = [f for f in fs if f.dst.steps[:1] == (".TypeGraph",) and
               len(f.dst.steps) == 2 and len(f.it.loops) == 1]
        ctx.ob("empty", bool(ent) and taut([lits(f.pc) for f in ent]),
               where(fn), "a type without subtypes is not written", fn.qn)
        w = [it.ev for it in items(ps) if it.ev.kind == "call" and
             last(it.ev.name) == "printAsJson"]
        ctx.ob("names", len(w) == 1 and t2s(w[0].args[0]) == "$0", where(fn),
               "the document is not written to the stream", fn.qn)
    for fn in F.find(Q + "(ctor)"):
        if len(fn.ps) == 2:
            llvm_reader(ctx, F, fn)


def llvm_reader(ctx, F, fn):
    ps = live(ctx.summary(F, fn, keep_mem=True, stop=[
        "getVirtualFunctions", "removeStructOrClassPrefix", "isTypeInfo",
        "removeTypeInfoPrefix", "removeVTablePrefix", "isVTable",
        "demangle"]))
    fs = flows(ps)
    fs = [f for f in fs if f.kind == "set" and f.src is not None]
    ty = r"\w+(?:\{\}|\[\]|<.*>)"

    def into(d):
        return [f for f in fs if re.fullmatch(d, str(f.dst).lstrip("~"))]
    # the members that getVirtualFunctions looks into are filled before
    need = set()
    for g in F.find("psr::LLVMTypeHierarchy::getVirtualFunctions"):
        for q in live(ctx.summary(F, g, keep_mem=True)):
            for it in items([q]):
                for x in [it.ev.obj] + list(it.pc):
                    for y in subterms(x) if isinstance(x, tuple) else ():
                        if y[0] == "fld" and y[1] == THIS:
                            need.add(y[2])
    vf = into(r"this\.TypeVFTMap<~?%s>" % ty)
    names = {
        r"this\.TypeVertexMap<~?%s>" % ty: r"add_vertex\(this\.TypeGraph\)",
        r"this\.TypeGraph<add_vertex\(this\.TypeGraph\)>":
            r".*VertexProperties\{.*\}.*",
        r"this\.TypeVFTMap<~?%s>" % ty: r".*getVirtualFunctions\(.*\).*"}
    for d, v in names.items():
        mine = into(d)
        ctx.ob("names", bool(mine) and all(re.fullmatch(v, str(f.src))
                                           for f in mine), where(fn),
               "%s is restored from %s" % (d.split("\\.")[1].split("<")[0],
                                           [str(f.src) for f in mine]), fn.qn)
        if mine:
            total(ctx, fn, ps, mine, d.split("\\.")[1].split("<")[0])
    order = [it for it in items(ps)]
    for x in sorted(need):
        fill = [k for k, it in enumerate(order) for f in fs if f.it.ev is it.ev
                and f.dst.root == THIS and f.dst.steps[0] == "." + x and
                len(f.dst.steps) > 1]
        use = [k for k, it in enumerate(order) for f in vf
               if f.it.ev is it.ev]
        ctx.ob("names", bool(fill) and bool(use) and min(fill) < min(use),
               where(fn), "the vtables are looked up before %s is filled" % x,
               fn.qn)
        mine = into(r"this\.%s<.*>" % x)
        if mine:
            total(ctx, fn, ps, mine, x, lambda l: ".hasName()" in l or
                  "isVTable(" in l or "isTypeInfo(" in l)
    # the struct type of a name is the type with that name
    for f in fs:
        if f.dst.root[0] == "loc" and "getIdentifiedStructTypes" in \
                str(f.src):
            ctx.ob("names", any(re.fullmatch(
                r"\((?=.*getKey\(\)|.*\.first).* == (?=.*getName\(\)).*\)", l)
                or "getName" in l and " == " in l and not l.startswith("!")
                for l in lits(f.pc)) or "getName(" in str(f.dst),
                where(fn), "%s is used for %s when %s" % (
                    f.src, f.dst, sorted(lits(f.pc))), fn.qn)
    # edges
    edges = into(r"this\.TypeGraph<.*>\.ReachableTypes\[\]")
    ctx.ob("names", bool(edges), where(fn), "the subtypes are not restored",
           fn.qn)
    for f in edges:
        ctx.ob("names", re.fullmatch(r"~?\w+<\$1\.TypeGraph\{\}\[\]>",
                                     str(f.src)) is not None and
               "TypeVertexMap<" in str(f.dst), where(fn), "%s is restored as "
               "subtype of %s" % (f.src, f.dst), fn.qn)
        add = [e for e in f.it.path.ev if e.kind == "call" and
               last(e.name) == "add_edge"]
        ctx.ob("names", len(add) == 1 and "getValue()" not in
               t2s(add[0].args[0]).split("TypeGraph).getKey()")[0] and
               "getKey()" in t2s(add[0].args[0]) and
               "getValue()" in t2s(add[0].args[1]), where(fn), "the edge is "
               "%s" % [e.s()[:200] for e in add], fn.qn)
        nulls = {l for l in lits(f.pc) if "== null)" in l}
        ctx.ob("names", any("getValue()" in l and l.startswith("!")
                            for l in nulls), where(fn), "a type that is not "
               "in the module is entered as subtype", fn.qn)
    if edges:
        total(ctx, fn, ps, edges, "a subtype", lambda l: "== null)" in l)


def run(ctx):
    SEEN.clear()
    T = "lib/PhasarLLVM/TypeHierarchy/"
    for tu, cls in (
            ("lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp",
             "LLVMAliasSetData"),
            ("lib/ControlFlow/CallGraphData.cpp", "CallGraphData"),
            (T + "DIBasedTypeHierarchyData.cpp", "DIBasedTypeHierarchyData"),
            (T + "LLVMTypeHierarchyData.cpp", "LLVMTypeHierarchyData"),
            (T + "LLVMVFTableData.cpp", "LLVMVFTableData")):
        data_class(ctx, tu, cls)
    alias_sets(ctx)
    vtables(ctx)
    di_hierarchy(ctx)
    llvm_hierarchy(ctx)
