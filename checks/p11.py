"""P11: the project IR database numbers every global and instruction
bijectively, and the ids are resolved again."""
from spec import *

EXPLAIN = ("Loop-carried counter analysis of the functions that hand out "
           "ids (every element of the module, one table entry in each "
           "direction with the same id, the counter grows by one per "
           "element); decision tables over path summaries of the lookups, "
           "the id strings and the slot-tracker registry.")
DB = "lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp"
Q = "psr::LLVMProjectIRDB::"


def live(ps):
    return [p for p in ps if p.exit not in ("noreturn", "throw")]


def run(ctx):
    F = ctx.facts(DB)
    for nm, mod in (("initInstructionIds", r"(?:\*?this\.Mod|\$0)"),
                    ("preprocessModule", r"(?:\$0|\*?this\.Mod)")):
        for fn in F.find(Q + nm):
            numbering(ctx, fn, live(ctx.summary(F, fn)), mod,
                      nm == "preprocessModule")
    for fn in F.find(Q + "insertFunction"):
        inserting(ctx, fn, live(ctx.summary(F, fn)))
    lookups(ctx, F)
    loading(ctx, F)
    strings(ctx, F)
    annotation(ctx)
    slots(ctx)


# --------------------------------------------------------------- numbering
def leaf(l, pre=()):
    """[(nest of loops, loop)] that contain the id assignments"""
    out = []
    direct = False
    for q in l.paths:
        for e in q.ev:
            if e.kind == "loop":
                for x in leaf(e.loop, pre + (l,)):
                    if not any(y[1] is x[1] for y in out):
                        out.append(x)
            elif assign(e) is not None:
                direct = True
    if direct:
        out.append((pre, l))
    return out


def assign(e):
    """("inst", v) for IdToInst.push_back(v), ("id", v, id), ("md", v, id)"""
    if e.kind == "write" and e.obj[0] == "idx" and \
            t2s(e.obj[1]) == "this.InstToId":
        return ("id", t2s(e.obj[2]).lstrip("&"), t2s(e.args[0]))
    if e.kind != "call" or e.obj is None:
        return None
    o = t2s(e.obj)
    a = added(e)
    if o == "this.IdToInst" and a is not None and len(a) == 1:
        return ("inst", t2s(a[0]).lstrip("&"))
    if o == "this.InstToId" and a is not None and len(a) == 2:
        return ("id", t2s(a[0]).lstrip("&"), t2s(a[1]))
    if last(e.name) == "setMetadata" and len(e.args) == 2 and \
            t2s(e.args[0]) == '"psr.id"':
        g = re.search(r"std::to_string\((.*?)\)\)\)$", t2s(e.args[1]))
        return ("md", o.lstrip("&*"), g.group(1) if g else t2s(e.args[1]))
    return None


def nosym(s):
    return s.replace("?i:", "?")


def round_ok(ctx, fn, l, x, md):
    """every iteration numbers its element"""
    ids = set()
    for q in live(l.paths):
        if q.exit in ("break", "return"):
            ctx.ob("number", False, where(fn), "the numbering stops early",
                   fn.qn)
            continue
        a = [assign(e) for e in q.ev if e.kind != "loop" and assign(e)]
        inst = [y for y in a if y[0] == "inst"]
        idd = [y for y in a if y[0] == "id"]
        m = [y for y in a if y[0] == "md"]
        L = lits(q.pc)
        ctx.ob("number", [y[1] for y in inst] == [x] and
               [y[1] for y in idd] == [x], where(fn), "the element is "
               "entered as %s / %s when %s" % (inst, idd, sorted(L)), fn.qn)
        need = md is True or md and md in L
        ctx.ob("number", (not need or len(m) == 1) and
               all(y[1] == x for y in m), where(fn), "the metadata is %s "
               "when %s" % (m, sorted(L)), fn.qn)
        ids |= {y[2] for y in idd + m}
        # size() as id: before the element is appended
        if "this.IdToInst.size()" in ids:
            k = [y[0] for y in a]
            ctx.ob("number", k.index("inst") == len(k) - 1, where(fn),
                   "the size is taken after the element was appended", fn.qn)
    ctx.ob("number", len(ids) == 1, where(fn), "the ids in the tables and in "
           "the metadata differ: %s" % sorted(ids), fn.qn)
    if len(ids) != 1:
        return None
    i = ids.pop()
    if i == "this.IdToInst.size()":
        return i
    for k, vals, pc in l.carry:
        if k != "next":
            continue
        v = {t2s(s): t2s(y) for s, y in vals.items() if y is not None}
        ctx.ob("number", v.get(i) in ("(%s + 1)" % i, "(1 + %s)" % i),
               where(fn), "the id %s of an element is followed by %s when %s"
               % (i, v.get(i), sorted(lits(pc))), fn.qn)
    return i


def tail(t):
    """(variable, loop) of a loop-carried value"""
    return t[1:3] if t[0] in ("hav", "ind") else t


def entry_of(l, i):
    for s, v in l.entry.items():
        if t2s(s) == i:
            return t2s(v)
    return None


def numbering(ctx, fn, ps, mod, md):
    G = re.compile(mod + r"(?:\.|->)(?:globals|getGlobalList)\(\)")
    I = re.compile(r"instructions\(elem\(%s(?:(?:\.|->)functions\(\))?\)\)|"
                   r"elem\(elem\(%s(?:(?:\.|->)functions\(\))?\)\)" % (
                       mod, mod))
    for p in ps:
        seen = []
        off = []
        cur = None
        name = None
        for e in p.ev:
            if e.kind == "write" and t2s(e.obj) == "this.IdOffset":
                off.append((len(seen), nosym(t2s(e.args[0]))))
            if e.kind != "loop":
                if assign(e):
                    ctx.ob("number", False, e.where(), "unexpected %s" %
                           e.s()[:100], fn.qn)
                continue
            for nest, l in leaf(e.loop):
                c = t2s(l.container) if l.kind == "range" else "?"
                x = "elem(%s)" % c
                kind = "globals" if G.fullmatch(c) else "instructions" if \
                    I.fullmatch(c) else "?"
                ok = kind != "?"
                for o in nest:
                    ok = ok and o.kind == "range" and (
                        "elem(%s)" % t2s(o.container)) in c and all(
                        q.exit not in ("break", "return") for q in o.paths)
                    # no function is skipped
                    for q in live(o.paths):
                        ok = ok and any(y.kind == "loop" for y in q.ev)
                ctx.ob("number", ok, where(fn), "ids are given to the "
                       "elements of %s" % c, fn.qn)
                seen.append(kind)
                i = round_ok(ctx, fn, l, x, md)
                if i and i != "this.IdToInst.size()":
                    n = name = nosym(i)
                    last_ = None
                    for o in nest + (l,):
                        sy = [s for s in o.entry if nosym(t2s(s)) == n]
                        en = o.entry[sy[0]] if len(sy) == 1 else None
                        if last_ is None:
                            ok = en is not None and (
                                en == ("int", 0) if cur is None else
                                tail(en) == cur)
                        else:
                            ok = en is not None and tail(en) == last_
                        ctx.ob("number", ok, where(fn), "the ids of the %s "
                               "start at %s" % (kind, en and t2s(en)), fn.qn)
                        if not sy:
                            break
                        last_ = tail(sy[0])
                    for o, inner in zip(nest, nest[1:] + (l,)):
                        for k, vals, pc in o.carry:
                            v = [y for s, y in vals.items()
                                 if nosym(t2s(s)) == n]
                            ctx.ob("number", len(v) == 1 and v[0] is not None
                                   and tail(v[0])[1] == inner.id, where(fn),
                                   "the id changes to %s between functions" %
                                   [t2s(y) for y in v], fn.qn)
                    cur = last_ and (last_[0], (nest + (l,))[0].id)
        ctx.ob("number", seen == ["globals", "instructions"], where(fn),
               "ids are given to %s, in this order" % seen, fn.qn)
        ctx.ob("number", len(off) == 1 and off[0][0] == 1 and off[0][1] in (
            name, "this.IdToInst.size()", "this.InstToId.size()",
            "this.Mod.global_size()", "$0.global_size()"), where(fn),
            "the first instruction id is recorded as %s" % off, fn.qn)


def inserting(ctx, fn, ps):
    for p in ps:
        n = 0
        for e in p.ev:
            if e.kind == "write":
                ctx.ob("number", t2s(e.obj) not in ("this.IdOffset",
                                                    "this.IdToInst",
                                                    "this.InstToId"),
                       e.where(), "insertFunction changes %s" % t2s(e.obj),
                       fn.qn)
            if e.kind != "loop":
                continue
            for nest, l in leaf(e.loop):
                n += 1
                c = t2s(l.container) if l.kind == "range" else "?"
                ctx.ob("number", c in ("instructions($0)", "elem($0)",
                                       "instructions(*$0)"), where(fn),
                       "ids are given to the elements of %s" % c, fn.qn)
                i = round_ok(ctx, fn, l, "elem(%s)" % c, "$1")
                if i and i != "this.IdToInst.size()":
                    es = [entry_of(o, y) for o in nest for y in
                          [k for k in (t2s(s) for s in o.entry)
                           if nosym(k) == nosym(i)]] + [entry_of(l, i)]
                    ctx.ob("number", es[0] in ("this.IdToInst.size()",
                                               "this.InstToId.size()"),
                           where(fn), "the new ids start at %s" % es, fn.qn)
        ctx.ob("number", n == 1, where(fn), "the instructions are numbered "
               "%d times" % n, fn.qn)


# ----------------------------------------------------------------- lookups
def lookups(ctx, F):
    sz = r"this\.IdToInst\.size\(\)"
    of = r"this\.IdOffset"
    rng = Pat(r"\(\(\$0 - %s\) < \(%s - %s\)\)" % (of, sz, of))
    for fn in F.find(Q + "getInstructionImpl"):
        decide(ctx, "lookup", fn, ctx.summary(F, fn), {
            "in": rng, "lt": Pat(r"\(\$0 < %s\)" % sz),
            "low": Pat(r"\(\$0 < %s\)" % of)},
            lambda A: Pat(r"as<Instruction>\(this\.IdToInst\[\$0\]\)")
            if A["in"] and A["lt"] and not A["low"] else
            None if A["in"] or (A["lt"] and not A["low"]) else Pat("null"))
        ctx.ob("lookup", all("this.IdOffset" in str(sorted(lits(p.pc)))
                             for p in live(ctx.summary(F, fn))), where(fn),
               "a global's id is taken for an instruction's", fn.qn)
    for fn in F.find(Q + "getValueFromId"):
        decide(ctx, "lookup", fn, ctx.summary(F, fn), {
            "lt": Pat(r"\(\$0 < %s\)" % sz)},
            lambda A: Pat(r"this\.IdToInst\[\$0\]") if A["lt"] else
            Pat("null"))
    for fn in F.find(Q + "getInstructionIdImpl"):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("lookup", t2s(p.ret) in (
                "this.InstToId[$0]", "this.InstToId.lookup($0)",
                "this.InstToId.at($0)"), where(fn), "the id is %s" %
                t2s(p.ret), fn.qn)
    for fn in F.find(Q + "getNumInstructionsImpl"):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("lookup", t2s(p.ret) in (
                "(this.IdToInst.size() - this.IdOffset)",
                "(this.InstToId.size() - this.IdOffset)"), where(fn),
                "the number of instructions is %s" % t2s(p.ret), fn.qn)
    for fn in F.find(Q + "getAllInstructionsImpl"):
        for p in live(ctx.summary(F, fn)):
            ctx.ob("lookup", Pat(
                r"map_range\((?:(?:makeArrayRef\(this\.IdToInst\)|ArrayRef"
                r"\{this\.IdToInst\})\.(?:drop_front|slice)|drop_begin)\("
                r"(?:this\.IdToInst, )?this\.IdOffset\), .*\)").ok(p.ret),
                where(fn), "the instructions are %s" % t2s(p.ret), fn.qn)
    M = r"\*?this\.Mod(?:\.|->)"
    tbl = {"getNumFunctionsImpl": M + r"size\(\)",
           "getNumGlobalsImpl": M + r"global_size\(\)|this\.IdOffset",
           "getFunctionImpl": M + r"getFunction\(\$0\)",
           "hasFunctionImpl": r"not\(\(%sgetFunction\(\$0\) == null\)\)" % M,
           "isValidImpl": r"not\(\(this\.Mod(?:\.Data\.getPointer\(\))? == "
           r"null\)\)",
           "getAllFunctionsImpl": r"map_range\((?:%sfunctions\(\)|this\."
           r"getModule\(\)(?:\.|->)functions\(\)|\*this\.Mod|\*?this\."
           r"getModule\(\)), Ref2PointerConverter\{.*\}\)" % M}
    for nm, want in tbl.items():
        for fn in F.find(Q + nm):
            ps = live(ctx.summary(F, fn))
            if nm in ("hasFunctionImpl", "isValidImpl"):
                w = want[5:-2]
                decide(ctx, "lookup", fn, ps, {"n": Pat(w)},
                       lambda A: not A["n"])
                continue
            for p in ps:
                ctx.ob("lookup", Pat(want).ok(p.ret), where(fn),
                       "%s returns %s" % (nm, t2s(p.ret)[:200]), fn.qn)
    for nm, g in (("getFunctionDefinitionImpl", r"getFunction\(\$0\)"),
                  ("getFunctionDefinition", r"getFunction\(\$0\)"),
                  ("getGlobalVariableDefinitionImpl",
                   r"get(?:GlobalVariable\(\$0(?:, (?:false|true))?\)|"
                   r"NamedGlobal\(\$0\))")):
        for fn in F.find(Q + nm):
            # static (internal) globals are definitions too, but the lookup
            # by name has always been for visible ones
            f = M + g
            decide(ctx, "lookup", fn, ctx.summary(F, fn), {
                "null": Pat(r"\(%s == null\)" % f),
                "decl": Pat(r"%s\.isDeclaration\(\)" % f)},
                lambda A: Pat("null") if A["null"] or A["decl"] else Pat(f))


# ----------------------------------------------------------------- loading
def loading(ctx, F):
    for fn in F.find(Q + "getParsedIRModuleOrNull"):
        ps = live(ctx.summary(F, fn, stop=["getParsedIRModuleOrNull"]))
        if fn.decl.pt[0].startswith("const llvm::Twine"):
            for p in ps:
                L = lits(p.pc)
                err = [l for l in L if "getError()" in l]
                bad = any(not l.startswith("!") for l in err)
                ok = p.ret[0] == "null" if bad else bool(err) and Pat(
                    r"(?:LLVMProjectIRDB::)?getParsedIRModuleOrNull\(.*,"
                    r" \$1\)").ok(p.ret)
                ctx.ob("load", ok, where(fn), "returns %s when %s" % (
                    t2s(p.ret)[:150], sorted(L)), fn.qn)
            continue
        for p in ps:
            L = lits(p.pc)
            m = r"parseIR\(\$0, .*\)"
            nul = any(re.fullmatch(r"\(%s == null\)" % m, l) for l in L)
            good = any(re.fullmatch(r"!verifyModule\(\*?%s, .*\)" % m, l)
                       for l in L) and not nul
            ok = Pat(m).ok(p.ret) if good else p.ret[0] == "null"
            ctx.ob("load", ok, where(fn), "returns %s when %s" % (
                t2s(p.ret)[:150], sorted(L)), fn.qn)
            if p.ret[0] != "null":
                ctx.ob("load", "$1" in t2s(p.ret), where(fn), "the module is "
                       "parsed in another context", fn.qn)
    for fn in F.find(Q + "(ctor)"):
        if not fn.decl.pt:
            continue
        stop = ["preprocessModule", "initInstructionIds",
                "getParsedIRModuleOrNull", "setMSTForModule"]
        own = fn.decl.pt[0].startswith("std::unique_ptr")
        given = fn.decl.pt[0] == "llvm::Module *" or own
        for p in live(ctx.summary(F, fn, stop=stop)):
            L = lits(p.pc)
            mod = [t2s(e.args[0]) for e in p.ev if e.kind == "write" and
                   t2s(e.obj) == "this.Mod"]
            pre = [t2s(e.args[0]) for e in p.ev if call_is(
                e, "preprocessModule")]
            ini = [e for e in p.ev if call_is(e, "initInstructionIds")]
            mst = [t2s(e.args[0]) for e in p.ev if call_is(
                e, "setMSTForModule")]
            if given:
                ok = mod and mod[-1] in ("$0", "MaybeUniquePtr{$0, false}"
                                         ) and (own or "$0, true" not in
                                                mod[-1])
                ok = ok and len(mst) == 1 and (
                    (len(pre), len(ini)) == ((1, 0) if "$1" in L else
                                             (0, 1)))
                ok = ok and ("$1" in L or "!$1" in L)
            else:
                m = r"(?:LLVMProjectIRDB::)?getParsedIRModuleOrNull\(\$0, " \
                    r"(?:this\.Ctx|LLVMContext\{\})\)"
                bad = any(re.fullmatch(r"\(%s == null\)|!truthy\(%s\)" % (
                    m, m), l) for l in L)
                if bad:
                    ok = not pre and not ini and not mst and not [
                        x for x in mod if "null" not in x]
                else:
                    ok = mod and Pat(m).ok(mod[-1]) and len(pre) == 1 and \
                        len(mst) == 1
            ctx.ob("load", bool(ok), where(fn), "the module is %s, "
                   "preprocessed %s, numbered %d, slot trackers %s when %s" %
                   (mod, pre, len(ini), mst, sorted(L)), fn.qn)
    for fn in F.find(Q + "(dtor)"):
        for p in live(ctx.summary(F, fn, stop=["deleteMSTForModule"])):
            L = lits(p.pc)
            d = [e for e in p.ev if call_is(e, "deleteMSTForModule")]
            nul = any(re.fullmatch(r"\(this\.Mod.* == null\)", l) for l in L)
            ctx.ob("slots", len(d) == (0 if nul else 1), where(fn),
                   "the slot tracker is released %d times when %s" % (
                       len(d), sorted(L)), fn.qn)


# ----------------------------------------------------------------- strings
def strings(ctx, F):
    for fn in F.find("psr::fromMetaDataId"):
        D = r"\$1\.(?:rfind|find_last_of)\((?:46|\"\.\")(?:, @StringRef::" \
            r"npos)?\)"
        for p in live(ctx.summary(F, fn, stop=["getNthFunctionArgument",
                                               "getFunction",
                                               "getValueFromId"])):
            L = lits(p.pc)
            nodot = any(re.fullmatch(r"\(%s == @StringRef::npos\)" % D, l)
                        for l in L)
            dot = any(re.fullmatch(r"!\(%s == @StringRef::npos\)" % D, l)
                      for l in L)
            bad = "empty($1)" in L or "($1[0] == 45)" in L or any(
                re.fullmatch(r'\$1\.starts_?with\("-"\)', l) for l in L)
            err = any(l.startswith("!") and "std::from_chars(" in l and
                      "errc{}" in l or "getAsInteger" in l and
                      not l.startswith("!") or
                      re.fullmatch(r"!truthy\(~\w+\)", l) for l in L)
            nof = any(re.fullmatch(r"\(\$0\.getFunction\(.*\) == null\)", l)
                      for l in L)
            r = t2s(p.ret)
            if bad or err or nof:
                ok = r == "null"
            elif dot:
                num = r"(?:~\w+|\*~\w+)"
                ok = re.fullmatch(
                    r"getNthFunctionArgument\(\$0\.getFunction\(\$1\."
                    r"(?:slice\(0, %s\)|substr\(0, %s\)|take_front\(%s\)|"
                    r"rsplit\(46\)\.first)\), %s\)" % (D, D, D, num), r)
                txt = " ".join(L)
                ok = ok and re.search(
                    r"\$1\.(?:drop_front|substr)\(\((?:%s \+ 1|1 \+ %s)\)"
                    % (D, D), txt)
            elif nodot:
                ok = re.fullmatch(r"\$0\.getValueFromId\(\*?~\w+\)", r)
            else:
                ok = False
            ctx.ob("idstr", bool(ok), where(fn), "the id resolves to %s when "
                   "%s" % (r[:200], sorted(L)), fn.qn)
    S = ctx.facts("lib/PhasarLLVM/Utils/LLVMShorthands.cpp")
    for fn in S.find("psr::getMetaDataID"):
        for p in live(ctx.summary(S, fn)):
            L = lits(p.pc)
            r = t2s(p.ret)
            got = False
            for k in ("Instruction", "GlobalVariable"):
                if "isa<%s>($0)" % k in L:
                    md = 'as<%s>($0).getMetadata("psr.id")' % k
                    got = True
                    if "(%s == null)" % md in L:
                        ok = r == '"-1"'
                    else:
                        ok = re.fullmatch(
                            r"as<MDString>\(%s\.getOperand\(0\)\)\."
                            r"getString\(\)\.str\(\)" % re.escape(md), r)
            if not got and "isa<Argument>($0)" in L:
                a = "as<Argument>($0)"
                ok = re.sub(r"std::|\.str\(\)|[() ]", "", r) == re.sub(
                    r"[() ]", "", "%s.getParent().getName() + \".\" + "
                    "to_string(%s.getArgNo())" % (a, a))
            elif not got:
                ok = r == '"-1"' and {
                    "!isa<Instruction>($0)", "!isa<GlobalVariable>($0)",
                    "!isa<Argument>($0)"} <= L
            ctx.ob("idstr", bool(ok), where(fn), "the id string is %s when "
                   "%s" % (r[:200], sorted(L)), fn.qn)
    for fn in S.find("psr::getNthFunctionArgument"):
        decide(ctx, "idstr", fn, ctx.summary(S, fn), {
            "in": Pat(r"\(\$1 < \$0\.arg_size\(\)\)")},
            lambda A: Pat(r"\$0\.getArg\(\$1\)|&?\$0\.arg_begin\(\)\[\$1\]|"
                          r"&\*\((?:\$0\.arg_begin\(\)|begin\(\$0\.args\(\)"
                          r"\)) \+ \$1\)") if A["in"] else Pat("null"))
    for fn in S.find("psr::getFunctionArgumentNr"):
        for p in live(ctx.summary(S, fn)):
            ctx.ob("idstr", t2s(p.ret) == "$0.getArgNo()", where(fn),
                   "the argument number is %s" % t2s(p.ret), fn.qn)
    for fn in S.find("psr::getModuleFromVal"):
        for p in live(ctx.summary(S, fn)):
            L = lits(p.pc)
            r = t2s(p.ret)
            ok = True
            for k, m in (("Argument", ".getParent().getParent()"),
                         ("BasicBlock", ".getParent().getParent()"),
                         ("Instruction",
                          ".getParent().getParent().getParent()"),
                         ("GlobalValue", ".getParent()")):
                if "isa<%s>($0)" % k in L:
                    nul = any(not l.startswith("!") and l.endswith(
                        "== null)") for l in L)
                    ok = r == ("null" if nul else "as<%s>($0)%s" % (k, m)) \
                        or k == "Instruction" and r in (
                            "as<Instruction>($0).getModule()",
                            "as<Instruction>($0).getFunction().getParent()")
            ctx.ob("slots", ok, where(fn), "the module is %s when %s" % (
                r, sorted(L)), fn.qn)


def annotation(ctx):
    F = ctx.facts("lib/PhasarLLVM/Passes/ValueAnnotationPass.cpp")
    C = r"@(?:\w+::)*UniqueValueId"
    for fn in F.find("psr::ValueAnnotationPass::run"):
        ps = live(ctx.summary(F, fn))
        for what, steps in (
                ("global", [("loop", Pat(r"\$0\.globals\(\)"))]),
                ("instruction", [("loop", Pat(r"\$0(?:\.functions\(\))?")),
                                 ("loop", Pat(r"elem\(\$0(?:\.functions\(\))?"
                                              r"\)")),
                                 ("loop", Pat(r"elem\(elem\(\$0(?:\.functions"
                                              r"\(\))?\)\)"))])):
            def md(it):
                a = assign(it.ev)
                return a is not None and a[0] == "md" and a[1].startswith(
                    "elem(") and re.fullmatch(C + r"|\?.*", a[2])
            alt = steps if what == "global" else [
                steps[0], ("loop", Pat(r"instructions\(elem\(\$0(?:\."
                                       r"functions\(\))?\)\)"))]
            miss = require(ps, steps + [("ev", md, "no id for a " + what)])
            if miss:
                m2 = require(ps, alt + [("ev", md, "no id for a " + what)])
                miss = m2 if not m2 else miss
            for p, t, L in miss:
                ctx.ob("annot", False, where(fn), "%s when %s" % (
                    t, sorted(L)), fn.qn)
        for it in items(ps):
            if it.ev.kind == "write" and re.fullmatch(C, t2s(it.ev.obj)):
                ctx.ob("annot", re.fullmatch(
                    r"\(%s \+ 1\)" % C, t2s(it.ev.args[0])) is not None,
                    it.ev.where(), "the next id is %s" % t2s(it.ev.args[0]),
                    fn.qn)

        def check(l):
            for q in live(l.paths):
                m = [i for i, e in enumerate(q.ev) if e.kind != "loop" and
                     assign(e) and assign(e)[0] == "md"]
                w = [i for i, e in enumerate(q.ev) if e.kind == "write" and
                     re.fullmatch(C, t2s(e.obj))]
                ctx.ob("annot", len(m) == len(w) and len(m) <= 1, where(fn),
                       "%d ids are given but the counter grows %d times" % (
                           len(m), len(w)), fn.qn)
                for e in q.ev:
                    if e.kind == "loop":
                        check(e.loop)
        for p in ps:
            for e in p.ev:
                if e.kind == "loop":
                    check(e.loop)


# ------------------------------------------------------------------- slots
def slots(ctx):
    F = ctx.facts("lib/PhasarLLVM/Utils/LLVMShorthands.cpp")
    K = "psr::ModulesToSlotTracker::"
    T = r"@MToST"
    E = r"(?:%s\[\$0\]|entry\(%s, \$0\)\.second|" \
        r"std::make_unique<PhasarModuleSlotTrackerWrapper>\(\$0\))" % (T, T)
    for nm in ("getSlotTrackerForModule", "setMSTForModule",
               "updateMSTForModule", "deleteMSTForModule"):
        for fn in F.find(K + nm):
            ps = live(ctx.summary(F, fn))
            for p in ps:
                L = lits(p.pc)
                ev = [i.ev for i in items([p])]
                lock = [n for n, e in enumerate(ev) if "MSTMx" in e.s()]
                use = [n for n, e in enumerate(ev) if "MToST" in e.s()]
                ctx.ob("slots", bool(lock) and (not use or
                                                lock[0] < min(use)),
                       where(fn), "the registry is used without its lock",
                       fn.qn)
                mk = [e for e in ev if e.kind == "write" and
                      t2s(e.args[0]) == "std::make_unique<"
                      "PhasarModuleSlotTrackerWrapper>($0)"]
                rc = [e for e in ev if e.kind == "write" and
                      t2s(e.obj).endswith(".RefCount")]
                er = [e for e in ev if call_is(e, "erase")]
                if nm == "setMSTForModule":
                    new = any(re.fullmatch(T + r"\.(?:try_emplace|insert)\("
                                           r"\$0.*\)\.second|!%s has \$0|\("
                                           r"%s\[\$0\] == null\)" % (T, T),
                                           l) for l in L)
                    ok = len(mk) == (1 if new else 0) and len(rc) == 1 and \
                        re.fullmatch(r"\(%s\.RefCount \+ 1\)" % E,
                                     t2s(rc[0].args[0])) and not er
                    ctx.ob("slots", bool(ok), where(fn), "the reference "
                           "count becomes %s, trackers created %d when %s" %
                           ([t2s(x.args[0]) for x in rc], len(mk),
                            sorted(L)), fn.qn)
                if nm == "deleteMSTForModule":
                    none = any(re.fullmatch(r"!%s has \$0" % T, l)
                               for l in L)
                    zero = any(re.fullmatch(r"\(\(%s\.RefCount - 1\) == 0\)|"
                                            r"\(%s\.RefCount == 1\)" % (E, E),
                                            l) for l in L)
                    if none:
                        ok = not rc and not er
                    else:
                        ok = len(er) == (1 if zero else 0) and (
                            zero or len(rc) == 1) and all(
                            re.fullmatch(r"\(%s\.RefCount - 1\)" % E,
                                         t2s(x.args[0])) for x in rc)
                        ok = ok and (zero or any(re.fullmatch(
                            r"!\(\(%s\.RefCount - 1\) == 0\)|!\(%s\.RefCount"
                            r" == 1\)" % (E, E), l) for l in L))
                    ctx.ob("slots", bool(ok), where(fn), "%s erased %d when "
                           "%s" % ([t2s(x.args[0]) for x in rc], len(er),
                                   sorted(L)), fn.qn)
                if nm == "getSlotTrackerForModule":
                    r = t2s(p.ret)
                    ok = re.fullmatch(E + r"\.MST", r) and not er and (
                        not mk or "($0 == null)" in L)
                    ctx.ob("slots", bool(ok), where(fn), "the slot tracker "
                           "is %s when %s" % (r, sorted(L)), fn.qn)
