"""P13: names and options select what they name."""
import os
import re
from flow import t2s, last
from spec import *
from fold import Fold, Unknown
from facts import CheckError, Facts, REPO
from p12 import live
from p16 import tri, one

EXPLAIN = ("Constant folding of the enum/string tables over every name and "
           "flag; bitwise evaluation of the option setters and getters over "
           "all option sets; guarded-effect summaries of the command-line "
           "driver and the analysis controller compared with the documented "
           "options.")

CLI = "tools/phasar-cli/phasar-cli.cpp"
CTL = "tools/phasar-cli/Controller/"
CFGCPP = "lib/PhasarLLVM/DataFlow/IfdsIde/IFDSIDESolverConfig.cpp"
HA = "lib/PhasarLLVM/HelperAnalyses.cpp"

# file, enum, parser, value for unknown names, documented flags
NAMES = [
    ("lib/Utils/Soundness.cpp", "Soundness", "toSoundness", "Invalid",
     dict(sound="Sound", soundy="Soundy", unsound="Unsound")),
    ("lib/ControlFlow/CallGraphAnalysisType.cpp", "CallGraphAnalysisType",
     "toCallGraphAnalysisType", "Invalid",
     dict(nores="NORESOLVE", cha="CHA", rta="RTA", dta="DTA", vta="VTA",
          otf="OTF")),
    ("lib/ControlFlow/SpecialMemberFunctionType.cpp",
     "SpecialMemberFunctionType", "toSpecialMemberFunctionType", "None", {}),
    ("lib/Pointer/AliasAnalysisType.cpp", "AliasAnalysisType",
     "toAliasAnalysisType", "Invalid",
     {"basic": "Basic", "cflsteens": "CFLSteens", "cflanders": "CFLAnders",
      "points-to": "PointsTo"}),
    ("lib/Pointer/AliasResult.cpp", "AliasResult", "toAliasResult",
     "MayAlias", {}),
    ("lib/PhasarLLVM/Utils/DataFlowAnalysisType.cpp", "DataFlowAnalysisType",
     "toDataFlowAnalysisType", "None",
     {"ifds-uninit": "IFDSUninitializedVariables",
      "ifds-const": "IFDSConstAnalysis", "ifds-taint": "IFDSTaintAnalysis",
      "ide-xtaint": "IDEExtendedTaintAnalysis",
      "ifds-type": "IFDSTypeAnalysis",
      "ide-stdio-ts": "IDECSTDIOTypeStateAnalysis",
      "ide-openssl-ts": "IDEOpenSSLTypeStateAnalysis",
      "ifds-solvertest": "IFDSSolverTest",
      "ide-lca": "IDELinearConstantAnalysis",
      "ide-solvertest": "IDESolverTest",
      "ide-iia": "IDEInstInteractionAnalysis",
      "intra-mono-fca": "IntraMonoFullConstantPropagation",
      "intra-mono-solvertest": "IntraMonoSolverTest",
      "inter-mono-solvertest": "InterMonoSolverTest",
      "inter-mono-taint": "InterMonoTaintAnalysis"}),
    ("lib/AnalysisStrategy/Strategies.cpp", "AnalysisStrategy",
     "toAnalysisStrategy", "None",
     dict(WPA="WholeProgram", DD="DemandDriven", INC="Incremental",
          MWA="ModuleWise", VAR="Variational")),
]

EMIT = {
    "emit-ir": "EmitIR", "emit-raw-results": "EmitRawResults",
    "emit-text-report": "EmitTextReport",
    "emit-graphical-report": "EmitGraphicalReport",
    "emit-esg-as-dot": "EmitESGAsDot", "emit-th-as-text": "EmitTHAsText",
    "emit-th-as-dot": "EmitTHAsDot", "emit-th-as-json": "EmitTHAsJson",
    "emit-cg-as-dot": "EmitCGAsDot", "emit-cg-as-json": "EmitCGAsJson",
    "emit-pta-as-text": "EmitPTAAsText", "emit-pta-as-dot": "EmitPTAAsDot",
    "emit-pta-as-json": "EmitPTAAsJson",
    "emit-stats": "EmitStatisticsAsText",
    "emit-statistics-as-json": "EmitStatisticsAsJson"}

SOLVER = {"follow-return-past-seeds": "setFollowReturnsPastSeeds",
          "auto-add-zero": "setAutoAddZero",
          "compute-values": "setComputeValues",
          "record-edges": "setRecordEdges",
          "persisted-summaries": "setComputePersistedSummaries",
          "emit-esg-as-dot": "setEmitESG"}

ON = {"emit-text-report", "auto-globals", "follow-return-past-seeds",
      "auto-add-zero", "compute-values"}

SHORT = {"s": "silent", "quiet": "silent", "m": "module",
         "E": "entry-points", "D": "data-flow-analysis",
         "P": "alias-analysis", "C": "call-graph-analysis",
         "S": "emit-stats", "L": "log", "O": "out", "A": "pamm-out"}

# emitter option -> (file, what is printed)
ARTIFACT = {
    "EmitIR": ("/psr-preprocess-ir.ll", r"getProjectIRDB\(\)"
               r"\.emitPreprocessedIR\(OUT\)"),
    "EmitTHAsText": ("/psr-th.txt", r"getTypeHierarchy\(\)\.print\(OUT\)"),
    "EmitTHAsDot": ("/psr-th.dot",
                    r"getTypeHierarchy\(\)\.printAsDot\(OUT\)"),
    "EmitTHAsJson": ("/psr-th.json",
                     r"getTypeHierarchy\(\)\.printAsJson\(OUT\)"),
    "EmitPTAAsText": ("/psr-pta.txt", r"getAliasInfo\(\)\.print\(OUT\)"),
    "EmitPTAAsDot": ("/psr-pta.dot",
                     r"getAliasInfo\(\)\.print(?:AsDot)?\(OUT\)"),
    "EmitPTAAsJson": ("/psr-pta.json",
                      r"getAliasInfo\(\)\.printAsJson\(OUT\)"),
    "EmitCGAsDot": ("/psr-cg.txt", r"getICFG\(\)\.print(?:Impl)?\(OUT\)"),
    "EmitCGAsJson": ("/psr-cg.json",
                     r"getICFG\(\)\.printAsJson(?:Impl)?\(OUT\)"),
    "EmitStatisticsAsJson": ("/psr-IrStatistics.json", r"STATS\.printAsJson"
                             r"\(OUT\)"),
}
REPORT = {"EmitTextReport": ("/psr-report.txt", "emitTextReport"),
          "EmitGraphicalReport": ("/psr-report.html", "emitGraphicalReport"),
          "EmitRawResults": ("/psr-raw-results.txt", "dumpResults")}


def run(ctx):
    names(ctx)
    config(ctx)
    C = ctx.facts(CLI)
    opts = options(ctx, C)
    driver(ctx, C, opts)
    dispatch(ctx)
    artifacts(ctx)
    helper(ctx)
    for r, n in (("names", 100), ("flags", 60), ("config", 300),
                 ("options", 60), ("emit", 25), ("driver", 20),
                 ("dispatch", 60), ("artifacts", 25), ("helper", 30)):
        ctx.atleast(r, n)


# ------------------------------------------------------------------- names
def names(ctx):
    for f, en, pn, bad, flags in NAMES:
        F = ctx.facts(f)
        e = F.enums.get("psr::" + en)
        if e is None:
            raise CheckError("enum %s is gone" % en)
        X = Fold(ctx, F)
        to = [x for x in F.find("psr::toString") if re.search(
            r"\b%s\b" % en, x.ps[0][2])]
        frm = F.find("psr::" + pn)
        if not to or not frm:
            raise CheckError("no names of %s" % en)
        to, frm = to[0], frm[0]
        consts = {n: v for n, v in e["consts"]}
        ctx.ob("names", len(set(consts.values())) == len(consts), where(to),
               "%s has two names for one value" % en)
        from fold import enum
        sent = bad if bad in ("Invalid",) or en in (
            "DataFlowAnalysisType", "AnalysisStrategy") else None
        for n, v in consts.items():
            val = enum("psr::%s::%s" % (en, n), v)
            s, why = X.one(to, [val])
            ctx.ob("names", why is None and s == n, where(to), "%s::%s is "
                   "called %r%s" % (en, n, s, " " + why if why else ""))
            if n == sent:
                continue
            b, why = X.one(frm, [n])
            ctx.ob("names", why is None and b == v, where(frm), "the name of "
                   "%s::%s is read as %r%s" % (en, n, b, " " + why if why
                                               else ""))
        for fl, n in flags.items():
            b, why = X.one(frm, [fl])
            ctx.ob("flags", why is None and n in consts and b == consts[n],
                   where(frm), "the flag %s is read as %r, not %s::%s" % (
                       fl, b, en, n))
        for s in ("", "no such thing", bad.lower() + "!"):
            b, why = X.one(frm, [s])
            ctx.ob("names", why is None and b == consts[bad], where(frm),
                   "an unknown name is read as %r, not %s" % (b, bad))
        for fn in F.find("psr::operator<<", need=False):
            if len(fn.ps) == 2 and re.search(r"\b%s\b" % en, fn.ps[1][2]):
                for p in live(ctx.summary(F, fn, stop=["toString"])):
                    r = t2s(p.ret)
                    ctx.ob("names", re.fullmatch(
                        r"\(\$0 << (?:psr::)?toString\(\$1\)\)", r)
                        is not None and not [e for e in p.ev if
                                             e.kind == "write"],
                        where(fn), "%s prints %s" % (en, r))


# ------------------------------------------------------------------ config
def bits(t, env, enums):
    """value of an integer term"""
    h = t[0]
    s = t2s(t)
    if s in env:
        return env[s]
    if h == "enum":
        return int(t[2])
    if h in ("int", "i"):
        return int(t[1])
    if h == "bool":
        return int(t[1])
    if h == "cast":
        return bits(t[-1] if isinstance(t[-1], tuple) else t[2], env, enums)
    if h in ("deref", "addr", "truthy"):
        v = bits(t[1], env, enums)
        return int(v != 0) if h == "truthy" else v
    if h == "not":
        return int(not bits(t[1], env, enums))
    if h in ("un", "unop"):
        v = bits(t[2], env, enums)
        return ~v & 0xFFFFFFFF if t[1] == "~" else int(not v) \
            if t[1] == "!" else -v & 0xFFFFFFFF
    if h == "op" and len(t) == 4:
        a, b = bits(t[2], env, enums), bits(t[3], env, enums)
        return {"&": a & b, "|": a | b, "^": a ^ b, "==": int(a == b),
                "!=": int(a != b), "+": a + b & 0xFFFFFFFF,
                "-": a - b & 0xFFFFFFFF}[t[1]]
    if h == "call" and len(t) == 4 and last(t[1]) == "operator~":
        return ~bits(t[3][0], env, enums) & 0xFFFFFFFF
    if h == "call" and len(t) == 4 and last(t[1]) in (
            "operator|", "operator&", "operator^"):
        a, b = [bits(x, env, enums) for x in t[3]]
        return {"|": a | b, "&": a & b, "^": a ^ b}[last(t[1])[-1]]
    if h == "ctor" and len(t[2]) == 1:
        return bits(t[2][0], env, enums)
    raise Unknown(s)


class Bits:
    """evaluates the option functions on concrete bit sets"""

    def __init__(self, ctx, F):
        self.ctx, self.F = ctx, F
        self.sums = {}

    def paths(self, fn):
        if fn.id not in self.sums:
            self.sums[fn.id] = live(self.ctx.summary(self.F, fn))
        return self.sums[fn.id]

    def run(self, fn, env):
        """environment after the call, returned value"""
        hits = []
        for p in self.paths(fn):
            if all(bool(bits(k, env, self.F.enums)) == v
                   for k, v in p.pc.items()):
                hits.append(p)
        if len(hits) != 1:
            raise Unknown("%d ways through %s" % (len(hits), fn.qn))
        p = hits[0]
        out = dict(env)
        for e in p.ev:
            if e.kind == "write":
                out[t2s(e.obj)] = bits(e.args[0], out, self.F.enums)
            elif e.kind == "call":
                self.call(e, out)
        r = None
        if p.ret is not None and p.exit == "return" and \
                t2s(p.ret) not in ("None", "void"):
            r = bits(p.ret, out, self.F.enums)
        return out, r

    def call(self, e, env):
        n = last(e.name.split("<")[0])
        if e.pure or n in ("operator&", "operator|", "operator^",
                           "operator~"):
            return
        fs = [f for f in self.F.find("psr::" + n, need=False)
              if f.body is not None and len(f.ps) == len(e.args)]
        if not fs:
            raise Unknown(e.s())
        outs = []
        for f in fs:
            sub = {"$%d" % i: bits(a, env, self.F.enums)
                   for i, a in enumerate(e.args)}
            o, _ = self.run(f, sub)
            outs.append([o["$%d" % i] if "&" in f.ps[i][2] and
                         "const" not in f.ps[i][2] else None
                         for i in range(len(e.args))])
        if any(o != outs[0] for o in outs):
            raise Unknown("instances of %s differ" % n)
        for a, v in zip(e.args, outs[0]):
            if v is not None:
                env[t2s(a)] = v


OPTIONS = ["FollowReturnsPastSeeds", "AutoAddZero", "ComputeValues",
           "RecordEdges", "EmitESG", "ComputePersistedSummaries"]


def config(ctx):
    F = ctx.facts(CFGCPP)
    K = "psr::IFDSIDESolverConfig::"
    en = {n: v for n, v in F.enums["psr::SolverConfigOptions"]["consts"]}
    used = [en.get(o) for o in OPTIONS]
    where0 = where(one(F, K + "setConfig"))
    ctx.ob("config", None not in used and all(
        v and v & (v - 1) == 0 for v in used) and len(set(used)) == len(used),
        where0, "the solver options are not bits of their own: %s" % en)
    if None in used:
        return
    mask = 0
    for v in used:
        mask |= v
    B = Bits(ctx, F)
    field = None
    for fn in (one(F, K + "setConfig"),):
        ws = [e for p in live(ctx.summary(F, fn)) for e in p.ev
              if e.kind == "write"]
        ok = len(ws) == 1 and t2s(ws[0].args[0]) == "$0"
        ctx.ob("config", ok, where(fn), "setConfig does not take over the "
               "options")
        if ok:
            field = t2s(ws[0].obj)
    if field is None:
        return
    sets = range(0, 64)

    def spread(m):
        r = 0
        for i, v in enumerate(used):
            if m >> i & 1:
                r |= v
        return r
    for o, v in zip(OPTIONS, used):
        s = one(F, K + "set" + o)
        g = one(F, K + o[0].lower() + o[1:])
        bad = None
        try:
            for m in sets:
                x = spread(m)
                for b in (0, 1):
                    out, _ = B.run(s, {field: x, "$0": b})
                    if out[field] & mask != (x | v if b else x & ~v):
                        bad = bad or "turned %s in %#x gives %#x" % (
                            "on" if b else "off", x, out[field])
        except Unknown as u:
            bad = "not evaluable: %s" % str(u)[:120]
        ctx.ob("config", bad is None, where(s), "%s %s" % (o, bad))
        ctx.obs += 0
        for m in sets:
            x = spread(m)
            try:
                _, r = B.run(g, {field: x})
                ok = r is not None and bool(r) == bool(x & v)
                r = bool(r)
            except Unknown as u:
                ok, r = False, "not evaluable: %s" % str(u)[:120]
            ctx.ob("config", ok, where(g), "%s of %#x reads %s" % (o, x, r),
                   "%s:%d" % (o, m))
    # flag operators of every enumeration in use
    for q, spec in (("psr::hasFlag", None), ("psr::setFlag", None),
                    ("psr::unsetFlag", None), ("psr::operator|=", None),
                    ("psr::operator&=", None)):
        for fn in F.find(q, need=False):
            if len(fn.ps) < 2:
                continue
            flag_op(ctx, B, fn, q, used, mask)
    # defaults of the configuration
    for r in F.recs.get("psr::IFDSIDESolverConfig", []):
        pass
    for fn in F.find("psr::operator<<", need=False):
        if not any("IFDSIDESolverConfig" in p[2] for p in fn.ps):
            continue
        for p in live(ctx.summary(F, fn)):
            t = t2s(p.ret)
            for o in OPTIONS:
                nm = o[0].lower() + o[1:]
                m = re.search(r'"[^"]*\b%s: "\) << (.*?)(?:\) <<|$)' % nm, t,
                              re.S)
                ok = m and re.search(
                    r"SolverConfigOptions::%s\b|\.%s\(\)" % (o, nm),
                    t[m.start():m.start() + 200 + len(m.group(0))])
                ctx.ob("config", bool(ok), where(fn), "%s is not printed "
                       "after its name" % nm)


def flag_op(ctx, B, fn, q, used, mask):
    n = last(q)
    bad = None
    try:
        for x in (0, used[0], used[1], used[0] | used[1], mask):
            for f in used:
                for b in (0, 1):
                    env = {"$0": x, "$1": f}
                    if len(fn.ps) == 3:
                        env["$2"] = b
                    out, r = B.run(fn, env)
                    want = {"hasFlag": None,
                            "setFlag": x | f if len(fn.ps) == 2 or b
                            else x & ~f,
                            "unsetFlag": x & ~f, "operator|=": x | f,
                            "operator&=": x & f}[n]
                    if n == "hasFlag":
                        ok = bool(r) == bool(x & f)
                    else:
                        ok = out["$0"] & mask == want & mask
                    if not ok:
                        bad = bad or "(%#x, %#x) gives %s" % (
                            x, f, r if n == "hasFlag" else out["$0"])
    except Unknown as u:
        bad = "not evaluable: %s" % str(u)[:120]
    ctx.ob("config", bad is None, where(fn), "%s%s" % (n, bad or ""),
           "%s/%d" % (n, len(fn.ps)))


# ----------------------------------------------------------------- options
def strs(x):
    if isinstance(x, list):
        if x and x[0] == "s" and len(x) >= 2 and isinstance(x[1], str):
            yield x[1]
            return
        for y in x:
            yield from strs(y)


def find(x, pred):
    if isinstance(x, list):
        if x and pred(x):
            yield x
        for y in x:
            yield from find(y, pred)


def options(ctx, C):
    """variable -> flag; the options themselves are judged"""
    opts, alias, vals, ini, desc = {}, {}, {}, {}, {}
    gl = C.globs.values() if isinstance(C.globs, dict) else C.globs
    at = {}
    for g in gl:
        i = g.get("init")
        if not (isinstance(i, list) and i and i[0] == "ctor" and
                isinstance(i[2], str) and i[2].startswith("llvm::cl::")):
            continue
        args = i[3]
        flag = next((a[1] for a in args if a[0] == "s"), None)
        if flag is None:
            continue
        w = "%s:%s" % (CLI, i[4] if len(i) > 4 else 0)
        at[flag] = w
        if i[2] == "llvm::cl::alias":
            tgt = [v[5] for v in find(args, lambda y: y[0] == "v" and
                                      len(y) > 5) if "PsrCat" not in v[5]]
            alias[flag] = (tgt, w)
            continue
        ctx.ob("options", flag not in opts.values(), w,
               "two options are called --%s" % flag)
        opts[g["qn"]] = flag
        for c in find(args, lambda y: y[0] == "call" and isinstance(
                y[2], str) and last(y[2]) == "values"):
            vs = []
            for il in find(c, lambda y: y[0] == "il" and len(y) > 2 and
                           isinstance(y[2], str) and
                           "OptionEnumValue" in y[2]):
                es = list(find(il, lambda y: y[0] == "en"))
                ss = list(strs(il))
                if len(es) == 1 and ss:
                    vs.append((ss[0], es[0][1]))
                    desc[(flag, ss[0])] = " ".join(ss[1:])
            vals[flag] = vs
        for c in find(args, lambda y: y[0] == "call" and isinstance(
                y[2], str) and last(y[2]) == "init"):
            ini[flag] = c[4][0]
    for a, want in SHORT.items():
        if a not in alias:
            continue
        tgt, w = alias[a]
        ctx.ob("options", [opts.get(t) for t in tgt] == [want], w,
               "-%s stands for %s, not --%s" % (
                   a, [opts.get(t) for t in tgt], want))
    for fl in list(EMIT) + list(SOLVER) + [
            "module", "entry-points", "data-flow-analysis", "alias-analysis",
            "call-graph-analysis", "analysis-config", "out", "auto-globals",
            "load-pta-from-json", "load-cg-from-json", "analysis-strategy"]:
        ctx.ob("options", fl in opts.values(), CLI, "there is no option "
               "--%s" % fl)
        if fl in EMIT or fl in SOLVER or fl in ON:
            d = ini.get(fl)
            on = bool(d and list(find(d, lambda y: y[0] == "b" and y[1])))
            ctx.ob("options", on == (fl in ON), at.get(fl, CLI), "--%s is "
                   "%s by default" % (fl, "on" if on else "off"))
    for o, i in (("data-flow-analysis", 5), ("alias-analysis", 3),
                 ("call-graph-analysis", 1), ("soundness", 0),
                 ("analysis-strategy", 6)):
        en, flags = NAMES[i][1], NAMES[i][4]
        got = vals.get(o, [])
        ctx.ob("flags", len({x for x, _ in got}) == len(got), at.get(o, CLI),
               "two values of --%s are called the same" % o)
        for s, e in got:
            ctx.ob("flags", flags.get(s, last(e)) == last(e) and
                   e.split("::")[-2] == en, at.get(o, CLI), "--%s=%s "
                   "chooses %s" % (o, s, e))
            if "(default)" in desc.get((o, s), "") and o in ini:
                d = [x[1] for x in find(ini[o], lambda y: y[0] == "en")]
                ctx.ob("options", d == [e], at.get(o, CLI), "the default of "
                       "--%s is %s, not %s" % (o, d, e))
        for s, n in flags.items():
            ctx.ob("flags", any(x == s for x, _ in got), at.get(o, CLI),
                   "--%s=%s is unknown" % (o, s))
    return opts


# ------------------------------------------------------------------ driver
def deep(p, ctx_=frozenset(), path=()):
    """events of a merged summary with the conditions they depend on"""
    for e in p.ev:
        if e.kind == "loop":
            for q in e.loop.paths:
                yield from deep(q, ctx_ | lits(q.pc) if e.loop.kind == "gate"
                                else ctx_, path + ((e.loop, q),))
        else:
            yield e, ctx_, path


def gates(p):
    for e in p.ev:
        if e.kind == "loop":
            yield e.loop
            for q in e.loop.paths:
                yield from gates(q)


def driver(ctx, C, opts):
    fn = one(C, "main")
    ps = ctx.summary(C, fn, merge=True)
    w = where(fn)
    byflag = {}
    for q, f in opts.items():
        byflag[f] = "@" + q

    def O(f):
        return re.escape(byflag.get(f, "@@" + f))

    def rd(f):
        return r"truthy\(%s(?:\.getValue\(\))?\)" % O(f)
    good = [p for p in live(ps) if p.ret is not None and t2s(p.ret) == "0"]
    ctx.ob("driver", len(good) >= 1, w, "the driver never succeeds")
    for p in live(ps):
        if p not in good:
            ctx.ob("driver", t2s(p.ret) != "0" and not any(
                re.search(r"\.run\(\)$", e.s()) for e, c, g in deep(p)), w,
                "analyses run although the arguments are rejected")
    enums = C.enums["psr::AnalysisControllerEmitterOptions"]["consts"]
    vs = [v for n, v in enums if n != "None"]
    ctx.ob("emit", len(set(vs)) == len(vs) and all(
        v and v & (v - 1) == 0 for v in vs) and dict(
            (n, v) for n, v in enums).get("None") == 0, w,
           "the emitter options are not bits of their own")
    fw = {e: f for f, e in EMIT.items()}
    for p in good:
        seen = {}
        for e, c, path in deep(p):
            s = e.s()
            m = re.search(r"operator\|=|setFlag", e.name) and re.findall(
                r"AnalysisControllerEmitterOptions::(\w+)", s)
            ns = [x for x in m if x != "None"] if m else []
            if re.search(r"operator=$", e.name) and re.search(
                    r"AnalysisControllerEmitterOptions::(?!None)\w+", s):
                ctx.ob("emit", False, e.where(), "the emitter options are "
                       "overwritten")
            for n in ns:
                seen.setdefault(n, []).append((c, e.where()))
        # assignments to the local variable: EmitterOptions = ... | E
        for g in gates(p):
            for q in g.paths:
                for k, v in q.env.items():
                    for n in re.findall(
                            r"\| (?:psr::)?AnalysisControllerEmitterOptions"
                            r"::(\w+)", t2s(v)) if v else ():
                        if n != "None" and n not in seen:
                            seen.setdefault(n, []).append((
                                frozenset(lits(q.pc)), w))
        for n, f in sorted(fw.items()):
            hits = seen.pop(n, [])
            ctx.ob("emit", len(hits) >= 1, w, "--%s has no effect" % f)
            for c, wh in hits:
                c = [x for x in c if not re.fullmatch(
                    r"!truthy\(@[\w:()]*EmitCGAsTextOpt\)", x)]
                ctx.ob("emit", len(c) == 1 and re.fullmatch(rd(f), c[0])
                       is not None, wh, "%s is emitted when %s, not with "
                       "--%s" % (n, c, f))
        for n, hits in seen.items():
            for c, wh in hits:
                ctx.ob("emit", n == "EmitCGAsText" and any(
                    "EmitCGAsText" in x for x in c), wh,
                    "%s is emitted when %s" % (n, sorted(c)))
        solver_opts(ctx, p, w, rd, O)
        objects(ctx, C, p, w, O, rd, fn)


def solver_opts(ctx, p, w, rd, O):
    calls = {}
    for e, c, path in deep(p):
        m = re.search(r"IFDSIDESolverConfig::(set\w+)", e.name)
        if m:
            calls.setdefault(m.group(1), []).append((e, c))
    for f, s in SOLVER.items():
        hits = calls.get(s, [])
        ctx.ob("driver", len(hits) >= 1, w, "--%s has no effect" % f)
        for e, c in hits:
            a = t2s(e.args[0])
            if s == "setRecordEdges":
                # the exploded super graph needs the edges, too
                on = tri(c, rd(f))
                esg = tri(c, rd("emit-esg-as-dot"))
                ok = a == ("true" if on or esg else "false") and (
                    on is not None or esg) or re.fullmatch(
                        r"\(%s \|\| %s\)|%s" % (
                            rd(f), rd("emit-esg-as-dot"), rd(f)), a)
            elif a in ("true", "false"):
                ok = tri(c, rd(f)) is (a == "true")
            else:
                ok = re.fullmatch(rd(f) + r"|%s(?:\.getValue\(\)|\.bool\(\))?"
                                  % O(f), a) and not [
                                      x for x in c if "truthy" in x]
            ctx.ob("driver", bool(ok), e.where(), "%s(%s) when %s does not "
                   "follow --%s" % (s, a, sorted(c), f))


def copied(fn):
    """is the configuration the setters were called on handed on?"""
    typ = "psr::IFDSIDESolverConfig"
    conf = {v[1] for c in find(fn.body, lambda y: y[0] == "call" and
                               isinstance(y[2], str) and
                               y[2].startswith(typ + "::set"))
            for v in find(c[3], lambda y: y[0] == "v")}
    used = {v[1] for c in find(fn.body, lambda y: y[0] in (
        "cp", "mv", "ctor") and len(y) > 3 and y[2] == typ)
        for v in find(c[3:], lambda y: y[0] == "v")}
    return not conf or bool(conf & used)


def objects(ctx, C, p, w, O, rd, fn):
    """the analyses are built from the options"""
    val = r"%s(?:\.(?:getValue|[\w:<>,&* ]+)\(\))?"
    jsons = {}
    for g in gates(p):
        for q in g.paths:
            for k, v in q.env.items():
                m = re.search(r"readJsonFile\((.*)\)", t2s(v)) if v else None
                if m and v[0] != "phi":
                    jsons[k] = (m.group(1), lits(q.pc), g.id)
    ha = ac = run_ = emit_ = 0
    for e, c, path in deep(p):
        s = e.s()
        if e.term and e.term[0] == "ctor" and re.fullmatch(
                r"(?:psr::)?HelperAnalyses", e.term[1]) and len(e.args) == 9:
            ha += 1
            a = [t2s(x) for x in e.args]
            for i, f in ((0, "module"), (2, "alias-analysis"),
                         (4, "entry-points"), (6, "call-graph-analysis"),
                         (7, "soundness"), (8, "auto-globals")):
                ctx.ob("driver", re.match(
                    r"(?:truthy\()?%s(?:[.)]|$)" % O(f), a[i])
                    is not None, e.where(), "argument %d of the helper "
                    "analyses is %s, not --%s" % (i, a[i][:80], f))
            for i, f in ((1, "load-pta-from-json"), (5, "load-cg-from-json")):
                j = [v for k, v in jsons.items() if a[i].startswith(
                    "phi(%s, %s)" % (k, v[2]))]
                ok = len(j) == 1 and re.match(O(f) + r"\b", j[0][0]) and \
                    tri(j[0][1], r"empty\(%s\)" % O(f)) is False
                ctx.ob("driver", bool(ok), e.where(), "argument %d of the "
                       "helper analyses is not the file of --%s" % (i, f))
            need = [x for x in c if "needsToEmitPTA(" in x]
            ok = (a[3] == "false" and any(not x.startswith("!") for x in need)
                  or a[3] == "true" and any(x.startswith("!") for x in need)
                  or a[3].startswith("!") and "needsToEmitPTA(" in a[3])
            ctx.ob("driver", ok, e.where(), "the alias information is %s "
                   "when %s" % ("lazy" if a[3] == "true" else a[3], need))
        run = re.search(r"AnalysisController::run$", e.name)
        made = None
        if run and e.obj is not None and e.obj[0] in ("il", "ctor"):
            made = e.obj[2]
        if made is not None and len(made) == 9:
            ac += 1
            a = [t2s(x) for x in made]
            ctx.ob("driver", re.match(r"&?(?:phi\(|HelperAnalyses\b)", a[0])
                   is not None, e.where(), "the controller uses %s" % a[0])
            for i, f in ((1, "data-flow-analysis"), (2, "analysis-config"),
                         (3, "entry-points"), (4, "analysis-strategy"),
                         (7, "project-id"), (8, "out")):
                ctx.ob("driver", re.search(r"%s\b" % O(f), a[i]) is not None,
                       e.where(), "member %d of the controller is %s, not "
                       "--%s" % (i, a[i][:80], f))
            ctx.ob("driver", "AnalysisControllerEmitterOptions::None" == a[5]
                   or a[5].startswith(("phi", "~")) or "|" in a[5],
                   e.where(), "the controller emits %s" % a[5][:80])
            own = {x.obj for x, _, _ in deep(p)
                   if re.search(r"IFDSIDESolverConfig::set\w+", x.name)}
            ctx.ob("driver", len(own) == 1 and made[6] in own and
                   copied(fn), e.where(),
                   "the controller uses the solver configuration %s" %
                   a[6][:80])
            ctx.ob("driver", not re.search(r"DataFlowAnalysisOpt\b.*(?:\[|"
                                           r"front|back|begin)", a[1]),
                   e.where(), "the controller runs only %s" % a[1][:80])
            ctx.ob("driver", any(re.search(r"getProjectIRDB\(\)\.isValid"
                                           r"\w*\(\)$", x) and x[0] != "!"
                                 for x in lits(p.pc)), e.where(),
                   "an invalid module is analysed")
        if run:
            run_ += 1
            ctx.ob("driver", emit_ == 1, e.where(), "helper analysis results "
                   "are not emitted before the run")
        if re.search(r"emitRequestedHelperAnalysisResults$", e.name):
            emit_ += 1
        if re.search(r"push_back$", e.name) and re.match(
                O("entry-points"), t2s(e.obj)):
            ctx.ob("driver", t2s(e.args[0]) == '"main"' and tri(
                c, r"empty\(%s\)" % O("entry-points")) is True, e.where(),
                "%s becomes an entry point when %s" % (t2s(e.args[0]),
                                                       sorted(c)))
    ctx.ob("driver", ha >= 1 and ac >= 1 and run_ == 1 and emit_ == 1, w,
           "the driver builds %d helper analyses, %d controllers, runs %d "
           "times" % (ha, ac, run_))
    for fn in C.find("psr::AnalysisController::needsToEmitPTA"):
        for q in live(ctx.summary(C, fn)):
            L = lits(q.pc)
            on = any(re.search(r"^!\(\(\$0 & .*::EmitPTAAs(?:Dot|Text|Json)\)"
                               r" == 0\)", x) for x in L)
            off = all(any(re.search(r"^\(\(\$0 & .*::EmitPTAAs%s\) == 0\)"
                                    % k, x) for x in L)
                      for k in ("Dot", "Text", "Json"))
            ctx.ob("driver", t2s(q.ret) == "true" and on or
                   t2s(q.ret) == "false" and off, where(fn),
                   "needsToEmitPTA is %s when %s" % (t2s(q.ret), sorted(L)))


# ---------------------------------------------------------------- dispatch
def problem(n):
    """problem class of an analysis type, what its construction must use"""
    if n == "IDECSTDIOTypeStateAnalysis":
        return "IDETypeStateAnalysis", r"&CSTDFILEIOTypeStateDescription\{\}"
    if n == "IDEOpenSSLTypeStateAnalysis":
        return "IDETypeStateAnalysis", r"&OpenSSLEVPKDFDescription\{\}"
    if "Taint" in n:
        return n, r"makeTaintConfig\(\$0\)"
    return n, None


def solver(n):
    return ("IFDSSolver" if n.startswith("IFDS") else "IntraMonoSolver"
            if n.startswith("IntraMono") else "InterMonoSolver"
            if n.startswith("InterMono") else "IDESolver")


def dispatch(ctx):
    A = ctx.facts(CTL + "AnalysisController.cpp")
    en = [n for n, v in A.enums["psr::DataFlowAnalysisType"]["consts"]]
    st = [n for n, v in A.enums["psr::AnalysisStrategy"]["consts"]]
    fn = one(A, "psr::AnalysisController::run")
    chosen = {}
    seen = set()
    for p in ctx.summary(A, fn):
        L = lits(p.pc)
        s = [x for x in st if tri(L, r"\(this\.Strategy == (?:psr::)?Analysis"
                                  r"Strategy::%s\)" % x)]
        if len(s) != 1:
            ctx.ob("dispatch", p.exit == "noreturn", where(fn), "strategies "
                   "are not told apart: %s" % sorted(L)[:3])
            continue
        seen.add(s[0])
        loops = [e.loop for e in p.ev if e.kind == "loop"]
        if s[0] != "WholeProgram":
            ctx.ob("dispatch", not loops and (p.exit == "noreturn" or
                                              s[0] == "None"), where(fn),
                   "strategy %s runs the analyses" % s[0])
            continue
        ok = len(loops) == 1 and t2s(loops[0].container) == \
            "this.DataFlowAnalyses"
        ctx.ob("dispatch", ok, where(fn), "not every requested analysis is "
               "run")
        if not ok:
            continue
        for q in loops[0].paths:
            L = lits(q.pc)
            a = [x for x in en if tri(L, r"\(elem\(this\.DataFlowAnalyses\) "
                                      r"== (?:psr::)?DataFlowAnalysisType::%s"
                                      r"\)" % x)]
            if len(a) != 1:
                ctx.ob("dispatch", q.exit == "noreturn", where(fn),
                       "analyses are not told apart")
                continue
            ctx.ob("dispatch", q.exit in (None, "next", "continue"),
                   where(fn), "no analysis is run after %s" % a[0])
            cs = [e for e in q.ev if e.kind == "call"]
            if a[0] == "None":
                ctx.ob("dispatch", not cs, where(fn), "None runs %s" %
                       [e.name for e in cs])
                continue
            ctx.ob("dispatch", len(cs) == 1 and [t2s(x) for x in cs[0].args]
                   == ["this"] or len(cs) == 1 and [
                       t2s(x) for x in cs[0].args] == ["*this"], where(fn),
                   "%s runs %s" % (a[0], [e.name for e in cs]))
            if cs:
                chosen[a[0]] = cs[0].name
    for s in st:
        ctx.ob("dispatch", s in seen, where(fn), "strategy %s is not "
               "handled" % s)
    for a in en:
        ctx.ob("dispatch", a == "None" or a in chosen, where(fn), "analysis "
               "%s is not handled" % a)
    d = os.path.join(REPO, CTL)
    tus = sorted(CTL + f for f in os.listdir(d) if f.endswith(".cpp"))
    Facts([os.path.join(REPO, t) for t in tus])   # fills the cache at once
    defs = {}
    for t in tus:
        F = ctx.facts(t)
        for f in F.all_fns():
            if f.qn.startswith("psr::controller::execute") and \
                    f.body is not None and len(f.ps) == 1 and \
                    os.path.basename(f.file) == os.path.basename(t):
                defs.setdefault(last(f.qn), (F, f))
    for a, n in sorted(chosen.items()):
        if last(n) not in defs:
            ctx.ob("dispatch", False, where(fn), "%s is run by %s, which is "
                   "not defined" % (a, n))
            continue
        analysis(ctx, a, *defs[last(n)])
    taintcfg(ctx, A)


def analysis(ctx, a, F, fn):
    cls, need = problem(a)
    inl = (lambda f: True if f.qn.startswith((
        "psr::controller::execute", "psr::createAnalysisProblem")) else None)
    ps = live(ctx.summary(F, fn, inline=inl, merge=True))
    ctx.ob("dispatch", len(ps) == 1, where(fn), "%d ways to run %s" % (
        len(ps), a))
    for p in ps:
        prob = sol = None
        solved = emitted = conf = False
        for e, c, path in deep(p):
            t = e.term
            if t and t[0] == "ctor" and last(t[1].split("<")[0]) in (
                    cls, cls + "T"):
                prob = e
            if t and t[0] == "ctor" and last(t[1].split("<")[0]).endswith(
                    "Solver"):
                sol = e
            if last(e.name) == "setIFDSIDESolverConfig" and prob is not None \
                    and "$0.SolverConfig" in t2s(e.args[0]) and not solved \
                    and sol is None:
                conf = not c
            elif re.search(r"IFDSIDESolverConfig::set\w+$", e.name):
                ctx.ob("dispatch", last(e.name) == "setAutoAddZero" and t2s(
                    e.args[0]) == "false" and tri(
                        c, r".*autoAddZero\(\)\)?") is False, e.where(),
                    "%s is run with a changed option: %s" % (a, e.s()[-80:]))
            if last(e.name) == "solve" and sol is not None:
                solved = not c
            if last(e.name) == "emitRequestedDataFlowResults":
                emitted = solved and not c and t2s(e.args[0]) == "$0" and \
                    sol is not None and t2s(e.args[1]).startswith(
                        t2s(sol.term)[:30])
        ctx.ob("dispatch", prob is not None, where(fn), "%s does not solve "
               "the problem %s" % (a, cls))
        if prob is None:
            continue
        s = t2s(prob.term)
        ctx.ob("dispatch", re.search(r"\$0\.HA\b.*getProjectIRDB\(\)", s)
               is not None, where(fn), "%s is not run on the module" % a)
        ctx.ob("dispatch", re.search(r"\$0\.EntryPoints\b", s) is not None,
               where(fn), "%s does not start at the requested entry points" %
               a)
        ctx.ob("dispatch", need is None or re.search(need, s) is not None,
               where(fn), "%s is run with %s" % (a, s[:150]))
        ctx.ob("dispatch", sol is not None and solved and emitted, where(fn),
               "%s is not solved before its results are emitted" % a)
        if sol is None:
            continue
        ctx.ob("dispatch", last(sol.term[1].split("<")[0]) == solver(a),
               where(fn), "%s is solved by %s" % (a, sol.term[1]))
        ctx.ob("dispatch", "Mono" in a or re.search(
            r"\$0\.HA\b.*getICFG\(\)", t2s(sol.term)) is not None, where(fn),
            "%s is not solved over the ICFG" % a)
        ctx.ob("dispatch", "Mono" in a or conf, where(fn), "%s ignores the "
               "requested solver configuration" % a)


def taintcfg(ctx, A):
    for fn in A.find("psr::controller::makeTaintConfig"):
        for p in live(ctx.summary(A, fn)):
            s = t2s(p.ret)
            if any(re.fullmatch(r"!empty\((?:\"\"|~\w+)\)", x)
                   for x in lits(p.pc)):
                continue
            cfg = "parseTaintConfig(" in s
            empty = tri(lits(p.pc), r"empty\(\$0\.AnalysisConfigs\)")
            none = tri(lits(p.pc), r"empty\(\$0\.AnalysisConfigs\[0\]\)|"
                       r"empty\(\$0\.AnalysisConfigs\.front\(\)\)")
            ctx.ob("dispatch", "getProjectIRDB()" in s and (
                cfg and empty is False and none is False and re.search(
                    r"parseTaintConfig\(.*\$0\.AnalysisConfigs", s)
                is not None or not cfg and (empty is True or none is True)),
                where(fn), "the taint configuration is %s when %s" % (
                    s[:100], sorted(lits(p.pc))))


# --------------------------------------------------------------- artifacts
def option_of(L, names, base):
    for n in names:
        v = tri(L, r"\(\(%s & (?:psr::)?AnalysisControllerEmitterOptions::%s"
                r"\) == 0\)" % (base, n))
        if v is False:
            return n
    return None


def artifacts(ctx):
    A = ctx.facts(CTL + "AnalysisController.cpp")
    fn = one(A, "psr::AnalysisController::emitRequestedHelperAnalysisResults")
    printed(ctx, A, fn, ARTIFACT, r"this\.EmitterOptions")
    F = ctx.facts(CTL + "AnalysisControllerXIFDSConst.cpp")
    fs = [f for f in F.all_fns() if f.qn ==
          "psr::controller::emitRequestedDataFlowResults" and f.body]
    if not fs:
        raise CheckError("emitRequestedDataFlowResults is gone")
    printed(ctx, F, fs[0], {n: (f, r"\$1\.%s\(OUT\)" % m)
                            for n, (f, m) in REPORT.items()},
            r"\$0\.EmitterOptions")


def printed(ctx, F, fn, table, base):
    got = {}
    ps = live(ctx.summary(F, fn, merge=True))
    ctx.ob("artifacts", len(ps) == 1, where(fn), "%d ways to emit" % len(ps))
    names_ = [n for n in EMIT.values()] + ["EmitCGAsText"]
    dirp = r"(?:(?:this|\$0)\.ResultDirectory|phi\(\w+, \d+\))"
    for p in ps:
        for e, c, path in deep(p):
            s = e.s()
            for n, (f, rx) in table.items():
                dst = None
                for tail, k in ((r"outs\(\)", "out"),
                                (r"\*openFileStream\(\(%s(?:\.string\(\)|\."
                                 r"native\(\)) \+ %s\)\)" % (
                                     dirp, re.escape('"%s"' % f)), "file")):
                    r = rx.replace("OUT", tail).replace(
                        "STATS", r".*runOnModule\(.*\)")
                    if re.fullmatch(r"(?:this\.HA\.)?(?:this\.)?" + r, s):
                        dst = k
                if dst and option_of(c, [n], base) == n:
                    got.setdefault(n, {}).setdefault(dst, []).append((c, e))
            # whatever else is printed belongs to an option, too
            if re.search(r"\b(?:print\w*|emit\w+|dumpResults)\(", s) and \
                    re.search(r"outs\(\)|openFileStream", s) and not \
                    s.startswith(("outs(", "openFile")):
                o = option_of(c, names_, base)
                ok = o in table and any(
                    e is x for d in got.get(o, {}).values() for _, x in d)
                ctx.ob("artifacts", ok or o in (
                    "EmitStatisticsAsText", "EmitESGAsDot"), e.where(),
                    "%s is emitted for %s" % (s[:120], o))
    for n in table:
        g = got.get(n, {})
        ctx.ob("artifacts", len(g.get("out", [])) == 1 and len(
            g.get("file", [])) == 1, where(fn), "%s is emitted %d times to "
            "standard output and %d times to %s" % (
                n, len(g.get("out", [])), len(g.get("file", [])),
                table[n][0]))
        for k, hits in g.items():
            for c, e in hits:
                d = tri(c, r"empty\(%s\)" % dirp)
                ctx.ob("artifacts", d is (k == "out"), e.where(), "%s goes "
                       "to %s when %s" % (n, k, sorted(c)))
                others = [x for x in names_ if x != n and tri(
                    c, r"\(\(%s & (?:psr::)?AnalysisControllerEmitterOptions"
                    r"::%s\) == 0\)" % (base, x)) is not None]
                ctx.ob("artifacts", not others, e.where(), "%s depends on "
                       "%s" % (n, others))


# ------------------------------------------------------------------ helper
FIELDS = dict(IRFile="IRFile", PrecomputedPTS="PrecomputedPTS",
              PTATy="PTATy", AllowLazyPTS="AllowLazyPTS",
              PrecomputedCG="PrecomputedCG", EntryPoints="EntryPoints",
              CGTy="CGTy", SoundnessLevel="SoundnessLevel",
              AutoGlobalSupport="AutoGlobalSupport")


def helper(ctx):
    F = ctx.facts(HA)
    K = "psr::HelperAnalyses::"
    direct = 0
    for fn in F.find(K + "(ctor)"):
        if len(fn.ps) < 3:
            continue
        ps = live(ctx.summary(F, fn))
        for p in ps:
            dele = [e for e in p.ev if e.kind == "call" and e.term and
                    e.term[0] == "ctor" and e.term[1].endswith(
                        "HelperAnalyses")]
            ws = {t2s(e.obj): t2s(e.args[0]) for e in p.ev
                  if e.kind == "write"}
            if dele:
                a = [t2s(x) for x in dele[0].args]
                ctx.ob("helper", a[1:] == ["$1", "$2"] and a[0] in (
                    "$0.str()", "$0", "basic_string{}", '""'), where(fn),
                    "the helper analyses are built from %s" % a)
                if "Module" in fn.ps[0][2]:
                    db = ws.get("this.IRDB", "")
                    ctx.ob("helper", re.fullmatch(
                        r"std::make_unique<LLVMProjectIRDB>\(\$0, \$2\.Prepro"
                        r"cessExistingModule\)", db) is not None, where(fn),
                        "the given module is taken over as %s" % db)
                continue
            direct += 1
            cfg = any("HelperAnalysisConfig" in x[2] for x in fn.ps)
            nm = {x[1]: "$%d" % i for i, x in enumerate(fn.ps)}
            pos = {"IRFile": "$0"}
            if cfg:
                pos["EntryPoints"] = "$1"
                for f in FIELDS:
                    if f not in pos:
                        pos[f] = "$2." + f
            else:
                # the parameters in their documented order
                for i, f in enumerate(["IRFile", "PrecomputedPTS", "PTATy",
                                       "AllowLazyPTS", "EntryPoints",
                                       "PrecomputedCG", "CGTy",
                                       "SoundnessLevel",
                                       "AutoGlobalSupport"]):
                    pos[f] = "$%d" % i
            for f, want in pos.items():
                ctx.ob("helper", ws.get("this." + f) == want, where(fn),
                       "%s is initialised with %s, not with %s" % (
                           f, ws.get("this." + f), want))
    ctx.ob("helper", direct >= 2, HA, "constructors are gone")
    DB = r"(?:this\.IRDB|std::make_unique<LLVMProjectIRDB>\(this\.IRFile\))"
    PT = r"(?:this\.PT|std::make_unique<LLVMAliasSet>\((?:%s, \*this\." \
         r"PrecomputedPTS|%s, this\.AllowLazyPTS, this\.PTATy)\))" % (DB, DB)
    TH = r"(?:this\.TH|std::make_unique<LLVMTypeHierarchy>\(\*%s\))" % DB
    PRE = r"std::make_unique<LLVMAliasSet>\(%s, \*this\.PrecomputedPTS\)" % DB
    FRE = r"std::make_unique<LLVMAliasSet>\(%s, this\.AllowLazyPTS, this\." \
          r"PTATy\)" % DB
    for m, f, rx in (
            ("getProjectIRDB", "IRDB", DB), ("getAliasInfo", "PT", PT),
            ("getTypeHierarchy", "TH", TH),
            ("getICFG", "ICF",
             r"std::make_unique<LLVMBasedICFG>\((?:%s, \*this\.PrecomputedCG|"
             r"%s, this\.CGTy, this\.EntryPoints, %s, (?:%s|null), this\."
             r"SoundnessLevel, this\.AutoGlobalSupport)\)" % (
                 DB, DB, TH, PT)),
            ("getCFG", "CFG", r"std::make_unique<LLVMBasedCFG>\(\)")):
        for fn in F.find(K + m):
            made = kept = 0
            for p in live(ctx.summary(F, fn)):
                L = lits(p.pc)
                have = tri(L, r"truthy\(this\.%s\)" % f)
                r = t2s(p.ret)
                ws = [(t2s(e.obj), t2s(e.args[0])) for e in p.ev
                      if e.kind == "write"]
                if have:
                    kept += 1
                    ctx.ob("helper", r == "*this." + f and not ws, where(fn),
                           "%s yields %s although it was computed before" %
                           (m, r), m)
                    continue
                if m == "getCFG" and r == "*this.ICF":
                    ctx.ob("helper", tri(L, r"truthy\(this\.ICF\)") is True
                           and not ws, where(fn), "the ICFG serves as CFG "
                           "when %s" % sorted(L), m)
                    continue
                made += 1
                own = [v for o, v in ws if o == "this." + f]
                ctx.ob("helper", have is False and len(own) == 1 and
                       re.fullmatch(rx, own[0]) is not None and
                       r == "*" + own[0], where(fn), "%s yields %s when %s" %
                       (m, r[:200], sorted(L)), m)
                for o, v in ws:
                    ctx.ob("helper", o in ("this.IRDB", "this.PT", "this.TH",
                                           "this.ICF", "this.CFG"),
                           where(fn), "%s changes %s" % (m, o), m)
                if "PrecomputedPTS" in r or "AllowLazyPTS" in r:
                    pre = tri(L, r"truthy\(this\.PrecomputedPTS\)")
                    ctx.ob("helper", re.search(PRE, r) is not None if pre
                           else re.search(FRE, r) is not None, where(fn),
                           "precomputed alias sets are %s" % (
                               "ignored" if pre else "used"), m)
                if m == "getICFG":
                    pre = tri(L, r"truthy\(this\.PrecomputedCG\)")
                    ctx.ob("helper", (pre is True) == (
                        "*this.PrecomputedCG" in r) and pre is not None,
                        where(fn), "the precomputed call graph is %s" % (
                            "ignored" if pre else "used"), m)
                    otf = tri(L, r"\(this\.CGTy == (?:psr::)?CallGraph"
                              r"AnalysisType::OTF\)")
                    ctx.ob("helper", pre or otf is False or
                           ", null, " not in r, where(fn), "the on-the-fly "
                           "call graph is built without alias information",
                           m)
            ctx.ob("helper", made >= 1 and kept >= 1, where(fn), "%s does "
                   "not compute its result once" % m, m)
