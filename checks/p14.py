"""P14: the typestate analysis and its API protocols."""
import re
from flow import t2s, last
from spec import *
from fold import Fold, It
from facts import CheckError
import ff as FF
from p20 import iff, over, calls, writes, feasible
from p12 import live, whole
from p16 import tri, isS, one

LIB = "lib/PhasarLLVM/DataFlow/IfdsIde/Problems/"
D = LIB + "TypeStateDescriptions/"
ANA = LIB + "IDETypeStateAnalysis.cpp"
B = "psr::detail::IDETypeStateAnalysisBase::"
ST = ["hasMatchingType", "getRelevantAllocas", "getLocalAliasesAndAllocas",
      "getWMAliasesAndAllocas", "getWMAliasSet", "isAPIFunction",
      "isFactoryFunction"]

# position of the FILE * among the parameters (ISO C, POSIX, glibc)
FILEARG = dict(
    fclose=0, fread=3, fwrite=3, fgetc=0, fgetwc=0, fgets=2, fgetws=2,
    getc=0, getwc=0, _IO_getc=0, ungetc=1, ungetwc=1, fputc=1, fputwc=1,
    fputs=1, fputws=1, putc=1, putwc=1, _IO_putc=1, fprintf=0, fwprintf=0,
    vfprintf=0, vfwprintf=0, __isoc99_fscanf=0, fscanf=0, fwscanf=0,
    vfscanf=0, vfwscanf=0, fflush=0, fseek=0, ftell=0, rewind=0, fgetpos=0,
    fsetpos=0, fileno=0)


def row(default, **kw):
    return lambda s: kw.get(s, s if default == "=" else default)


FILEOPS = {n: row("ERROR", OPENED="OPENED", BOT="BOT") for n in FILEARG}
FILEOPS["fclose"] = row("ERROR", OPENED="CLOSED", BOT="BOT")
FILEOPS["fopen"] = FILEOPS["fdopen"] = row("OPENED", ERROR="ERROR")

SPECS = [
    dict(cls="CSTDFILEIOTypeStateDescription", en="CSTDFILEIOState",
         ops=FILEOPS, arg=FILEARG, make=["fopen", "fdopen"],
         type="struct._IO_FILE", uninit="UNINIT", start="OPENED",
         kind="IDECSTDIOTypeStateAnalysis", must=[
             "fopen", "fdopen", "fclose", "fread", "fwrite", "fgetc",
             "fgets", "fputc", "fputs", "ungetc", "fprintf", "fscanf",
             "vfprintf", "fflush", "fseek", "ftell", "rewind", "fgetpos",
             "fsetpos", "fileno", "fgetwc", "getc", "getwc", "_IO_getc",
             "ungetwc", "fputwc", "putc", "putwc", "_IO_putc", "fwprintf",
             "vfwprintf", "__isoc99_fscanf", "fwscanf", "vfscanf",
             "vfwscanf"]),
    dict(cls="OpenSSLEVPKDFCTXDescription", en="OpenSSLEVPKDFCTXState",
         ops=dict(
             EVP_KDF_CTX_new=row("CTX_ATTACHED", ERROR="ERROR"),
             EVP_KDF_CTX_set_params=row(
                 "ERROR", CTX_ATTACHED="PARAM_INIT", PARAM_INIT="PARAM_INIT",
                 DERIVED="PARAM_INIT"),
             EVP_KDF_derive=row("ERROR", PARAM_INIT="DERIVED",
                                DERIVED="DERIVED"),
             EVP_KDF_CTX_free=row("ERROR", CTX_ATTACHED="UNINIT",
                                  PARAM_INIT="UNINIT", DERIVED="UNINIT")),
         arg=dict(EVP_KDF_CTX_set_params=0, EVP_KDF_derive=0,
                  EVP_KDF_CTX_free=0), make=["EVP_KDF_CTX_new"],
         type="struct.evp_kdf_ctx_st", uninit="UNINIT", start="CTX_ATTACHED",
         kind="IDEOpenSSLTypeStateAnalysis",
         # a context is only usable if it was made from a fetched KDF
         needs=(["EVP_KDF_CTX_new"], re.compile(
             r"\((.*this\.KDFAnalysisResults.*\$2, \$2\.getArgOperand\(0\).*)"
             r" == (?:\w+::)*KDF_FETCHED\)|\((?:\w+::)*KDF_FETCHED == (.*this"
             r"\.KDFAnalysisResults.*\$2, \$2\.getArgOperand\(0\).*)\)"))),
    dict(cls="OpenSSLEVPKDFDescription", en="OpenSSLEVPKDFState",
         ops=dict(EVP_KDF_fetch=row("ERROR", UNINIT="KDF_FETCHED",
                                    BOT="KDF_FETCHED"),
                  EVP_KDF_free=row("ERROR", KDF_FETCHED="UNINIT",
                                   BOT="BOT")),
         arg=dict(EVP_KDF_free=0), make=["EVP_KDF_fetch"],
         type="struct.evp_kdf_st", uninit="UNINIT", start="KDF_FETCHED",
         kind="IDEOpenSSLTypeStateAnalysis"),
    dict(cls="OpenSSLSecureHeapDescription", en="OpenSSLSecureHeapState",
         ops=dict(CRYPTO_secure_malloc=row("ALLOCATED"),
                  CRYPTO_secure_zalloc=row("ZEROED"),
                  CRYPTO_secure_free=row("ERROR", ZEROED="FREED"),
                  CRYPTO_secure_clear_free=row("ERROR", ZEROED="FREED",
                                               ALLOCATED="FREED")),
         arg=dict(CRYPTO_secure_free=0, CRYPTO_secure_clear_free=0),
         make=["CRYPTO_secure_malloc", "CRYPTO_secure_zalloc"], type="i8",
         uninit="UNINIT", start=None, kind="IDEOpenSSLTypeStateAnalysis",
         other="ERROR",
         needs=(["CRYPTO_secure_malloc", "CRYPTO_secure_zalloc",
                 "CRYPTO_secure_free", "CRYPTO_secure_clear_free"],
                re.compile(
             r"\((.*this\.SecureHeapPropagationResults.*\$2, (?:\w+::)*"
             r"INITIALIZED\b.*) == (?:\w+::)*INITIALIZED\)|\((?:\w+::)*"
             r"INITIALIZED == (.*this\.SecureHeapPropagationResults.*\$2, "
             r"(?:\w+::)*INITIALIZED\b.*)\)"))),
    dict(cls="OpenSSLSecureMemoryDescription", en="OpenSSLSecureMemoryState",
         ops=dict(CRYPTO_malloc=row("ALLOCATED", ERROR="ERROR"),
                  CRYPTO_zalloc=row("ZEROED", ERROR="ERROR")),
         arg=dict(CRYPTO_free=0, OPENSSL_cleanse=0),
         make=["CRYPTO_malloc", "CRYPTO_zalloc"], type="i8", uninit="BOT",
         start="ALLOCATED", kind="IDEOpenSSLTypeStateAnalysis"),
]

SPECS[4]["ops"]["CRYPTO_free"] = row("ERROR", ZEROED="FREED")
SPECS[4]["ops"]["OPENSSL_cleanse"] = row("ERROR", BOT="BOT", ZEROED="ZEROED",
                                         ALLOCATED="ZEROED")


def run(ctx):
    for s in SPECS:
        description(ctx, s)
    F = ctx.facts(ANA)
    normal(ctx, F)
    call(ctx, F)
    ret(ctx, F)
    ctr(ctx, F)
    aliases(ctx, F)
    kinds(ctx, F)
    G = ctx.facts("typestate.cpp")
    edges(ctx, G)
    lattice(ctx, G)
    report(ctx, G)
    heap(ctx)
    for r, n in (("automaton", 180), ("interface", 100), ("normal", 10),
                 ("call", 2), ("ret", 6), ("ctr", 6), ("edge", 15),
                 ("aliases", 8), ("type", 10), ("report", 5), ("heap", 8),
                 ("lattice", 60), ("names", 25)):
        ctx.atleast(r, n)


# ---------------------------------------------------------------- automata
def description(ctx, s):
    C = "psr::%s::" % s["cls"]
    F = ctx.facts(D + s["cls"] + ".cpp")
    fo = Fold(ctx, F)
    en = F.enums.get("psr::" + s["en"])
    if en is None:
        raise CheckError("anchor vanished: enum " + s["en"])
    st = {n: v for n, v in en["consts"]}
    by = {v: n for n, v in en["consts"]}
    ctx.ob("automaton", len(by) == len(st), s["en"], "two states have the "
           "same value", s["en"])

    def fns(n, k=None):
        r = [f for f in F.find(C + n) if k is None or len(f.ps) == k]
        if not r:
            raise CheckError("anchor vanished: %s%s" % (C, n))
        return r

    # the transition function
    foreign = ["main", "foo", "x" + s["make"][0], s["make"][0] + "_x", ""]
    need = s.get("needs")
    n3 = any(len(f.ps) == 3 for f in F.find(C + "getNextState"))
    ctx.ob("automaton", n3 or not need, C + "getNextState", "the call site "
           "is ignored", C)
    for fn in fns("getNextState"):
        k = len(fn.ps)
        for op in list(s["ops"]) + foreign:
            if op in s["ops"] and s.get("must") and op not in s["must"] and \
                    not api(fo, fns("isAPIFunction")[0], op):
                continue
            for b in st:
                if b == "TOP":
                    continue
                if op in s["ops"]:
                    want = s["ops"][op](b)
                else:
                    want = s["other"] if k == 3 and "other" in s else "BOT"
                rs = fo.call(fn, [op, int(st[b]), None])
                bad = None
                seen = set()
                for asm, v, ex in rs:
                    w = want
                    if k == 3 and need and op in need[0]:
                        oks = [(need[1].fullmatch(t2s(x)), y)
                               for x, y in asm]
                        if not oks:
                            bad = "without looking at the other analysis"
                            continue
                        if len(oks) != 1 or not oks[0][0]:
                            bad = "under %s" % [t2s(x) for x, y in asm]
                            continue
                        seen.add(oks[0][1])
                        w = want if oks[0][1] else "ERROR"
                    elif asm:
                        bad = "only if %s" % [t2s(x)[:200] for x, y in asm]
                        continue
                    if ex in ("noreturn", "throw") or isinstance(
                            v, Exception):
                        bad = "undefined: %s" % str(v)[:150]
                    elif isinstance(v, bool) or by.get(int(v)) != w:
                        bad = "%s" % by.get(int(v), v)
                        if k == 3 and need and op in need[0]:
                            bad += " when the other analysis %s" % (
                                "agrees" if oks[0][1] else "disagrees")
                if not rs:
                    bad = "nothing"
                if k == 3 and need and op in need[0] and seen != {
                        True, False} and not bad:
                    bad = "without looking at the other analysis"
                ctx.ob("automaton", bad is None, where(fn), "%s in state %s "
                       "leads to %s, expected %s" % (op or "''", b, bad,
                                                     want), fn.qn)
    # the interface
    inv = set(s.get("must", s["ops"]))
    for op in list(s["ops"]) + foreign:
        isapi = op in inv
        if op in s["ops"] and not isapi and not api(
                fo, fns("isAPIFunction")[0], op):
            continue
        isapi = op in s["ops"]
        exp = dict(isAPIFunction=isapi, isFactoryFunction=op in s["make"],
                   isConsumingFunction=op in s["arg"],
                   getConsumerParamIdx=frozenset(
                       [s["arg"][op]] if op in s["arg"] else []),
                   getFactoryParamIdx=frozenset(
                       [-1] if op in s["make"] else []))
        for m, w in exp.items():
            for fn in fns(m):
                v, why = fo.one(fn, [op])
                if isinstance(w, frozenset) and isinstance(v, (list, set)):
                    v = frozenset(v)
                ctx.ob("interface", why is None and v == w, where(fn),
                       "%s(%s) is %s, expected %s" % (
                           m, op or "''", why or v, set(w) if isinstance(
                               w, frozenset) else w), fn.qn)
    # other names the tables know are classified consistently
    exp = dict(top="TOP", bottom="BOT", error="ERROR", uninit=s["uninit"],
               start=s["start"])
    for m, w in exp.items():
        for fn in fns(m):
            if w is None:
                continue
            v, why = fo.one(fn, [])
            ctx.ob("interface", why is None and v == st[w], where(fn),
                   "%s() is %s, expected %s" % (m, why or by.get(v, v), w),
                   fn.qn)
    for fn in fns("getTypeNameOfInterest"):
        v, why = fo.one(fn, [])
        ctx.ob("interface", v == s["type"], where(fn), "the type of interest"
               " is %s" % (why or v), fn.qn)
    for fn in fns("analysisType"):
        v, why = fo.one(fn, [])
        ctx.ob("interface", getattr(v, "name", None) == s["kind"], where(fn),
               "the analysis type is %r" % (why or v), fn.qn)
    # state names
    n = 0
    for fn in F.find("psr::to_string"):
        if s["en"] not in fn.ps[0][2]:
            continue
        for b, v in st.items():
            g, why = fo.one(fn, [int(v)])
            n += 1
            ctx.ob("names", g == b, where(fn), "state %s is called %s" % (
                b, why or g), fn.qn)
    ctx.ob("names", n >= len(st), s["cls"], "the states have no names",
           s["cls"])


def api(fo, fn, op):
    v, why = fo.one(fn, [op])
    return bool(v)


# ------------------------------------------------------------ flow functions
def kindof(L):
    ks = {m.group(1) for l in L for m in [re.fullmatch(
        r"isa<(\w+Inst)>\(\$0\)", l)] if m}
    return ks


def I(k):
    return r"(?:as<%s>\(\$0\)|\$0)" % k


def normal(ctx, F):
    fn = one(F, B + "getNormalFlowFunction")
    seen = {}
    for p, outs in FF.denote(ctx, F, fn, stop=ST):
        L = lits(p.pc)
        ks = kindof(L)
        if len(ks) > 1:
            continue
        k = next(iter(ks), None)
        if k not in ("AllocaInst", "LoadInst", "StoreInst"):
            k = None
        m = tri(L, r"this\.hasMatchingType\(%s\)" % I(k)) if k else False
        if k and m is None:
            ctx.ob("normal", False, where(fn), "%ss are handled whatever "
                   "their type" % k, fn.qn)
            continue
        for o in outs:
            g = set(o.plain())
            if not m:
                ctx.ob("normal", g == {"@S"}, where(fn), "a fact is mapped "
                       "to %s at an irrelevant instruction" % sorted(g),
                       fn.qn)
                seen.setdefault(None, set()).add("else")
                continue
            me = {"$0", "as<%s>($0)" % k}

            def eq(x):
                return tri(o.lits, r"\((?:@S == {0}|{0} == @S)\)".format(x))
            if k == "AllocaInst":
                z = eq(r"LLVMZeroValue::getInstance\(\)")
                if z is None:
                    z = tri(o.lits, r"LLVMZeroValue::isLLVMZeroValue\(@S\)")
                ok = g - me == {"@S"} and bool(g & me) == z
                r = "zero" if z else "else"
            elif k == "LoadInst":
                f = eq(I(k) + r"\.getPointerOperand\(\)")
                t = eq(I(k))
                ok = f is not None and (
                    g - me == {"@S"} and g & me if f else
                    (not g if t else g == {"@S"}) and t is not None)
                r = "from" if f else "to" if t else "else"
            else:
                d = eq(I(k) + r"\.getPointerOperand\(\)")
                v = eq(I(k) + r"\.getValueOperand\(\)")
                if d:
                    ok, r = not g, "ptr"
                elif v:
                    al = [x for x in g if re.match(
                        r"\*this\.getLocalAliasesAndAllocas\(%s"
                        r"\.getPointerOperand\(\)" % I(k), x)]
                    vo = {"@S"} | {x + ".getValueOperand()" for x in me}
                    ok, r = len(al) == 1 and bool(g & vo) and \
                        g <= vo | set(al), "val"
                else:
                    ok, r = g == {"@S"} and d is False and v is False, "else"
            seen.setdefault(k, set()).add(r)
            ctx.ob("normal", bool(ok), where(fn), "%s: a fact is mapped to "
                   "%s when %s" % (k, sorted(g), sorted(
                       x for x in o.lits if "@S" in x)), fn.qn)
    for k, w in (("AllocaInst", {"zero", "else"}),
                 ("LoadInst", {"from", "to", "else"}),
                 ("StoreInst", {"ptr", "val", "else"}), (None, {"else"})):
        ctx.ob("normal", w <= seen.get(k, set()), where(fn), "%s: only %s "
               "are told apart" % (k, sorted(seen.get(k, []))), fn.qn)


NAME = r"demangle\(%s\.getName\(\)(?:\.str\(\))?\)"


def call(ctx, F):
    fn = one(F, B + "getCallFlowFunction")
    for p, outs in FF.denote(ctx, F, fn, stop=ST):
        L = lits(p.pc)
        a = tri(L, r"this\.isAPIFunction\(%s\)" % NAME % r"\$1")
        r = t2s(p.ret)
        if a:
            ctx.ob("call", all(not o.res for o in outs) and bool(outs),
                   where(fn), "facts enter API functions: %s" % r, fn.qn)
        else:
            ctx.ob("call", a is False and re.fullmatch(
                r"mapFactsToCallee(?:<.*>)?\(%s, \$1(?:, (?:\{?[\w:<>]*"
                r"(?:binary_function|equal_to)\S*|DefaultConstruct\S*|true)"
                r")*\)" % I("CallBase"), r) is not None, where(fn), "facts "
                "are mapped into the callee by %s" % r, fn.qn)


def ret(ctx, F):
    from p17 import prepare, flat, pairing
    fn = one(F, B + "getRetFlowFunction")
    CS, FUN = r"(?:as<CallBase>\(\$0\)|\$0)", r"\$1"
    n = 0
    for o in prepare(flat(FF.denote(ctx, F, fn, stop=ST))):
        z = tri(o.lits, r"\((?:LLVMZeroValue::getInstance\(\) == @S|@S == "
                r"LLVMZeroValue::getInstance\(\))\)|LLVMZeroValue::"
                r"isLLVMZeroValue\(@S\)")
        n += 1
        for ev in o.p.ev:
            if ev.kind != "loop":
                continue
            for h, v in ev.loop.entry.items():
                ctx.ob("ret", v is None or v[0] != "loc", where(fn), "%s has "
                       "no value when the search starts" % t2s(v), fn.qn)
        if z:
            ctx.ob("ret", set(o.plain()) == {"@S"}, where(fn), "the zero "
                   "fact is mapped to %s" % sorted(o.plain()), fn.qn)
            continue
        ctx.ob("ret", z is False, where(fn), "the zero fact is not told "
               "apart", fn.qn)
        isret = tri(o.lits, r"isa<ReturnInst>\(\$2\)")
        rv = tri(o.lits, r"\(as<ReturnInst>\(\$2\)\.getReturnValue\(\) == "
                 r"@S\)|\(@S == as<ReturnInst>\(\$2\)\.getReturnValue\(\)\)")
        va = tri(o.lits, r"\$1\.isVarArg\(\)")
        got = dict(par=0, cs=0, rel=0)
        for e in o.res:
            t = e.t
            if re.fullmatch(CS, t) and not e.loops:
                got["cs"] += 1
                continue
            if "getRelevantAllocas(" in t:
                if len(e.ls) == 1 and re.search(
                        r"getRelevantAllocas\(\*?elem\((~\w+)\)\)", t) and \
                        not e.guard and e.whole:
                    got["rel"] += 1
                    continue
                if t.startswith(("?~", "getRel")):
                    continue
            if t.startswith("?~") and "getRelevantAllocas" in t:
                continue
            m = re.match(r"&?\*?elem\((zip(?:_\w+)?\((?:\$1\.args\(\), %s"
                         r"\.args\(\)|%s\.args\(\), \$1\.args\(\))\))\)"
                         r"\.get(\d)" % (CS, CS), t)
            if m and len(e.ls) == 1:
                first = m.group(1).split("(", 1)[1].startswith("$1")
                fi, ai = ("0", "1") if first else ("1", "0")
                gs = [g for g in e.guard]
                q = re.escape("&elem(%s).get%s" % (m.group(1), fi))
                ok = m.group(2) == ai and len(gs) == 1 and re.fullmatch(
                    r"\((?:%s == @S|@S == %s)\)" % (q, q), gs[0])
                ok = ok and all(x.exit in (None, "next", "continue",
                                           "noreturn")
                                for x in e.ls[0].paths)
                got["par"] += 1
                ctx.ob("ret", bool(ok), where(fn), "%s is mapped back when "
                       "%s" % (t[:150], gs), fn.qn)
                continue
            g = [re.fullmatch(r"\((?:(.*) == @S|@S == (.*))\)", x)
                 for x in e.guard]
            g = [x.group(1) or x.group(2) for x in g if x]
            if va and len(e.ls) == 1 and "getArgOperand(" in t and \
                    not g and any("arg_size()" in x for x in e.guard):
                ini = [FF.resub(t2s(x), o.sub) for x in
                       e.ls[0].entry.values() if x is not None]
                ctx.ob("ret", "$1.arg_size()" in ini, where(fn), "the "
                       "variadic arguments start at %s" % ini, fn.qn)
                continue
            if len(e.ls) == 1 and len(g) == 1:
                cs = "as<CallBase>($0)" if "as<CallBase>($0)" in t else "$0"
                k = pairing(ctx, "ret", fn, o, e, g[0], t, cs, "$1")
                got["par"] += 1
                ctx.ob("ret", k == 0, where(fn), "parameters from %s on are "
                       "mapped back" % k, fn.qn)
                continue
            ctx.ob("ret", False, where(fn), "unexpected fact %s" %
                   str(e)[:200], fn.qn)
        want = isret is True and rv is True
        ctx.ob("ret", got["cs"] == (1 if want else 0) and (
            want or isret is False or rv is False), where(fn), "the call "
            "holds the returned object %s when %s" % (
                "wrongly" if got["cs"] else "not", sorted(o.lits)[:4]),
            fn.qn)
        ctx.ob("ret", got["par"] == 1, where(fn), "parameters are mapped "
               "back %d times" % got["par"], fn.qn)
        ctx.ob("ret", got["rel"] >= 1, where(fn), "the allocas of the "
               "returned objects do not follow", fn.qn)
    ctx.ob("ret", n >= 3, where(fn), "return flows are not told apart",
           fn.qn)


def ctr(ctx, F):
    fn = one(F, B + "getCallToRetFlowFunction")
    den = FF.denote(ctx, F, fn, stop=ST)
    C = r"elem\(\$2\)"
    seen = set()
    for p, outs in den:
        L = lits(p.pc)
        for o in outs:
            LO = set(o.lits) | set(L)
            g = set(o.plain())
            fac = tri(LO, r"this\.isFactoryFunction\((?:%s|~\w+)\)" %
                      (NAME % C))
            a = tri(LO, r"this\.isAPIFunction\((?:%s|~\w+)\)" % (NAME % C))
            dcl = tri(LO, C + r"\.isDeclaration\(\)")
            mt = tri(LO, r"this\.hasMatchingType\(elem\(as<CallBase>\(\$0\)"
                     r"\.args\(\)\).*")
            if fac:
                z = tri(LO, r"\((?:LLVMZeroValue::getInstance\(\) == @S|@S "
                        r"== LLVMZeroValue::getInstance\(\))\)|"
                        r"LLVMZeroValue::isLLVMZeroValue\(@S\)")
                me = {"$0", "as<CallBase>($0)"}
                seen.add("make")
                ctx.ob("ctr", g - me == {"@S"} and bool(g & me) == z,
                       where(fn), "a factory maps the %s fact to %s" % (
                           "zero" if z else "other", sorted(g)), fn.qn)
                continue
            if mt:
                inn = [l for l in LO if re.match(
                    r"!?(?:this\.getWMAliasesAndAllocas\(.*\)\.(?:count|"
                    r"contains)\(@S\)|this\.getWMAliasesAndAllocas\(.*\) has"
                    r" @S)", l)]
                seen.add("pass")
                ctx.ob("ctr", a is False and dcl is False and len(inn) == 1
                       and g == (set() if not inn[0].startswith("!") else
                                 {"@S"}), where(fn), "a fact %s bypasses "
                       "the callee when %s" % (
                           "also" if g else "wrongly not", sorted(LO)[:6]),
                       fn.qn)
                continue
            k = tri(LO, r"isa<Constant>\(@S\)")
            var = [l for l in L if re.fullmatch(r"!?\?\w+", l)] or [
                l for l in L if "anyof($2" in l]
            if k is not None:
                seen.add("const")
                ctx.ob("ctr", len(var) == 1 and var[0].startswith("!") and
                       g == (set() if k else {"@S"}), where(fn), "a %s fact"
                       " is mapped to %s" % ("constant" if k else "local",
                                             sorted(g)), fn.qn)
            else:
                seen.add("rest")
                ctx.ob("ctr", g == {"@S"} and bool(var) and
                       not var[0].startswith("!"), where(fn), "facts are "
                       "mapped to %s next to the call" % sorted(g), fn.qn)
        # what the flag means
        for e in p.ev:
            if e.kind != "loop" or t2s(e.loop.container) != "$2":
                continue
            l = e.loop
            for kind, vals, pc in l.carry:
                if kind != "next":
                    continue
                for v, nx in vals.items():
                    if "?" not in t2s(v):
                        continue
                    n = t2s(v)
                    ok = t2s(nx) in (
                        "(%s || elem($2).isDeclaration())" % n,
                        "(%s | elem($2).isDeclaration())" % n,
                        "(elem($2).isDeclaration() | %s)" % n,
                        "(elem($2).isDeclaration() || %s)" % n, "true", n)
                    cl = lits(pc)
                    if t2s(nx) == "true":
                        ok = any("isDeclaration" in x and not
                                 x.startswith("!") for x in cl) or n in cl
                    if t2s(nx) == n:
                        ok = any(x == "!elem($2).isDeclaration()" for x in
                                 cl) or n in cl
                    ctx.ob("ctr", ok, where(fn), "the flag becomes %s when "
                           "%s" % (t2s(nx)[:120], sorted(cl)[:4]), fn.qn)
            for q in l.paths:
                cl = lits(q.pc)
                if q.exit in ("break",):
                    ctx.ob("ctr", False, where(fn), "not every callee is "
                           "looked at", fn.qn)
                # a callee with a body that gets a matching argument decides
                inner = [x for x in q.ev if x.kind == "loop"]
                body = tri(cl, C + r"\.isDeclaration\(\)") is False and any(
                    re.match(r"!this\.isAPIFunction", x) for x in cl)
                if body and q.exit in (None, "next", "continue"):
                    ctx.ob("ctr", len(inner) == 1 and t2s(
                        inner[0].loop.container).endswith(".args()"),
                        where(fn), "the arguments passed to the callee are "
                        "not looked at", fn.qn)
    ctx.ob("ctr", seen == {"make", "pass", "const", "rest"}, where(fn),
           "only %s are told apart" % sorted(seen), fn.qn)


# ------------------------------------------------------------------- aliases
def aliases(ctx, F):
    # loads of the type through an alias and stores of an alias lead to the
    # memory that holds it
    fn = one(F, B + "getRelevantAllocas")
    AS = r"this\.getWMAliasSet\(\$0\)"
    EL = r"elem\(%s\)" % AS
    ps = live(ctx.summary(F, fn, stop=ST, keep_mem=True))
    for p in ps:
        L = lits(p.pc)
        hit = tri(L, r"this\.RelevantAllocaCache has \$0|this\."
                  r"RelevantAllocaCache\.(?:count|contains)\(\$0\)")
        r = t2s(p.ret)
        if hit:
            ctx.ob("aliases", r == "this.RelevantAllocaCache[$0]", where(fn),
                   "the cached answer is %s" % r, fn.qn)
            continue
        ins = [it for it in items([p]) if it.ev.kind == "call" and
               last(it.ev.name) in ("insert", "emplace") and
               t2s(it.ev.obj) == r]
        kinds_ = set()
        for it in ins:
            a = t2s(it.ev.args[0])
            LL = lits(it.pc)
            ctx.ob("aliases", all(x.startswith("isa<") or
                                  "hasMatchingType" in x or
                                  x.startswith("!isa<LoadInst>") or
                                  x.startswith("!this.RelevantAllocaCache")
                                  for x in LL), where(fn), "memory is found "
                   "only when %s" % sorted(LL), fn.qn)
            m = re.fullmatch(r"as<(\w+)>\((.*)\)\.getPointerOperand\(\)", a)
            c = [t2s(l.container) for l in it.loops]
            if m and m.group(1) == "LoadInst":
                kinds_.add("load")
                ok = re.fullmatch(EL, m.group(2)) and len(c) == 1
            elif m and m.group(1) == "StoreInst":
                kinds_.add("store")
                ok = re.fullmatch(r"elem\(%s\.users\(\)\)" % EL, m.group(2)) \
                    and len(c) == 2
            else:
                ok = False
            mt = tri(LL, r"this\.hasMatchingType\((?:as<\w+>\()?%s\)?\)" %
                     re.escape(m.group(2))) if m else None
            ctx.ob("aliases", bool(ok) and mt is True, where(fn), "%s is "
                   "taken as memory of the object (loops %s, conditions %s)"
                   % (a, c, sorted(LL)), fn.qn)
            for l in it.loops:
                ctx.ob("aliases", whole(l), where(fn), "not every alias or "
                       "user is visited", fn.qn)
        ctx.ob("aliases", kinds_ == {"load", "store"}, where(fn), "memory is"
               " found only via %s" % sorted(kinds_), fn.qn)
        patched(ctx, fn, p, "RelevantAllocaCache")
        for it in writes([p], r"this\.RelevantAllocaCache\[.*\]"):
            ctx.ob("aliases", t2s(it.ev.args[0]) == r, where(fn), "%s is "
                   "cached" % t2s(it.ev.args[0]), fn.qn)
            k = t2s(it.ev.obj)
            ctx.ob("aliases", re.fullmatch(r"this\.RelevantAllocaCache\[(?:"
                                           r"\$0|%s)\]" % EL, k) is not None,
                   where(fn), "the answer is cached for %s" % k, fn.qn)
    fn = one(F, B + "getWMAliasSet")
    PTS = r"this\.PT\.getAliasSet\(\$0(?:, null)?\)"
    for p in live(ctx.summary(F, fn, stop=ST, keep_mem=True)):
        L = lits(p.pc)
        hit = tri(L, r"this\.AliasCache has \$0|this\.AliasCache\.(?:count|"
                  r"contains)\(\$0\)")
        src = "this.AliasCache[$0]" if hit else None
        ini = [e for e in p.ev if e.kind == "init" and t2s(e.obj) == t2s(
            p.ret)] or [e for e in p.ev if e.kind == "init"]
        txt = " ".join(t2s(x) for e in ini for x in e.args) + t2s(p.ret)
        ok = (src in txt) if hit else re.search(
            r"begin\(\*?%s\), end\(\*?%s\)" % (PTS, PTS), txt)
        ctx.ob("aliases", bool(ok), where(fn), "the alias set is made from "
               "%s" % txt[:150], fn.qn)
        patched(ctx, fn, p, "AliasCache")
        for it in writes([p], r"this\.AliasCache\[.*\]"):
            ctx.ob("aliases", re.fullmatch(r"\*?%s" % PTS, t2s(
                it.ev.args[0])) is not None and re.fullmatch(
                    r"this\.AliasCache\[(?:\$0|elem\(\*?%s\))\]" % PTS,
                    t2s(it.ev.obj)) is not None, where(fn), "%s := %s is "
                "cached" % (t2s(it.ev.obj), t2s(it.ev.args[0])), fn.qn)
    for n, need in (("getWMAliasesAndAllocas", {
            r"this\.getWMAliasSet\(\$0\)",
            r"this\.getRelevantAllocas\(\$0\)"}),
                    ("getLocalAliasesAndAllocas", {
                        r"this\.getRelevantAllocas\(\$0\)"})):
        fn = one(F, B + n)
        e = FF.Engine(F, stop=ST, keep_mem=2)
        for p in live(e.run(fn)):
            o = FF.result(p, p.ret)
            w = {x.t for x in o.res if x.whole}
            for r in need:
                ctx.ob("aliases", any(re.search(r, x) for x in w) or any(
                    re.search(r, str(x)) for x in o.res), where(fn),
                    "%s lacks %s" % (n, r.replace("\\", "")), fn.qn)


def patched(ctx, fn, p, cache):
    """the cached answers are only read or stored as a whole"""
    for it in items([p]):
        if it.ev.kind == "call" and it.ev.obj is not None and t2s(
                it.ev.obj).startswith("this.%s[" % cache) and not it.ev.pure:
            ctx.ob("aliases", last(it.ev.name) in ("begin", "end", "cbegin",
                   "cend", "operator="), where(fn), "a cached answer is "
                   "changed by %s" % it.ev.s()[:120], fn.qn)


def kinds(ctx, F):
    """which values are of the type of interest"""
    fn = one(F, B + "hasMatchingType")
    V = {"AllocaInst": r"as<AllocaInst>\(\$0\)\.getAllocatedType\(\)",
         "LoadInst": r"(?:as<LoadInst>\(\$0\)|\$0)\.getType\(\)",
         "StoreInst": r"as<StoreInst>\(\$0\)\.getValueOperand\(\)\.getType"
                      r"\(\)"}
    T = r"\$0\.getType\(\)"
    seen = set()
    for p in live(ctx.summary(F, fn, stop=["hasMatchingTypeName"])):
        L = {x.replace("as<LoadInst>($0)", "$0") for x in lits(p.pc)}
        ks = kindof(L)
        if len(ks) > 1 or any("!" + x in L for x in L):
            continue
        k = next(iter(ks), None)
        r = t2s(p.ret).replace("as<LoadInst>($0)", "$0")
        pt, op = tri(L, T + r"\.isPointerTy\(\)"), tri(
            L, T + r"\.isOpaquePointerTy\(\)")
        nm = tri(L, r"this\.hasMatchingTypeName\(%s\."
                 r"getNonOpaquePointerElementType\(\)\)" % T)
        if pt and op is False and nm:
            want = True
        elif k in V:
            X = V[k]
            a = tri(L, X + r"\.isPointerTy\(\)")
            b = tri(L, X + r"\.isOpaquePointerTy\(\)")
            c = tri(L, r"this\.hasMatchingTypeName\(%s\."
                    r"getNonOpaquePointerElementType\(\)\)" % X)
            if a is False:
                want = False
            elif a and b:
                want = True
            elif a and b is False and c is not None:
                want = c
            elif a and b is False and r.startswith(
                    "this.hasMatchingTypeName("):
                want = None
                ctx.ob("type", re.fullmatch(
                    r"this\.hasMatchingTypeName\(%s\."
                    r"getNonOpaquePointerElementType\(\)\)" % X, r)
                    is not None, where(fn), "%s is compared" % r, fn.qn)
            else:
                # a compound result
                want = None
                ctx.ob("type", False, where(fn), "%s: %s when %s" % (
                    k, r, sorted(L)), fn.qn)
            seen.add(k)
        else:
            want = False
        if want is not None:
            ctx.ob("type", r == ("true" if want else "false"), where(fn),
                   "%s is%s of the type of interest when %s" % (
                       k or "a value", "" if r == "true" else " not",
                       sorted(L)), fn.qn)
    ctx.ob("type", seen == set(V), where(fn), "only %s are told apart" %
           sorted(seen), fn.qn)
    fn = one(F, B + "hasMatchingTypeName")
    for p in live(ctx.summary(F, fn, stop=["isTypeNameOfInterest"],
                              keep_mem=True)):
        L = lits(p.pc)
        s = tri(L, r"isa<StructType>\(\$0\)")
        r = t2s(p.ret)
        ctx.ob("type", s is not None and re.fullmatch(
            r"this\.isTypeNameOfInterest\(%s\)" % (
                r"as<StructType>\(\$0\)\.getName\(\)" if s else r"~?\w+|.*"),
            r) is not None, where(fn), "the name compared is %s" % r, fn.qn)


# --------------------------------------------------------------------- edges
def edges(ctx, F):
    A = "psr::IDETypeStateAnalysis::"
    stop = ST + ["isConsumingFunction", "getConsumerParamIdx",
                 "getNextState", "top", "bottom", "uninit", "error",
                 "analysisType", "isZeroValue"]
    ID = r"EdgeFunction\{EdgeIdentity\{\}\}"
    Z = r"\(LLVMZeroValue::getInstance\(\) == \$1\)|this\.isZeroValue" \
        r"\(\$1\)|LLVMZeroValue::isLLVMZeroValue\(\$1\)"
    for fn in F.find(A + "getNormalEdgeFunction"):
        for p in live(ctx.summary(F, fn, stop=stop)):
            L = lits(p.pc)
            c = [tri(L, r"isa<AllocaInst>\(\$0\)"),
                 tri(L, r"this\.hasMatchingType\(%s\)" % I("AllocaInst")),
                 tri(L, Z), tri(L, r"\(%s == \$3\)|\(\$3 == %s\)" % (
                     I("AllocaInst"), I("AllocaInst")))]
            r = t2s(p.ret)
            if all(c):
                ok = re.fullmatch(r"EdgeFunction\{TSConstant\{this\.TSD\."
                                  r"uninit\(\)(?:, this\.TSD)?\}\}", r)
            else:
                ok = re.fullmatch(ID, r) and False in c
            ctx.ob("edge", bool(ok), where(fn), "%s is put on the edge when "
                   "%s" % (r, sorted(L)), fn.qn)
    for m in ("getCallEdgeFunction", "getReturnEdgeFunction"):
        for fn in F.find(A + m):
            for p in live(ctx.summary(F, fn, stop=stop)):
                ctx.ob("edge", re.fullmatch(ID, t2s(p.ret)) is not None,
                       where(fn), "%s is put on the edge" % t2s(p.ret),
                       fn.qn)
    C = r"elem\(\$4\)"
    N = NAME % C
    CS = I("CallBase")
    for fn in F.find(A + "getCallToRetEdgeFunction"):
        ps = live(ctx.summary(F, fn, stop=stop))
        seen = set()
        for p in ps:
            rets(ctx, fn, p.ev, seen, p, ID, Z, C, N, CS)
        ctx.ob("edge", seen == {"make", "use", "id"}, where(fn), "only %s "
               "are told apart" % sorted(seen), fn.qn)


def rets(ctx, fn, ev, seen, p, ID, Z, C, N, CS):
    L = lits(p.pc)
    r = t2s(p.ret)
    if re.fullmatch(ID, r):
        seen.add("id")
        ctx.ob("edge", not any(re.search(r"elem\(", x) for x in L),
               where(fn), "callees are skipped when %s" % sorted(L)[:5],
               fn.qn)
        # nothing that should act is passed over
        for e in p.ev:
            if e.kind == "loop":
                skip(ctx, fn, e.loop, Z, N, CS)
        return
    fac = tri(L, r"this\.(?:TSD\.)?isFactoryFunction\(%s\)" % N)
    z = tri(L, Z)
    me = tri(L, r"\(%s == \$3\)|\(\$3 == %s\)" % (CS, CS))
    con = tri(L, r"this\.TSD\.isConsumingFunction\(%s\)" % N)
    same = tri(L, r"\(\$1 == \$3\)|\(\$3 == \$1\)")
    al = r"this\.getWMAliasesAndAllocas\(%s\.getArgOperand\(elem\(this\." \
         r"TSD\.getConsumerParamIdx\(%s\)\)\)\)" % (CS, N)
    inn = tri(L, al + r"\.(?:count|contains)\(\$(?:1|3)\)|" + al +
              r" has \$(?:1|3)") or tri(L, r"\((?:0 == )?" + al +
                                        r"(?:\.count\(\$(?:1|3)\)| has \$(?:1|3))"
                                        r"(?: == 0)?\)") is False
    if "TSConstant" in r:
        seen.add("make")
        ctx.ob("edge", bool(fac and z and me) and re.fullmatch(
            r"EdgeFunction\{TSConstant\{this\.TSD\.getNextState\(%s, this\."
            r"TSD\.uninit\(\), %s\)(?:, this\.TSD)?\}\}" % (N, CS), r)
            is not None, where(fn), "%s is put on the edge when %s" % (
                r, sorted(L, key=lambda x: "demangle" in x)[:8]), fn.qn)
    else:
        seen.add("use")
        ctx.ob("edge", bool(con and same and inn) and re.fullmatch(
            r"EdgeFunction\{TSEdgeFunction\{this\.TSD, %s, %s\}\}" % (N, CS),
            r) is not None, where(fn), "%s is put on the edge when %s" % (
                r, sorted(L, key=lambda x: "demangle" in x)[:8]), fn.qn)


def skip(ctx, fn, l, Z, N, CS):
    """paths of the callee loop that go on to the next callee"""
    ctx.ob("edge", t2s(l.container) == "$4", where(fn), "callees are taken "
           "from %s" % t2s(l.container), fn.qn)
    for q in l.paths:
        if q.exit not in (None, "next", "continue"):
            continue
        L = lits(q.pc)
        fac = tri(L, r"this\.(?:TSD\.)?isFactoryFunction\(%s\)" % N)
        z = tri(L, Z)
        me = tri(L, r"\(%s == \$3\)|\(\$3 == %s\)" % (CS, CS))
        con = tri(L, r"this\.TSD\.isConsumingFunction\(%s\)" % N)
        ctx.ob("edge", fac is False or z is False or me is False, where(fn),
               "a factory's result is passed over when %s" % sorted(L)[:5],
               fn.qn)
        same = tri(L, r"\(\$1 == \$3\)|\(\$3 == \$1\)")
        inner = [e.loop for e in q.ev if e.kind == "loop"]
        ok = con is False or same is False
        for i in inner:
            ok = ok or re.fullmatch(
                r"this\.TSD\.getConsumerParamIdx\(%s\)" % N,
                t2s(i.container)) is not None
            for x in i.paths:
                if x.exit in (None, "next", "continue"):
                    LL = lits(x.pc)
                    ctx.ob("edge", tri(LL, r"\(\$1 == \$3\)|\(\$3 == \$1\)")
                           is False or any(
                               y.startswith(
                                   ("!this.getWMAliasesAndAllocas(",
                                    "(this.getWMAliasesAndAllocas("))
                               for y in LL), where(fn), "a consumed object "
                           "is passed over when %s" % sorted(LL)[:5], fn.qn)
                elif x.exit == "break":
                    ctx.ob("edge", False, where(fn), "consumed parameters "
                           "are skipped", fn.qn)
        ctx.ob("edge", ok, where(fn), "consuming calls are passed over when "
               "%s" % sorted(L)[:5], fn.qn)


# ------------------------------------------------------------------- lattice
def lattice(ctx, F):
    fo = Fold(ctx, F)
    for s in SPECS:
        en = F.enums["psr::" + s["en"]] if "psr::" + s["en"] in F.enums \
            else None
        J = [f for f in F.find("psr::JoinLatticeTraits::join", need=False)
             if len(f.ps) == 2 and s["en"] in f.ps[0][2]]
        for fn in J:
            if not en or not en["consts"]:
                continue
            st = dict(en["consts"])
            by = {v: n for n, v in st.items()}
            for a in st:
                for b in st:
                    w = b if a == "TOP" else a if b == "TOP" or a == b \
                        else "BOT"
                    v, why = fo.one(fn, [int(st[a]), int(st[b])])
                    ctx.ob("lattice", why is None and by.get(v) == w,
                           where(fn), "%s joined with %s is %s, expected %s"
                           % (a, b, why or by.get(v, v), w), fn.qn)
    A = "psr::IDETypeStateAnalysis::"
    top = r"this\.TSD\.top\(\)|\S*::TOP"
    for fn in F.find(A + "join"):
        decide(ctx, "lattice", fn, ctx.summary(F, fn, stop=[
            "top", "bottom"]), {
            "same": eqt(r"\$0", r"\$1"), "lt": eqt(r"\$0", top),
            "rt": eqt(r"\$1", top)},
            lambda B_: None if B_["same"] and B_["lt"] != B_["rt"] or
            B_["lt"] and B_["rt"] and not B_["same"] else
            ["$0", "$1"] if B_["same"] else "$1" if B_["lt"] else
            "$0" if B_["rt"] else Pat(r"this\.TSD\.bottom\(\)|\S*::BOT"))
    for m, w in (("topElement", "top"), ("bottomElement", "bottom")):
        for fn in F.find(A + m):
            for p in live(ctx.summary(F, fn, stop=["top", "bottom"])):
                ctx.ob("lattice", t2s(p.ret) == "this.TSD.%s()" % w,
                       where(fn), "%s is %s" % (m, t2s(p.ret)), fn.qn)
    for fn in F.find(A + "isTypeNameOfInterest"):
        for p in live(ctx.summary(F, fn, stop=["getTypeNameOfInterest"])):
            ctx.ob("type", re.fullmatch(
                r"\$0\.contains\(this\.TSD\.getTypeNameOfInterest\(\)\)|.*"
                r"\$0\.find\(this\.TSD\.getTypeNameOfInterest\(\).*|\$0 has "
                r"this\.TSD\.getTypeNameOfInterest\(\)",
                t2s(p.ret)) is not None, where(fn), "names are compared by "
                "%s" % t2s(p.ret), fn.qn)
    for m in ("isAPIFunction", "isFactoryFunction"):
        for fn in F.find(A + m):
            for p in live(ctx.summary(F, fn, stop=[m])):
                ctx.ob("interface", t2s(p.ret) == "this.TSD.%s($0)" % m,
                       where(fn), "%s is %s" % (m, t2s(p.ret)), fn.qn)


def eqt(a, b):
    return Pat(r"\((?:%s) == (?:%s)\)|\((?:%s) == (?:%s)\)" % (a, b, b, a))


# ------------------------------------------------------------------- reports
def report(ctx, F):
    for fn in F.find("psr::IDETypeStateAnalysis::emitTextReport"):
        ps = live(ctx.summary(F, fn, stop=ST + [
            "error", "analysisType", "isExitInst", "resultsAt",
            "getAllFunctions"]))
        for p in ps:
            its = [it for it in items([p]) if it.ev.kind == "call" and
                   last(it.ev.name) == "onResult"]
            ex = set()
            for it in its:
                L = lits(it.pc)
                a = [t2s(x) for x in it.ev.args]
                c = [t2s(l.container) for l in it.loops]
                R = re.fullmatch(r"\$0\.resultsAt\(&?(.*), true\)",
                                 c[-1]) if c else None
                fact = "elem(%s).first" % c[-1] if c else ""
                ok = R and len(c) == 4 and c[0] == "this.IRDB." \
                    "getAllFunctions()" and a[0].lstrip("&") == R.group(1) \
                    and a[1] in (fact, "as<AllocaInst>(%s)" % fact) and \
                    a[2] in ("this.TSD.error()", "elem(%s).second" % c[-1]) \
                    and a[3] == "this.TSD.analysisType()"
                ctx.ob("report", bool(ok), where(fn), "reports %s over %s" %
                       (a, c[-1:]), fn.qn)
                rest = {x for x in L if "isExitInst" not in x}
                E = "elem(%s)" % c[-1] if c else ""
                ok = len(rest) == 2 and "isa<AllocaInst>(%s)" % fact in rest \
                    and any(x in ("(this.TSD.error() == %s.second)" % E,
                                  "(%s.second == this.TSD.error())" % E)
                            for x in rest)
                ctx.ob("report", ok, where(fn), "an error is reported when "
                       "%s" % sorted(L), fn.qn)
                ei = [x for x in L if "isExitInst" in x]
                ex |= {x.startswith("!") for x in ei} or {True, False}
                for l in it.loops:
                    ctx.ob("report", whole(l), where(fn), "not all of %s is "
                           "searched" % t2s(l.container)[:80], fn.qn)
            ctx.ob("report", ex == {True, False}, where(fn), "errors are "
                   "reported only at some instructions", fn.qn)


# ------------------------------------------------------------ secure heap
def heap(ctx):
    F = ctx.facts(LIB + "IDESecureHeapPropagation.cpp")
    fo = Fold(ctx, F)
    H = "psr::IDESecureHeapPropagation::"
    CALL = r"as<CallBase>\(\$0\)\.getCalledFunction\(\)"

    def nm(g):
        """the name compared with"""
        m = re.search(r"@([\w:]+)", g)
        if m:
            qs = [x for x in F.globs.values() if x["n"] == last(m.group(1))
                  and "init" in x]
            if qs:
                try:
                    from fold import conv
                    return conv(qs[0]["init"])
                except Exception:
                    return None
        m = re.search(r'"([^"]*)"', g)
        return m.group(1) if m else None
    for m in ("getNormalFlowFunction", "getCallFlowFunction",
              "getRetFlowFunction", "getCallToRetFlowFunction"):
        fn = one(F, H + m)
        seen = set()
        for p, outs in FF.denote(ctx, F, fn):
            L = lits(p.pc)
            g = [x for x in L if ".getName()" in x and "==" in x]
            init = m.startswith("getCallToRet") and any(
                not x.startswith("!") and
                nm(x) == "CRYPTO_secure_malloc_init" for x in g)
            for o in outs:
                r = {last(x.replace("::", "::")) for x in o.plain()}
                z = tri(o.lits, r"\((?:this\.\w+(?:\(\))? == @S|@S == this\."
                        r"\w+(?:\(\))?)\)|this\.isZeroValue\(@S\)|.*"
                        r"\bZERO\b.*")
                if init and z:
                    w = {"@S", "INITIALIZED"}
                    seen.add("gen")
                else:
                    w = {"@S"}
                ctx.ob("heap", r == w and (not init or z is not None),
                       where(fn), "%s maps the fact to %s when %s" % (
                           m, sorted(r), sorted(o.lits)[:4]), fn.qn)
        if m.startswith("getCallToRet"):
            ctx.ob("heap", seen == {"gen"}, where(fn), "the initialisation "
                   "is not seen", fn.qn)
    ID = r"EdgeFunction\{EdgeIdentity\{\}\}"
    for m in ("getNormalEdgeFunction", "getCallEdgeFunction",
              "getReturnEdgeFunction"):
        fn = one(F, H + m)
        for p in live(ctx.summary(F, fn)):
            ctx.ob("heap", re.fullmatch(ID, t2s(p.ret)) is not None,
                   where(fn), "%s is put on the edge" % t2s(p.ret), fn.qn)
    fn = one(F, H + "getCallToRetEdgeFunction")
    ZV = r"(?:this\.ZeroValue|this\.getZeroValue\(\)|\S*::ZERO)"
    seen = set()
    for p in live(ctx.summary(F, fn, keep_mem=True)):
        L = lits(p.pc)
        z1 = tri(L, r"\(%s == \$1\)|\(\$1 == %s\)|this\.isZeroValue\(\$1\)" %
                 (ZV, ZV))
        z3 = tri(L, r"\(%s == \$3\)|\(\$3 == %s\)|this\.isZeroValue\(\$3\)" %
                 (ZV, ZV))
        done = any(not x.startswith("!") and
                   nm(x) == "CRYPTO_secure_malloc_done" for x in L
                   if ".getName()" in x)
        r = t2s(p.ret)
        if z1 and z3 is False:
            w = r"EdgeFunction\{ConstantEdgeFunction\{\S*::INITIALIZED\}\}"
            seen.add("gen")
        elif z1 is False and done:
            w = r"EdgeFunction\{ConstantEdgeFunction\{\S*::BOT\}\}|" \
                r"EdgeFunction\{AllBottom.*"
            seen.add("kill")
        else:
            w = ID
            seen.add("id")
        ctx.ob("heap", re.fullmatch(w, r) is not None, where(fn), "%s is put "
               "on the edge when %s" % (r, sorted(L)[:5]), fn.qn)
    ctx.ob("heap", seen == {"gen", "kill", "id"}, where(fn), "only %s are "
           "told apart" % sorted(seen), fn.qn)
