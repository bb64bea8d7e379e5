"""Runs one property check: obligations in, evidence and verdict out."""
import json, os, re, sys, time, traceback, importlib
import facts
from facts import Facts, CheckError, VERIF, REPO, rel
from flow import Engine

EVID = os.environ.get("PSA_EVID", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.thorough = tier == "thorough"
        self.obs = 0
        self.ok = 0
        self.viol = []
        self.rules = {}
        self.fns = set()
        self.paths = 0
        self.calls = 0
        self.notes = []
        self._facts = {}
        self.files = set()
        self.minima = []
        self.tus = set()

    # ---- analysis inputs
    def facts(self, *tus):
        out = []
        for t in tus:
            if not t.startswith("/"):
                p = os.path.join(VERIF, "tus", t)
                if not os.path.exists(p):
                    p = os.path.join(REPO, t)
                t = p
            if not os.path.exists(t):
                raise CheckError("translation unit %s is gone" % t)
            out.append(t)
        key = tuple(out)
        if key not in self._facts:
            self._facts[key] = Facts(out)
            self.tus.update(rel(x) for x in out)
        return self._facts[key]

    def witness(self, rule, tu):
        """compile-fail witnesses: every static_assert of this translation
        unit is an obligation; anything else that does not compile is an
        error of the check"""
        p = os.path.join(VERIF, "tus", tu)
        with open(p) as f:
            src = f.read()
        n = len(re.findall(r"^\s*static_assert\(", src, re.M))
        bad = []
        try:
            self._facts[(p,)] = Facts([p])
        except CheckError as e:
            d = getattr(e, "diag", "")
            errs = re.findall(r"^(\S+?):(\d+):\d+: error: (.*)$", d, re.M)
            bad = [(int(l), m) for f, l, m in errs if f.endswith(tu) and
                   re.match(r"static(_assert|\sassertion) failed", m)]
            if not bad or len(bad) != len(errs):
                raise
        self.tus.add(rel(p))
        for l, m in bad:
            self.ob(rule, False, "%s:%d" % (rel(p), l), m[:400])
        for _ in range(n - len(bad)):
            self.ob(rule, True, rel(p))
        self.atleast(rule, 1)

    def summary(self, F, fn, **kw):
        kw.setdefault("moves", self.prop not in ("P02", "P03"))
        e = Engine(F, **kw)
        r = e.run(fn)
        self.fns.add("%s (%s:%d)" % (fn.qn, rel(fn.file), fn.line))
        for q in e.inlined:
            self.fns.add(q)
        self.paths += len(r)
        self.calls += e.calls_seen
        self.files.add(rel(fn.file))
        return r

    # ---- results
    def ob(self, rule, ok, where, msg="", inst=""):
        """one obligation; `inst` identifies the construct independent of
        line numbers"""
        self.obs += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.ok += 1
        else:
            r[1] += 1
            key = "%s|%s" % (rule, inst or where.split(":")[0])
            for v in self.viol:
                if v["key"] == key and v["msg"] == msg:
                    return ok
            self.viol.append({"rule": rule, "where": where, "msg": msg,
                              "key": key})
        return ok

    def none(self, rule, misses, where, what, inst=""):
        """obligation that holds if the miss list is empty"""
        if not misses:
            return self.ob(rule, True, where, "", inst)
        p, text, L = misses[0]
        loc = where
        cond = " & ".join(sorted(x if len(x) < 160 else x[:157] + "..."
                                 for x in L)) or "(always)"
        return self.ob(rule, False, loc,
                       "%s: %s, on the path where %s" % (what, text, cond),
                       inst)

    def atleast(self, rule, n, what=""):
        """the rule must have found at least n instances"""
        self.minima.append((rule, n))

    def note(self, s):
        self.notes.append(s)


def load_known(prop):
    try:
        with open(KNOWN) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in d.get("findings", []) if k["property"] == prop]


def main(argv):
    prop = argv[0]
    tier = "thorough" if "--thorough" in argv else "quick"
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    os.makedirs(EVID, exist_ok=True)
    rep = os.path.join(EVID, prop + ".violations.json")
    if os.path.exists(rep):
        os.remove(rep)
    ev_path = os.path.join(EVID, prop + ".json")
    if os.path.exists(ev_path):
        os.remove(ev_path)
    ctx = Ctx(prop, tier)
    try:
        mod = importlib.import_module(prop.lower())
        mod.run(ctx)
        for rule, n in ctx.minima:
            got = ctx.rules.get(rule, [0, 0])[0]
            if got < n:
                raise CheckError(
                    "rule %s matched %d instances, at least %d were confirmed "
                    "by hand: the anchor of this rule has moved" %
                    (rule, got, n))
        if ctx.obs == 0:
            raise CheckError("no obligations were generated")
    except CheckError as e:
        # a violation that was already established stands on its own
        if not ctx.viol:
            print("CHECK-ERROR property=%s %s" % (prop, e))
            return 2
        ctx.note("incomplete: %s" % e)
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR property=%s internal error" % prop)
        return 3
    known = load_known(prop)
    fresh = []
    for v in ctx.viol:
        k = next((k for k in known if k["key"] == v["key"]), None)
        if k:
            print("KNOWN-FINDING: property=%s %s (%s)" %
                  (prop, k["what"], v["where"]))
        else:
            fresh.append(v)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    level = getattr(mod, "LEVEL", "other")
    expl = ("Static analysis of the current source: %d obligations over %d "
            "functions (%d abstract paths, %d call sites) in %d translation "
            "units. %s" % (ctx.obs, len(ctx.fns), ctx.paths, ctx.calls,
                           len(ctx.tus), getattr(mod, "EXPLAIN", "")))
    evd = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "explanation": expl,
            "rules": {r: {"instances": n, "violations": v}
                      for r, (n, v) in sorted(ctx.rules.items())},
            "obligations": ctx.obs, "discharged": ctx.ok,
            "functions": sorted(ctx.fns),
            "translation_units": sorted(ctx.tus),
            "notes": ctx.notes,
        },
        "assumptions": getattr(mod, "ASSUME", []) + [
            "clang 14's resolved AST with the build's flags is what the "
            "compiler builds",
            "standard-library and LLVM containers behave as documented"],
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    if ctx.viol:
        evd["coverage"]["reported"] = [
            "%s %s: %s" % (v["where"], v["rule"], v["msg"])
            for v in ctx.viol]
    with open(ev_path, "w") as f:
        json.dump(evd, f, indent=1)
    if fresh:
        with open(rep, "w") as f:
            json.dump(fresh, f, indent=1)
        for v in fresh:
            print("%s: [%s] %s" % (v["where"], v["rule"], v["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("OK property=%s obligations=%d rules=%d functions=%d wall=%.1fs" %
          (prop, ctx.obs, len(ctx.rules), len(ctx.fns), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
