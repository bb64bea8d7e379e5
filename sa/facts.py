"""Fact base: runs the extractor on translation units and loads the result.

Nothing here executes code of the repository: pextract parses a translation
unit with the compiler's own front end and serialises the type-checked AST.
"""
import fcntl, hashlib, json, os, subprocess, sys, shlex
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PSA_REPO", "/repo")
CACHE = os.environ.get("PSA_CACHE", os.path.join(VERIF, ".cache"))
EXTRACTOR_SRC = os.path.join(VERIF, "extractor", "pextract.cpp")
CLANG = "/usr/bin/clang++-14"
LLVM = "/usr/lib/llvm-14"


class CheckError(Exception):
    """The check could not give an answer (missing anchor, parse error...)."""


def _sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


_hash_memo = {}


def file_hash(path):
    if path not in _hash_memo:
        try:
            _hash_memo[path] = _sha(path)
        except OSError:
            _hash_memo[path] = "missing"
    return _hash_memo[path]


def extractor():
    os.makedirs(CACHE, exist_ok=True)
    key = file_hash(EXTRACTOR_SRC)[:16]
    pre = os.path.join(VERIF, "bin", "pextract-" + key)
    if os.path.exists(pre):      # built from exactly this source
        return pre
    exe = os.path.join(CACHE, "pextract-" + key)
    if os.path.exists(exe):
        return exe
    with open(os.path.join(CACHE, "build.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        tmp = exe + ".tmp%d" % os.getpid()
        cmd = [CLANG, "-std=c++17", "-O1", "-fno-rtti", "-w",
               "-I" + LLVM + "/include", "-D_GNU_SOURCE",
               "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS",
               "-D__STDC_LIMIT_MACROS", EXTRACTOR_SRC, "-o", tmp,
               "-L" + LLVM + "/lib", "-lclang-cpp", "-lLLVM-14",
               "-Wl,-rpath," + LLVM + "/lib"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("extractor does not build:\n" + r.stdout[-3000:])
        subprocess.run(["strip", tmp])
        os.rename(tmp, exe)
    return exe


def flags():
    inc = os.path.join(REPO, "_build", "include")
    fl = ["-std=c++17", "-fPIC", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
          "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
          '-DPHASAR_BUILD_DIR="%s/_build"' % REPO,
          '-DPHASAR_SRC_DIR="%s"' % REPO,
          "-I" + REPO + "/tools/phasar-cli", "-I" + LLVM + "/include",
          "-I" + REPO + "/include", "-I" + inc,
          "-I" + VERIF + "/tus", "-idirafter", VERIF + "/tus/stubs",
          "-resource-dir", LLVM + "/lib/clang/14.0.6", "-w",
          "-ferror-limit=5"]
    return fl


def _deps_state(deps):
    h = hashlib.sha256()
    for d in sorted(set(deps)):
        h.update(d.encode())
        h.update(file_hash(d).encode())
    return h.hexdigest()


def extract(tu, extra_roots=()):
    """Extract one TU (path); returns path of the JSON-lines file."""
    exe = extractor()
    key = hashlib.sha256((os.path.basename(exe) + "|" + tu + "|" + REPO + "|" +
                          " ".join(flags())).encode()).hexdigest()[:20]
    base = os.path.join(CACHE, os.path.basename(tu).replace(".", "_") + "-" + key)
    meta = base + ".meta"
    out = base + ".jsonl"
    if os.path.exists(meta) and os.path.exists(out):
        try:
            with open(meta) as f:
                m = json.load(f)
            if _deps_state(m["deps"]) == m["state"]:
                return out
        except (ValueError, KeyError):
            pass
    tmp = out + ".tmp%d" % os.getpid()
    cmd = [exe, "-o", tmp, "--root", REPO + "/include/", "--root",
           REPO + "/lib/", "--root", REPO + "/tools/", "--root",
           REPO + "/_build/without_schema_validator/",
           "--root", VERIF + "/tus/", tu, "--"] + flags()
    if "/Pointer/external/" in tu:
        pass
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, cwd=CACHE)
    ok = os.path.exists(tmp) and os.path.getsize(tmp) > 0 and r.returncode == 0
    if not ok:
        ce = CheckError("cannot analyse %s: the front end reports\n%s" %
                        (tu, r.stdout[-3000:]))
        ce.diag = r.stdout
        raise ce
    deps = []
    with open(tmp) as f:
        for ln in f:
            if '"k":"deps"' in ln[:200] or ln.startswith('{"k":"deps"'):
                deps = json.loads(ln)["v"]
    deps.append(tu)
    with open(meta + ".tmp%d" % os.getpid(), "w") as f:
        json.dump({"deps": deps, "state": _deps_state(deps)}, f)
    os.rename(tmp, out)
    os.rename(meta + ".tmp%d" % os.getpid(), meta)
    return out


FL_NORETURN, FL_CONST, FL_STATIC, FL_VIRTUAL, FL_LAMBDA = 1, 2, 4, 8, 16
FL_VARIADIC, FL_DEFAULTED, FL_IMPLICIT, FL_COPY, FL_MOVE = 32, 64, 128, 256, 512
FL_PURE, FL_INREPO, FL_TINST, FL_INTERNAL = 1024, 2048, 4096, 8192

OFF = 10_000_000


class FnDecl:
    __slots__ = ("id", "qn", "n", "pt", "pn", "rt", "fl", "file", "line",
                 "cls", "clsT", "ov", "ta", "tu")

    def sig(self):
        return (self.qn, tuple(self.pt), bool(self.fl & FL_CONST), self.clsT,
                tuple(self.ta or ()))


class Fn:
    __slots__ = ("id", "decl", "ps", "file", "line", "end", "inits", "body",
                 "tu", "qn")

    def __repr__(self):
        return "<Fn %s @%s:%d>" % (self.qn, rel(self.file), self.line)


def rel(p):
    for r in (REPO + "/", VERIF + "/"):
        if p.startswith(r):
            return p[len(r):]
    return p


class Facts:
    def __init__(self, tus):
        self.tus = list(tus)
        self.decls = {}      # id -> FnDecl
        self.fns = {}        # id -> Fn
        self.by_qn = {}      # qn -> [Fn]
        self.by_sig = {}     # sig -> Fn
        self.recs = {}       # qn -> [rec]
        self.enums = {}      # qn -> enum
        self.globs = {}      # id -> glob
        self.glob_qn = {}
        self.patterns = {}   # qn -> (file,line)
        self.ov = {}         # base id -> set(derived ids)
        self.seen_fn = set()
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(self._ex, self.tus))
        for i, o in enumerate(outs):
            self._load(i, o)

    @staticmethod
    def _ex(t):
        return extract(t)

    def _load(self, tu, path):
        off = tu * OFF
        rows = []
        types = []
        with open(path) as f:
            for ln in f:
                o = json.loads(ln)
                if o["k"] == "types":
                    types = o["v"]
                else:
                    rows.append(o)

        def T(i):
            return types[i] if isinstance(i, int) and i >= 0 else ""

        fix = Fixer(off, types)
        for o in rows:
            k = o["k"]
            if k == "fd":
                d = FnDecl()
                d.id = o["id"] + off
                d.qn = o["qn"]
                d.n = o["n"]
                d.pt = [T(x) for x in o["pt"]]
                d.pn = o["pn"]
                d.rt = T(o["rt"])
                d.fl = o["fl"]
                d.file = o["file"]
                d.line = o["line"]
                d.cls = o.get("cls", "")
                d.clsT = T(o["clsT"]) if "clsT" in o else ""
                d.ov = [x + off for x in o.get("ov", [])]
                d.ta = [T(x) if isinstance(x, int) else x
                        for x in o.get("ta", [])]
                d.tu = tu
                self.decls[d.id] = d
                for b in d.ov:
                    self.ov.setdefault(b, set()).add(d.id)
        for o in rows:
            k = o["k"]
            if k == "fn":
                f = Fn()
                f.id = o["id"] + off
                f.decl = self.decls[f.id]
                f.qn = f.decl.qn
                f.file = o["file"]
                f.line = o["line"]
                f.end = o["end"]
                f.tu = tu
                f.ps = [(p[0] + off, p[1], T(p[2])) for p in o["ps"]]
                f.inits = [[i[0], fix.ex(i[1]), T(i[2]), i[3]]
                           for i in o.get("inits", [])]
                f.body = fix.st(o["body"])
                self.fns[f.id] = f
                s = f.decl.sig()
                key = (s, f.file, f.line)
                if key not in self.seen_fn or (f.decl.fl & FL_LAMBDA):
                    self.seen_fn.add(key)
                    self.by_qn.setdefault(f.qn, []).append(f)
                    self.by_sig.setdefault(s, f)
            elif k == "rec":
                o["t"] = T(o["t"])
                o["bases"] = [[b[0], T(b[1])] for b in o["bases"]]
                o["fields"] = [[x[0], T(x[1]), fix.ex(x[2]), x[3], x[4]]
                               for x in o["fields"]]
                o["methods"] = [m + off for m in o["methods"]]
                rs = self.recs.setdefault(o["qn"], [])
                if not any(r["t"] == o["t"] for r in rs):
                    rs.append(o)
            elif k == "enum":
                self.enums.setdefault(o["qn"], o)
            elif k == "gv":
                o["t"] = T(o["t"])
                if "init" in o:
                    o["init"] = fix.ex(o["init"])
                self.globs[o["id"] + off] = o
                if o["qn"] not in self.glob_qn or "init" in o:
                    self.glob_qn[o["qn"]] = o
            elif k == "pat":
                self.patterns.setdefault(o["qn"], (o["file"], o["line"]))

    # -- lookup ---------------------------------------------------------
    def find(self, qn, need=True, pred=None):
        r = [f for f in self.by_qn.get(qn, []) if pred is None or pred(f)]
        if need and not r:
            raise CheckError("anchor vanished: no definition of %s in %s" %
                             (qn, ", ".join(rel(t) for t in self.tus)[:300]))
        return r

    def all_fns(self):
        for l in self.by_qn.values():
            yield from l

    def one(self, qn, pred=None):
        return self.find(qn, True, pred)[0]

    def definition(self, fid):
        f = self.fns.get(fid)
        if f:
            return f
        d = self.decls.get(fid)
        if not d:
            return None
        return self.by_sig.get(d.sig())

    def rec(self, qn, t=None):
        rs = self.recs.get(qn)
        if not rs:
            return None
        if t:
            for r in rs:
                if r["t"] == t:
                    return r
        return rs[0]


class Fixer:
    """Rebase ids and turn type indices into strings."""

    def __init__(self, off, types):
        self.off = off
        self.types = types

    def T(self, i):
        return self.types[i] if isinstance(i, int) and i >= 0 else ""

    def exs(self, l):
        return [self.ex(x) for x in l]

    def ex(self, e):
        if e is None:
            return None
        t = e[0]
        o = self.off
        X = self.ex
        if t == "v":
            return ["v", e[1] + o, e[2], e[3], self.T(e[4])] + e[5:]
        if t == "call":
            return ["call", e[1] + o, e[2], X(e[3]), self.exs(e[4]),
                    self.T(e[5]), e[6], e[7]]
        if t == "calli":
            return ["calli", X(e[1]), self.exs(e[2]), self.T(e[3]), e[4]]
        if t in ("ctor", "cp", "mv"):
            return [t, e[1] + o, self.T(e[2]), self.exs(e[3]), e[4]]
        if t == "m":
            return ["m", X(e[1]), e[2], e[3], self.T(e[4]), e[5], e[6]]
        if t == "fn":
            return ["fn", e[1] + o, e[2]]
        if t == "tobool":
            return ["tobool", X(e[1]), self.T(e[2])]
        if t == "icast":
            return ["icast", self.T(e[1]), X(e[2]), self.T(e[3])]
        if t == "cast":
            return ["cast", self.T(e[1]), X(e[2]), self.T(e[3]), e[4], e[5]]
        if t == "tovoid":
            return ["tovoid", X(e[1])]
        if t == "en":
            return ["en", e[1], e[2], self.T(e[3])]
        if t == "lam":
            return ["lam", e[1] + o,
                    [[c[0] + o if c[0] else 0, c[1], c[2], X(c[3])]
                     for c in e[2]],
                    [x + o for x in e[3]], e[4], self.T(e[5])]
        if t == "un":
            return ["un", e[1], X(e[2]), self.T(e[3]), e[4]]
        if t == "bin":
            return ["bin", e[1], X(e[2]), X(e[3]), self.T(e[4]), e[5],
                    self.T(e[6])]
        if t == "asg":
            return ["asg", e[1], X(e[2]), X(e[3]), self.T(e[4]), e[5]]
        if t == "cond":
            return ["cond", X(e[1]), X(e[2]), X(e[3]), self.T(e[4])]
        if t == "sub":
            return ["sub", X(e[1]), X(e[2]), self.T(e[3]), e[4]]
        if t == "il":
            return ["il", self.exs(e[1]), self.T(e[2]), e[3]]
        if t == "new":
            return ["new", self.T(e[1]), X(e[2]), self.exs(e[3]), e[4]]
        if t == "del":
            return ["del", X(e[1]), e[2], self.T(e[3])]
        if t == "throw":
            return ["throw", X(e[1]), e[2]]
        if t == "zero":
            return ["zero", self.T(e[1])]
        if t == "typeid":
            return ["typeid", self.T(e[1]) if isinstance(e[1], int)
                    else X(e[1])]
        if t == "stmtexpr":
            return ["stmtexpr", self.st(e[1])]
        if t == "bind":
            return ["bind", X(e[1]), e[2], e[3], self.T(e[4]), e[5],
                    self.T(e[6])]
        if t == "?":
            return ["?", e[1], self.exs(e[2]) if len(e) > 2 else []]
        return e

    def dv(self, d):
        if d is None:
            return None
        return [d[0] + self.off, d[1], self.T(d[2]), self.ex(d[3]), d[4], d[5]]

    def st(self, s):
        if s is None:
            return None
        t = s[0]
        X, S = self.ex, self.st
        if t == "{":
            return ["{", s[1], [S(x) for x in s[2]]]
        if t == "if":
            return ["if", s[1], S(s[2]), self.dv(s[3]), X(s[4]), S(s[5]),
                    S(s[6])]
        if t == "for":
            return ["for", s[1], S(s[2]), X(s[3]), X(s[4]), S(s[5]),
                    self.dv(s[6])]
        if t == "while":
            return ["while", s[1], self.dv(s[2]), X(s[3]), S(s[4])]
        if t == "do":
            return ["do", s[1], S(s[2]), X(s[3])]
        if t == "rfor":
            return ["rfor", s[1], s[2] + self.off, s[3], self.T(s[4]), X(s[5]),
                    S(s[6]), self.T(s[7]), S(s[8])]
        if t == "sw":
            body = []
            for x in s[5]:
                if x[0] == "case":
                    body.append(["case", x[1], X(x[2]), x[3]])
                elif x[0] == "default":
                    body.append(x)
                else:
                    body.append(S(x))
            return ["sw", s[1], S(s[2]), self.dv(s[3]), X(s[4]), body,
                    self.T(s[6])]
        if t == "ret":
            return ["ret", s[1], X(s[2])]
        if t == "decl":
            return ["decl", s[1], [self.dv(d) for d in s[2]]]
        if t == "e":
            return ["e", s[1], X(s[2])]
        if t == "try":
            return ["try", s[1], S(s[2]), [S(x) for x in s[3]]]
        if t == "label":
            return ["label", s[1], s[2], S(s[3])]
        return s


# ------------------------------------------------------------- AST iteration
def walk_ex(e):
    """All sub-expressions of e (pre-order), not entering lambda bodies."""
    if e is None:
        return
    yield e
    t = e[0]
    if t == "call":
        if e[3] is not None:
            yield from walk_ex(e[3])
        for a in e[4]:
            yield from walk_ex(a)
    elif t == "calli":
        yield from walk_ex(e[1])
        for a in e[2]:
            yield from walk_ex(a)
    elif t in ("ctor", "cp", "mv"):
        for a in e[3]:
            yield from walk_ex(a)
    elif t in ("m", "tobool", "tovoid", "throw", "del"):
        yield from walk_ex(e[1])
    elif t in ("icast", "cast", "un"):
        yield from walk_ex(e[2])
    elif t in ("bin", "asg"):
        yield from walk_ex(e[2])
        yield from walk_ex(e[3])
    elif t == "cond":
        for x in e[1:4]:
            yield from walk_ex(x)
    elif t == "sub":
        yield from walk_ex(e[1])
        yield from walk_ex(e[2])
    elif t == "il":
        for a in e[1]:
            yield from walk_ex(a)
    elif t == "new":
        yield from walk_ex(e[2])
        for a in e[3]:
            yield from walk_ex(a)
    elif t == "lam":
        for c in e[2]:
            yield from walk_ex(c[3])
    elif t == "bind":
        yield from walk_ex(e[1])
    elif t == "?":
        if len(e) > 2:
            for a in e[2]:
                yield from walk_ex(a)
    elif t == "stmtexpr":
        for x in stmt_exprs(e[1]):
            yield from walk_ex(x)


def walk_st(s):
    if s is None:
        return
    yield s
    t = s[0]
    if t == "{":
        for x in s[2]:
            yield from walk_st(x)
    elif t == "if":
        yield from walk_st(s[2])
        yield from walk_st(s[5])
        yield from walk_st(s[6])
    elif t == "for":
        yield from walk_st(s[2])
        yield from walk_st(s[5])
    elif t == "while":
        yield from walk_st(s[4])
    elif t == "do":
        yield from walk_st(s[2])
    elif t == "rfor":
        yield from walk_st(s[8])
        yield from walk_st(s[6])
    elif t == "sw":
        yield from walk_st(s[2])
        for x in s[5]:
            if x[0] not in ("case", "default"):
                yield from walk_st(x)
    elif t == "try":
        yield from walk_st(s[2])
        for h in s[3]:
            yield from walk_st(h)
    elif t == "label":
        yield from walk_st(s[3])


def own_exprs(s):
    """Top-level expressions directly in this statement (not in children)."""
    t = s[0]
    if t == "if":
        if s[3] and s[3][3] is not None:
            yield s[3][3]
        yield s[4]
    elif t == "for":
        if s[3] is not None:
            yield s[3]
        if s[4] is not None:
            yield s[4]
        if s[6] and s[6][3] is not None:
            yield s[6][3]
    elif t == "while":
        if s[2] and s[2][3] is not None:
            yield s[2][3]
        yield s[3]
    elif t == "do":
        yield s[3]
    elif t == "rfor":
        yield s[5]
    elif t == "sw":
        if s[3] and s[3][3] is not None:
            yield s[3][3]
        yield s[4]
    elif t == "ret":
        if s[2] is not None:
            yield s[2]
    elif t == "decl":
        for d in s[2]:
            if d[3] is not None:
                yield d[3]
    elif t == "e":
        yield s[2]


def stmt_exprs(s):
    for x in walk_st(s):
        yield from own_exprs(x)


def fn_exprs(fn):
    """Every expression in a function (with ctor initialisers)."""
    for i in fn.inits or []:
        if i[1] is not None:
            yield from walk_ex(i[1])
    for top in stmt_exprs(fn.body):
        yield from walk_ex(top)
