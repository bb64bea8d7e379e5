"""Constant folding of function summaries over known arguments: the paths
whose conditions fold to false are dropped, conditions that do not fold are
returned as assumptions.  Global tables are read from their initialisers."""
from flow import t2s, last
from facts import CheckError


class E(int):
    """an enumerator: compares as its value"""
    name = ""

    def __repr__(self):
        return self.name


def enum(qn, v):
    e = E(v)
    e.name = last(qn)
    return e


class Unknown(Exception):
    pass


class It:
    """an iterator into a sequence"""

    def __init__(self, seq, i):
        self.seq, self.i = seq, i

    def __eq__(self, o):
        return isinstance(o, It) and self.i == o.i


class Map(dict):
    pass


STRS = ("StringRef", "StringLiteral", "basic_string", "string_view", "string",
        "Twine")


def isstr(t):
    h = t.split("<")[0].replace("const ", "")
    return last(h) in STRS


def conv(x):
    """value of an initialiser (raw facts)"""
    if not isinstance(x, list):
        raise Unknown(x)
    k = x[0]
    if k == "s":
        return x[1]
    if k in ("i", "b"):
        return x[1]
    if k == "en":
        return enum(x[1], x[2])
    if k == "un" and x[1] == "-":
        return -conv(x[2])
    if k == "il":
        v = [conv(y) for y in x[1]]
        t = x[2].replace("const ", "")
        if t.startswith("std::array") and len(v) == 1 and \
                isinstance(v[0], list):
            return v[0]
        return v
    if k == "ctor":
        t = x[2].replace("const ", "")
        a = x[3] if isinstance(x[3], list) else []
        return build(t, a, conv)
    if k in ("cast", "c") and len(x) > 2:
        return conv(x[2])
    raise Unknown(x[:2])


def build(t, a, f):
    h = t.split("<")[0].replace("const ", "")
    n = last(h)
    if isstr(t):
        return f(a[0]) if a else ""
    if n == "pair":
        return tuple(f(y) for y in a[:2])
    if n in ("set", "unordered_set", "StringSet", "SmallSet", "DenseSet",
             "flat_set"):
        if not a:
            return frozenset()
        v = f(a[0])
        return frozenset(v) if isinstance(v, (list, frozenset)) else \
            frozenset([v])
    if n in ("map", "unordered_map", "StringMap", "DenseMap"):
        v = f(a[0]) if a else []
        m = Map()
        for k, w in v:
            m.setdefault(k, w)
        return m
    if n in ("vector", "array", "SmallVector", "initializer_list"):
        v = f(a[0]) if a else []
        return list(v)
    if len(a) == 1:
        return f(a[0])
    raise Unknown(t)


class Fold:
    def __init__(self, ctx, F, **kw):
        self.ctx, self.F, self.kw, self.memo = ctx, F, kw, {}
        self.depth = 0

    def glob(self, n):
        F = self.F
        if n.startswith("static:"):
            c = [g for g in F.globs.values() if g["n"] == n[7:] and
                 "init" in g]
        else:
            c = [g for g in F.globs.values() if g["qn"] == n and "init" in g]
        if not c:
            raise Unknown(n)
        return conv(c[0]["init"])

    def sm(self, fn):
        if fn.id not in self.memo:
            self.memo[fn.id] = self.ctx.summary(self.F, fn, keep_mem=True,
                                                **self.kw)
        return self.memo[fn.id]

    def call(self, fn, args):
        """[(assumptions {term: bool}, value, exit)]"""
        out = []
        self.depth += 1
        if self.depth > 12:
            raise CheckError("recursion while folding " + fn.qn)
        for p in self.sm(fn):
            sub = self.search(p, args)
            if sub is None:
                continue
            asm, ok = [], True
            for k, v in p.pc.items():
                for a, b in sub:
                    k = rep(k, a, b)
                try:
                    b = self.ev(k, args)
                    if bool(b) != v:
                        ok = False
                        break
                except Unknown:
                    asm.append((k, v))
            if not ok:
                continue
            ret = p.ret
            for a, b in sub:
                ret = rep(ret, a, b) if ret is not None else None
            try:
                r = self.ev(ret, args) if ret is not None else None
            except Unknown as u:
                r = u
            out.append((asm, r, p.exit))
        self.depth -= 1
        return out

    def search(self, p, args):
        """a path that leaves a search loop early does so at the first element
        its conditions allow; one that runs past the loop needs that there is
        none.  Returns the element's value, None if the path is infeasible."""
        sub = []
        els = {}
        for k in p.pc:
            for z in elems(k):
                els.setdefault(z[1], z)
        loops = [e.loop for e in p.ev if e.kind == "loop"]
        for c in list(els) + [l.container for l in loops
                              if l.container is not None and
                              l.container not in els]:
            try:
                seq = self.ev(c, args)
            except Unknown:
                continue
            seq = list(seq.items()) if isinstance(seq, Map) else list(seq)
            if c in els:
                lit = [(k, v) for k, v in p.pc.items()
                       if any(z[1] == c for z in elems(k))]
                x = self.first(seq, c, [lit], args)
                if x is None:
                    return None
                sub.append((els[c], ("val", x[0])))
            else:
                for l in loops:
                    if l.container == c:
                        lits_ = [list(q.pc.items()) for q in l.paths
                                 if q.exit in ("return", "break")]
                        if lits_ and self.first(seq, c, lits_, args):
                            return None
        return sub

    def first(self, seq, c, alts, args):
        for x in seq:
            for lit in alts:
                ok = True
                for k, v in lit:
                    for z in elems(k):
                        if z[1] == c:
                            k = rep(k, z, ("val", x))
                    try:
                        ok = ok and bool(self.ev(k, args)) == v
                    except Unknown:
                        pass
                if ok:
                    return (x,)
        return None

    def one(self, fn, args):
        """the only value, or None and a complaint"""
        r = [x for x in self.call(fn, args)]
        if len(r) != 1 or r[0][0]:
            return None, "%d ways through, conditions %s" % (
                len(r), [t2s(k) for x in r for k, v in x[0]])
        if r[0][2] in ("noreturn", "throw"):
            return None, "does not return"
        if isinstance(r[0][1], Exception):
            return None, "returns %s" % (str(r[0][1])[:120])
        return r[0][1], None

    def ev(self, t, A):
        k = t[0]
        if k in ("str", "int", "bool"):
            return t[1]
        if k == "enum":
            return enum(t[1], t[2])
        if k == "param":
            if t[1] < len(A) and A[t[1]] is not None:
                return A[t[1]]
            raise Unknown(t2s(t))
        if k == "glob":
            return self.glob(t[1])
        if k == "il":
            return [self.ev(x, A) for x in t[2]]
        if k == "ctor":
            return build(t[1], t[2], lambda x: self.ev(x, A))
        if k == "not":
            return not self.ev(t[1], A)
        if k == "op":
            if len(t) < 4:
                raise Unknown(t2s(t))
            a, b = self.ev(t[2], A), self.ev(t[3], A)
            o = t[1]
            if o == "==":
                return a == b
            if o == "!=":
                return a != b
            if isinstance(a, int) and isinstance(b, int):
                if o == "<":
                    return a < b
                if o == "<=":
                    return a <= b
                if o == "+":
                    return int(a) + int(b)
                if o == "-":
                    return int(a) - int(b)
                if o == "&&":
                    return bool(a and b)
                if o == "||":
                    return bool(a or b)
            raise Unknown(t2s(t))
        if k == "cond":
            return self.ev(t[2] if self.ev(t[1], A) else t[3], A)
        if k == "has":
            return self.ev(t[2], A) in self.ev(t[1], A)
        if k == "idx":
            b, i = self.ev(t[1], A), self.ev(t[2], A)
            if isinstance(b, Map):
                if i in b:
                    return b[i]
                raise Unknown("no entry for %r" % i)
            if isinstance(b, list):
                if 0 <= i < len(b):
                    return b[i]
                raise Unknown("index %d of %d" % (i, len(b)))
            raise Unknown(t2s(t))
        if k == "fld":
            b = self.ev(t[1], A)
            if isinstance(b, It):
                b = b.seq[b.i]
            if isinstance(b, tuple) and t[2] in ("first", "second"):
                return b[0 if t[2] == "first" else 1]
            raise Unknown(t2s(t))
        if k == "end":
            s = self.ev(t[1], A)
            return It(s, len(s))
        if k == "findif":
            s = self.ev(t[1], A)
            s = list(s.items()) if isinstance(s, Map) else list(s)
            el = self.elem(t[2], t[1])
            for i, x in enumerate(s):
                if self.ev(rep(t[2], el, ("val", x)), A):
                    return It(s, i)
            return It(s, len(s))
        if k in ("anyof", "allof", "noneof"):
            s = list(self.ev(t[1], A))
            el = self.elem(t[2], t[1])
            v = [bool(self.ev(rep(t[2], el, ("val", x)), A)) for x in s]
            return any(v) if k == "anyof" else all(v) if k == "allof" else \
                not any(v)
        if k == "val":
            return t[1]
        if k in ("deref", "addr", "cast", "move") and len(t) >= 2:
            v = self.ev(t[-1] if isinstance(t[-1], tuple) else t[1], A)
            if k == "deref" and isinstance(v, It):
                return v.seq[v.i]
            return v
        if k == "call":
            return self.ecall(t, A)
        raise Unknown(t2s(t))

    @staticmethod
    def elem(t, cont):
        if t[:2] == ("elem", cont):
            return t
        for x in t:
            if isinstance(x, tuple):
                r = Fold.elem(x, cont)
                if r:
                    return r
        return None

    def ecall(self, t, A):
        n, obj, args = t[1], t[2], t[3]
        m = last(n.split("<")[0])
        if "StringSwitch" in n:
            return self.sswitch(t, A)
        if m in ("equals", "startswith", "starts_with", "endswith",
                 "ends_with", "contains", "empty", "size", "str", "data",
                 "count"):
            o = self.ev(obj, A) if obj is not None and obj != ("this",) else \
                None
            if isinstance(o, str):
                a = [self.ev(x, A) for x in args]
                if m == "equals":
                    return o == a[0]
                if m.startswith("start"):
                    return o.startswith(a[0])
                if m.startswith("end"):
                    return o.endswith(a[0])
                if m == "contains":
                    return a[0] in o
                if m == "empty":
                    return not o
                if m == "size":
                    return len(o)
                return o
        fs = [f for f in self.F.by_qn.get(n, []) if f.body is not None and
              len(f.ps) == len(args)]
        if obj in (None, ("this",)) and len(fs) == 1:
            r = self.call(fs[0], [self.ev(x, A) for x in args])
            if len(r) == 1 and not r[0][0] and r[0][2] not in (
                    "noreturn", "throw") and not isinstance(
                        r[0][1], Exception):
                return r[0][1]
        raise Unknown(t2s(t))

    def sswitch(self, t, A):
        if t[0] == "ctor":
            return ("open", self.ev(t[2][0], A))
        if t[0] != "call":
            raise Unknown(t2s(t))
        m = last(t[1].split("<")[0])
        s = self.sswitch(t[2], A)
        if m in ("Default", "operator R", "operator T"):
            return s[1] if s[0] == "done" else self.ev(t[3][0], A)
        if s[0] == "done":
            return s
        a = [self.ev(x, A) for x in t[3]]
        key = s[1]
        hit = {"Case": lambda: key == a[0], "Cases": lambda: key in a[:-1],
               "StartsWith": lambda: key.startswith(a[0]),
               "EndsWith": lambda: key.endswith(a[0]),
               "CaseLower": lambda: key.lower() == a[0].lower()}.get(m)
        if hit is None:
            raise Unknown(t2s(t))
        return ("done", a[-1]) if hit() else s


def elems(t):
    if t and t[0] in ("findif", "anyof", "allof", "noneof"):
        return
    if t and t[0] == "elem":
        yield t
    for x in t:
        if isinstance(x, tuple):
            yield from elems(x)


def rep(t, a, b):
    if t == a:
        return b
    if isinstance(t, tuple):
        return tuple(rep(x, a, b) if isinstance(x, tuple) else x for x in t)
    return t
