"""Denotations of flow-function objects: a factory's result (a closure, or an
object made by make_shared) is applied to a symbolic source fact; the set it
returns is evaluated from the effects on the path."""
import re
from flow import Engine, t2s, last, State
from spec import *
from facts import CheckError

S = ("glob", "S")       # the source fact
SRC = "@S"


class Entry:
    """an element of a result set: text, whole (a set of facts), and for
    conditional elements the guards and loops"""
    __slots__ = ("t", "whole", "guard", "loops", "ls")

    def __init__(self, t, whole=False, guard=frozenset(), loops=(), ls=()):
        self.t, self.whole = t, whole
        self.guard, self.loops, self.ls = guard, loops, ls

    def key(self):
        return (self.t, self.whole, self.guard, self.loops)

    def __eq__(self, o):
        return self.key() == o.key()

    def __hash__(self):
        return hash(self.key())

    def __str__(self):
        s = ("*" if self.whole else "") + self.t
        if self.loops or self.guard:
            s += " for %s if %s" % (list(self.loops), sorted(self.guard))
        return s

    __repr__ = __str__


class Out:
    """one way through: condition, result set, the path, what else it did"""

    def __init__(self, p, res, other, n0):
        self.p, self.res, self.other = p, res, other
        self.lits = lits(p.pc)
        self.n0 = n0

    def plain(self):
        return frozenset(str(e) for e in self.res)


def isset(t):
    return t[0] == "ctor" and re.match(
        r"(?:const )?(?:std::)?(?:\w+::)*(?:set|unordered_set|SmallSet\w*|"
        r"DenseSet|flat_set|BitVectorSet|vector|SmallVector)\b", t[1]) \
        or t[0] == "il"


def val(t, env):
    if t in env:
        return env[t]
    if t[0] in ("cast", "addr", "deref") and len(t) > 1 and \
            isinstance(t[-1], tuple) and t[-1] in env:
        return env[t[-1]]
    if t[0] == "ffset":
        return t[1]
    if t[0] == "il":
        return frozenset(Entry(t2s(x)) for x in t[2])
    if t[0] == "ctor" and isset(t):
        a = [x for x in t[2] if not (x[0] == "ctor" and not x[2] and
                                     not isset(x))]
        if not a:
            return frozenset()
        if len(a) == 1:
            return val(a[0], env)
        g = rng(a)
        if g is not None:
            return val(g, env)
    return frozenset([Entry(t2s(t), True)])


def rng(a):
    """the container of an iterator pair"""
    if len(a) == 2:
        bs = [z[1] for z in subs(a[0]) if z[0] == "begin" and len(z) == 2]
        es = [z[1] for z in subs(a[1]) if z[0] == "end" and len(z) == 2]
        if len(bs) == 1 and bs == es and (
                a[0][0] == "begin" or "move_iterator" in t2s(a[0])):
            return bs[0]
    if len(a) == 2 and a[0][0] in ("begin", "iter", "call") and \
            a[1][0] in ("end", "iter", "call"):
        x, y = t2s(a[0]), t2s(a[1])
        g = re.fullmatch(r"(?:\w+::)*(?:make_move_iterator\()?begin\((.*?)\)"
                         r"\)?", x)
        if g and "end(%s)" % g.group(1) in y:
            for z in subs(a[0]):
                if t2s(z) == g.group(1):
                    return z
    return None


def subs(t):
    yield t
    for x in t:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield from subs(x)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        yield from subs(y)


def run(evs, env, other, guard=frozenset(), loops=(), ls=()):
    def add(o, es):
        env[o] = env.get(o, frozenset([Entry(t2s(o), True)])) | frozenset(
            Entry(e.t, e.whole, e.guard | guard, loops + e.loops, ls + e.ls)
            if guard or loops else e for e in es)
    for e in evs:
        if e.kind == "loop":
            l = e.loop
            c = t2s(l.container) if l.container is not None else "_"
            base = dict(env)
            for q in l.paths:
                if q.exit in ("noreturn", "throw"):
                    continue
                en = dict(base)
                run(q.ev, en, other, guard | lits(q.pc), loops + (c,),
                    ls + (l,))
                for k, v in en.items():
                    env[k] = env.get(k, frozenset()) | v
            continue
        if e.kind == "init":
            env[e.obj] = val(e.args[0], env)
            continue
        if e.kind == "write":
            if e.obj in env or isset(e.args[0]):
                env[e.obj] = val(e.args[0], env)
            else:
                other.append(e)
            continue
        if e.kind != "call":
            continue
        n = last(e.name)
        a = e.args
        if e.obj is not None and n in ("insert", "emplace", "push_back",
                                       "emplace_back"):
            o = e.obj
            if o[0] != "loc" and o not in env:
                other.append(e)
            if len(a) == 1 and ls and a[0][:2] == (
                    "elem", ls[-1].container) and ls[-1].container in env \
                    and ls[-1].container[0] == "loc" and all(
                        not q.pc and q.exit in (None, "next", "continue")
                        for q in ls[-1].paths):
                # element by element, the whole local set
                env[o] = env.get(o, frozenset([Entry(t2s(o), True)])) | \
                    frozenset(Entry(x.t, x.whole, x.guard | guard,
                                    loops[:-1] + x.loops, ls[:-1] + x.ls)
                              for x in env[ls[-1].container])
                continue
            if len(a) == 1:
                x = a[0]
                es = val(x, env) if x[0] == "il" or isset(x) else \
                    [Entry(t2s(x))]
                add(o, es)
            else:
                g = rng(a)
                if g is not None:
                    add(o, val(g, env))
                elif len(a) == 2 and t2s(a[0]).startswith("end("):
                    add(o, [Entry(t2s(a[1]))])
                else:
                    add(o, [Entry("?" + e.s())])
            continue
        if e.obj is not None and n in ("erase", "remove") and e.obj in env:
            x = t2s(a[0]) if a else "?"
            if not guard and not loops:
                env[e.obj] = frozenset(y for y in env[e.obj] if y.t != x)
            if any(y.whole for y in env[e.obj]) or guard or loops:
                add(e.obj, [Entry("-" + x)])
            continue
        if e.obj is not None and n == "clear" and e.obj in env:
            env[e.obj] = frozenset()
            continue
        if n == "swap":
            xs = [x for x in ([e.obj] if e.obj is not None else []) + list(a)]
            if len(xs) == 2:
                v = [val(x, env) for x in xs]
                env[xs[0]], env[xs[1]] = v[1], v[0]
                continue
        if n in ("reserve", "operator=") and e.obj in env:
            if n == "operator=":
                env[e.obj] = val(a[0], env)
            continue
        if n.split("<")[0] == "reserveIfPossible" or n.split(
                "<")[0] in KNOWN:
            continue
        if n == "populateWithMustAliases":
            continue                # there are no must-aliases (yet)
        if n == "populateWithMayAliases" and a and a[0] in env:
            add(a[0], [Entry("alias(%s)" % x.t, False, x.guard, x.loops, x.ls)
                       for x in env[a[0]] if not x.t.startswith("alias(")])
            continue
        if n in ("collectGeneratedFacts", "collectLeakedFacts",
                 "collectSanitizedFacts") and a and a[0] in env:
            add(a[0], [Entry("%s(%s)" % (n, ", ".join(
                t2s(z) for z in a[1:])), True)])
            continue
        touched = False
        for x in a:
            for y in subs(x):
                if y in env and y[0] == "loc" and not e.pure:
                    add(y, [Entry("%s(%s)" % (n, ", ".join(
                        t2s(z) for z in a)))])
                    touched = True
                    break
        if not touched and not e.pure:
            other.append(e)


def apply(eng, st, ff, line, depth=0):
    """[(state, value)] of ff->computeTargets(S)"""
    if ff[0] in ("glob",) and ff in st.mem:
        ff = st.mem[ff]
    if ff[0] == "lam":
        return eng.call_lambda(ff, (S,), st, line)
    if ff[0] == "call" and last(ff[1].split("<")[0]) in KNOWN:
        return known(eng, st, last(ff[1].split("<")[0]), ff[3], line)
    if ff[0] == "call" and last(ff[1].split("<")[0]) in (
            "make_shared", "make_unique"):
        cls = ff[1][ff[1].index("<") + 1:-1]
        k, c = pick(eng, st, cls, ff, line)
        st = st.copy()
        obj = ("loc", "ff", -7 - depth)
        ents = [st]
        if k is not None:
            old = st.env.get("this")
            for i, (pid, pn, pt) in enumerate(k.ps):
                if i < len(ff[3]):
                    st.env[pid] = ff[3][i]
            st.env["this"] = obj
            ents = [st]
            for ini in k.inits or []:
                if ini[1] is None or ini[0] in ("(base)", "(delegating)"):
                    continue
                nx = []
                for x in ents:
                    for y, v in eng.ex(ini[1], x):
                        y.mem[("fld", obj, ini[0])] = v
                        nx.append(y)
                ents = nx
            eng.stack.append(k.id)
            eng.filestack.append(k.file)
            ents = eng.block([k.body], ents)
            eng.stack.pop()
            eng.filestack.pop()
        out = []
        for x in ents:
            out += eng.enter(c, (S,), x, obj)
        return out
    return [(st, ("call", "computeTargets", ff, (S,)))]


KNOWN = {"identityFlow", "lambdaFlow", "generateFlow", "generateFlowIf",
         "generateManyFlows", "killFlow", "killFlowIf", "killManyFlows",
         "killAllFlows", "generateFlowAndKillAllOthers",
         "generateManyFlowsAndKillAllOthers", "transferFlow"}


def known(eng, st, n, a, line):
    """the library's factories (their denotation is what P17 establishes)"""
    src = Entry(SRC)

    def split(st, c):
        return eng.branch(st, c)

    def pred(f):
        if f[0] == "lam":
            return [y for x, v in eng.call_lambda(f, (S,), st, line)
                    for y in split(x, v)]
        return split(st, ("call", "std::invoke", None, (f, S)))

    def one(t):
        return frozenset([Entry(t2s(t))])

    def many(t):
        return val(t, {}) if t[0] == "il" else frozenset(
            [Entry(t2s(t), True)])
    id_, no = frozenset([src]), frozenset()
    if n == "identityFlow":
        r = [(st, id_)]
    elif n == "killAllFlows":
        r = [(st, no)]
    elif n == "lambdaFlow":
        if a[0][0] == "lam":
            return eng.call_lambda(a[0], (S,), st, line)
        return [(st, ("call", "std::invoke", None, (a[0], S)))]
    elif n in ("generateFlow", "generateManyFlows"):
        g = one(a[0]) if n == "generateFlow" else many(a[0])
        r = [(x, id_ | g if b else id_) for x, b in split(
            st, eng.eq(S, a[1]))]
    elif n in ("generateFlowAndKillAllOthers",
               "generateManyFlowsAndKillAllOthers"):
        g = one(a[0]) if n == "generateFlowAndKillAllOthers" else many(a[0])
        r = [(x, id_ | g if b else no) for x, b in split(
            st, eng.eq(S, a[1]))]
    elif n == "generateFlowIf":
        r = [(x, id_ | one(a[0]) if b else id_) for x, b in pred(a[1])]
    elif n == "killFlow":
        r = [(x, no if b else id_) for x, b in split(st, eng.eq(S, a[0]))]
    elif n == "killFlowIf":
        r = [(x, no if b else id_) for x, b in pred(a[0])]
    elif n == "killManyFlows":
        r = [(x, no if b else id_) for x, b in split(
            st, ("call", "count", a[0], (S,)))]
    elif n == "transferFlow":
        r = []
        for x, b in split(st, eng.eq(S, a[1])):
            if b:
                r.append((x, id_ | one(a[0])))
            else:
                r += [(y, no if c else id_) for y, c in split(
                    x, eng.eq(S, a[0]))]
    return [(x, ("ffset", v)) for x, v in r]


def pick(eng, st, cls, ff, line):
    """constructor and computeTargets of the class made here"""
    name = last(cls.split("<")[0])
    cs = [f for f in eng.F.all_fns() if f.qn.endswith(
        "::%s::computeTargets" % name) or f.qn == name + "::computeTargets"]
    if not cs:
        raise CheckError("no computeTargets of %s" % cls)
    if len(cs) > 1:
        before = [f for f in cs if f.line <= line]
        cs = [max(before or cs, key=lambda f: f.line)]
    c = cs[0]
    pre = c.qn[:-len("computeTargets")] + "(ctor)"
    ks = [f for f in eng.F.all_fns() if f.qn == pre and len(f.ps) ==
          len(ff[3]) and f.file == c.file]
    if len(ks) > 1:
        ks = [f for f in ks if f.line <= c.line] or ks
        ks = [max(ks, key=lambda f: f.line)]
    if not ks and ff[3]:
        raise CheckError("no constructor of %s" % cls)
    return (ks[0] if ks else None), c


def live(ps):
    return [p for p in ps if p.exit not in ("noreturn", "throw")]


def result(p, v, n0=0):
    env, other = {}, []
    run(p.ev[:n0], env, [])
    run(p.ev[n0:], env, other)
    sub = []
    for k, c in env.items():
        c = [tidy(x) for x in c]
        if k[0] == "loc" and len(c) == 1 and c[0].whole and \
                c[0].t != t2s(k) and not c[0].guard and not c[0].loops:
            sub.append((t2s(k), c[0].t))
    o = Out(p, frozenset(tidy(x) for x in val(v, env)), other, n0)
    if sub:
        o.lits = frozenset(resub(l, sub) for l in o.lits)
    return o


def tidy(e):
    """all elements of a container one by one are the container's elements"""
    if len(e.loops) == 1 and not e.guard and not e.whole and \
            e.t == "elem(%s)" % e.loops[0] and all(
                q.exit in (None, "next", "continue", "noreturn")
                for q in e.ls[0].paths):
        return Entry(e.loops[0], True)
    return e


def denote(ctx, F, fn, args=None, **kw):
    """all outcomes of the flow function made by the factory fn"""
    kw.setdefault("keep_mem", 2)
    e = Engine(F, **kw)
    out = []
    for p in live(e.run(fn)):
        out.append((p, outcomes(e, p, p.ret, fn)))
    ctx.fns.add("%s (%s:%d)" % (fn.qn, fn.file, fn.line))
    return out


def outcomes(e, p, ff, fn):
    line = max([x.line for x in p.ev if x.kind == "call" and
                x.term == ff] or [fn.line + 10**6]) if ff is not None else 0
    st = p.copy()
    st.exit = None
    st.ret = None
    n0 = len(st.ev)
    e.stack, e.filestack = [fn.id], [fn.file]
    r = []
    if ff is None or ff[0] == "nul":
        return r
    for x, v in apply(e, st, ff, line):
        if x.exit in ("noreturn", "throw"):
            continue
        r.append(result(x, v, n0))
    return r


def same_fn(ctx, rule, fn, outs, atoms, expect, what=""):
    """Truth-table equivalence: under every assignment of the atoms every
    consistent outcome yields the expected set of texts"""
    names = list(atoms)
    P = {k: pat(v) if isinstance(v, str) else v for k, v in atoms.items()}
    for A in assigns(names):
        want = expect(A)
        if want is None:
            continue
        n = 0
        for o in outs:
            ok = True
            for l in o.lits:
                neg, x = l.startswith("!"), l.lstrip("!")
                for k in names:
                    m = P[k]
                    if m.ok(x) and A[k] == neg:
                        ok = False
            if not ok:
                continue
            n += 1
            got = o.plain()
            g = set(got) == set(want)
            ctx.ob(rule, g, where(fn), "%sthe source fact is mapped to %s "
                   "when %s" % (what, sorted(got), fmtA(A) or "always"),
                   fn.qn)
        ctx.ob(rule, n > 0, where(fn), "%sthe source fact is not handled "
               "when %s" % (what, fmtA(A)), fn.qn)


def fields(o):
    """texts of the fields of the object made by the factory, by their values
    (a pointer with packed flag by its two halves)"""
    sub = []
    for k, v in o.p.mem.items():
        if k[0] == "fld" and k[1][0] == "loc" and k[1][1] == "ff":
            n = t2s(k)
            if v[0] == "ctor" and "PointerIntPair" in v[1] and len(v[2]) == 2:
                sub.append((n + ".getPointer()", t2s(v[2][0])))
                sub.append((n + ".getInt()", t2s(v[2][1])))
            else:
                sub.append((n, t2s(v)))
    return sorted(sub, key=lambda x: -len(x[0]))


def resub(s, sub):
    for a, b in sub:
        i = s.find(a)
        while i >= 0:
            j = i + len(a)
            if j == len(s) or not (s[j].isalnum() or s[j] == "_"):
                s = s[:i] + b + s[j:]
                i += len(b)
            else:
                i = j
            i = s.find(a, i)
    return s
