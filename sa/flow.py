"""Disjunctive forward dataflow over the extracted AST.

The abstract state of a function at a program point is
  env    value-numbered term of every local that has been assigned
  mem    last term written to a named lvalue (field, element)
  facts  polarity of the branch conditions that guard this point
  events ordered effects that lie on the way here (calls, writes, loops)
States are kept apart per branch outcome (ESP style), states which agree on
everything but the branch outcome are joined.  Loop bodies are analysed once,
from a state in which everything the body may change is unknown, and appear as
one nested event.  In-repository helpers are inlined by binding their
parameters, so extracting, merging or reordering helpers leaves the terms and
effects that the rules compare unchanged.

Nothing is executed and no path condition is ever handed to a solver: the only
reasoning about conditions is syntactic identity of normalised terms and the
distinctness of constants.
"""
from facts import (CheckError, FL_NORETURN, FL_CONST, FL_STATIC, FL_VIRTUAL,
                   FL_LAMBDA, FL_DEFAULTED, FL_INREPO, FL_INTERNAL, rel)

MAX_STATES = 6000
MAX_DEPTH = 12


# ------------------------------------------------------------------ terms
def t2s(t, d=0):
    if t is None:
        return "_"
    if not isinstance(t, tuple):
        return str(t)
    k = t[0]
    if k == "param":
        return "$%d" % t[1]
    if k == "lp":
        return "#%d" % t[1]
    if k == "this":
        return "this"
    if k == "fld":
        return t2s(t[1]) + "." + t[2]
    if k == "int":
        return str(t[1])
    if k == "bool":
        return "true" if t[1] else "false"
    if k == "str":
        return '"%s"' % t[1]
    if k == "null":
        return "null"
    if k == "enum":
        return short(t[1])
    if k == "fn":
        return "&" + short(t[1])
    if k == "glob":
        return "@" + short(t[1])
    if k == "loc":
        return "~" + t[1]
    if k == "hav":
        return "?" + t[1]
    if k == "ind":
        return "?i:" + t[1]
    if k == "iter":
        return "iter(" + t2s(t[1]) + ")"
    if k == "elem":
        return "elem(" + t2s(t[1]) + ")"
    if k == "idx":
        return t2s(t[1]) + "[" + t2s(t[2]) + "]"
    if k == "call":
        a = ", ".join(t2s(x) for x in t[3])
        if t[2] is not None:
            return "%s.%s(%s)" % (t2s(t[2]), last(t[1]), a)
        return "%s(%s)" % (short(t[1]), a)
    if k == "calli":
        return "(%s)(%s)" % (t2s(t[1]), ", ".join(t2s(x) for x in t[2]))
    if k == "op":
        return "(%s %s %s)" % (t2s(t[2]), t[1], t2s(t[3]))
    if k == "un":
        return "%s%s" % (t[1], t2s(t[2]))
    if k == "deref":
        return "*" + t2s(t[1])
    if k == "addr":
        return "&" + t2s(t[1])
    if k in ("isa", "as"):
        return "%s<%s>(%s)" % (k, last(notargs(t[1])), t2s(t[2]))
    if k == "ctor":
        return "%s{%s}" % (short_t(t[1]), ", ".join(t2s(x) for x in t[2]))
    if k == "il":
        return "%s{%s}" % (short_t(t[1]) if t[1].startswith("psr::") else "",
                           ", ".join(t2s(x) for x in t[2]))
    if k == "lam":
        return "lambda@%s" % (t[2],)
    if k == "cond":
        return "(%s ? %s : %s)" % tuple(t2s(x) for x in t[1:4])
    if k == "has":
        return "%s has %s" % (t2s(t[1]), t2s(t[2]))
    if k == "empty":
        return "empty(%s)" % t2s(t[1])
    if k == "begin":
        return "begin(%s)" % t2s(t[1])
    if k == "end":
        return "end(%s)" % t2s(t[1])
    if k == "find":
        return "find(%s, %s)" % (t2s(t[1]), t2s(t[2]))
    if k in ("findif", "anyof"):
        return "%s(%s, %s)" % (k, t2s(t[1]), t2s(t[2]))
    if k in ("conj", "disj"):
        return "(" + (" & " if k == "conj" else " | ").join(
            t2s(x) for x in t[1:]) + ")"
    if k == "new":
        return "new %s(%s)" % (short_t(t[1]), t2s(t[2]))
    if k == "cast":
        return "cast<%s>(%s)" % (short_t(t[1]), t2s(t[2]))
    return "%s(%s)" % (k, ", ".join(t2s(x) for x in t[1:]))


def notargs(t):
    """type name without template arguments"""
    if "<" not in t:
        return t
    out, d = [], 0
    for c in t:
        if c == "<":
            d += 1
        elif c == ">":
            d -= 1
        elif d == 0:
            out.append(c)
    return "".join(out)


def last(qn):
    i = qn.rfind("::")
    return qn[i + 2:] if i >= 0 else qn


def short(qn):
    for p in ("psr::", "llvm::"):
        if qn.startswith(p):
            return qn[len(p):]
    return qn


def short_t(t):
    return last(notargs(t))


TRUE, FALSE, NULL, THIS = ("bool", True), ("bool", False), ("null",), ("this",)


def is_const(t):
    return t[0] in ("int", "bool", "null", "enum", "str", "fn", "char")


def strip(t):
    """object identity: drop address/dereference wrappers"""
    while isinstance(t, tuple) and t[0] in ("deref", "addr"):
        t = t[1]
    return t


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t[1:] if t and isinstance(t[0], str) else t:
            yield from subterms(x)


def contains(t, u):
    return any(x == u for x in subterms(t))


class Ev:
    __slots__ = ("kind", "name", "obj", "args", "term", "line", "file", "pure",
                 "loop", "facts", "fid", "ret", "depth")

    def __init__(self, kind, name="", obj=None, args=(), term=None, line=0,
                 file="", pure=False, loop=None, facts=None, fid=None,
                 depth=0):
        self.kind = kind
        self.name = name
        self.obj = obj
        self.args = args
        self.term = term
        self.line = line
        self.file = file
        self.pure = pure
        self.loop = loop
        self.facts = facts
        self.fid = fid
        self.depth = depth

    def key(self):
        return (self.kind, self.name, self.obj, self.args, self.term,
                id(self.loop) if self.loop else None)

    def s(self):
        if self.kind == "loop":
            return "loop over %s" % t2s(self.loop.container)
        if self.kind == "write":
            return "%s := %s" % (t2s(self.obj), t2s(self.args[0]))
        if self.kind == "call":
            return t2s(self.term)
        return self.kind + " " + t2s(self.term)

    def where(self):
        return "%s:%d" % (rel(self.file), self.line)


def textual(t):
    """a string: concatenation does not commute"""
    if t[0] == "str":
        return True
    if t[0] == "op" and t[1] == "+":
        return textual(t[2]) or textual(t[3])
    return t[0] == "call" and last(t[1]) in ("str", "to_string", "toString")


def truthy(t):
    if t == NULL or t2s(t) == "@std::nullopt":
        return FALSE
    return ("truthy", t)


class Loop:
    # carry: ("next"|"exit", {loop-carried symbol: its value there}, pc) for
    # every way to start the next iteration or to leave the loop normally
    __slots__ = ("kind", "container", "paths", "line", "file", "id", "cond",
                 "exits", "entry", "carry")


class State:
    __slots__ = ("env", "mem", "facts", "pc", "ev", "exit", "ret", "ver",
                 "vers")

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.facts = {}   # what is known now (used to prune branches)
        self.pc = {}      # every branch outcome that leads here (for rules)
        self.ev = ()
        self.exit = None
        self.ret = None
        self.ver = 0
        self.vers = {}    # container -> number of changes (see `versions`)

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.pc = dict(self.pc)
        s.ev = self.ev
        s.exit = self.exit
        s.ret = self.ret
        s.ver = self.ver
        s.vers = self.vers
        return s

    # ---- queries used by rules -------------------------------------
    def fact(self, cond):
        """True/False/None: polarity of a normalised condition string/term"""
        if isinstance(cond, str):
            for k, v in self.pc.items():
                if t2s(k) == cond:
                    return v
            return None
        return self.pc.get(cond)

    def assume(self, c, v):
        self.facts[c] = v
        self.pc[c] = v

    def facts_s(self):
        return sorted(("" if v else "!") + t2s(k)
                      for k, v in self.pc.items())

    def events(self, deep=True, _ctx=()):
        """(event, loop context, path-local facts) in order, into loops"""
        for e in self.ev:
            yield e
            if deep and e.kind == "loop":
                for p in e.loop.paths:
                    yield from p.events(True)


class Unanalysable(CheckError):
    pass


CMP = {"==", "!=", "<", ">", "<=", ">="}
OPCMP = {"operator" + o: o for o in CMP}
ARITH = {"operator+": "+", "operator-": "-", "operator*": "*",
         "operator/": "/", "operator%": "%", "operator&": "&",
         "operator|": "|", "operator^": "^", "operator<<": "<<",
         "operator>>": ">>"}

IDENT_FNS = {"std::move", "std::forward", "std::as_const", "std::ref",
             "std::cref", "std::addressof", "llvm::make_range_", "std::launder",
             "std::move_if_noexcept"}
BEGIN = {"begin", "cbegin"}
END = {"end", "cend"}
CONTAINER_PREFIX = ("std::", "llvm::", "__gnu_cxx::")
# std/llvm free functions whose call has no effect on program state
PURE_NS = ("std::", "llvm::", "__gnu_cxx::", "nlohmann::")
IMPURE_STD = {"std::sort", "llvm::sort", "std::swap", "llvm::append_range",
              "llvm::erase_if", "llvm::erase_value", "std::copy", "llvm::copy",
              "std::transform", "llvm::transform", "std::iter_swap",
              "std::exchange", "std::fill", "std::move_backward",
              "std::remove_if", "llvm::for_each", "std::for_each",
              "std::terminate", "std::abort", "std::exit", "std::iota",
              "std::inserter", "std::advance", "std::swap_ranges",
              "std::unique", "std::reverse", "std::stable_sort",
              "std::rotate"}

DROP_CALL_PREFIX = ("psr::Logger::", "psr::PAMM::")


class Engine:
    def __init__(self, facts, stop=(), inline=None, keep_logs=False,
                 opaque=None, keep_icast=False, max_depth=MAX_DEPTH,
                 max_states=MAX_STATES, inline_virtual=None,
                 no_inline=None, keep_mem=False, versions=False,
                 merge=False, copies=(), moves=True):
        self.moves = moves
        # classes whose copies are kept apart from the original
        self.copies = copies
        # ways through a statement that go on are merged into one state
        # behind a "gate" event that keeps them apart
        self.merge = merge
        # results of const calls on an object differ before and after a call
        # that may change the object
        self.versions = versions
        self.F = facts
        self.stop = set(stop)
        self.inline_pred = inline
        self.keep_logs = keep_logs
        self.no_inline = no_inline
        # containers and records keep their identity: reads are not replaced
        # by the value stored last, accesses with [] are recorded
        self.keep_mem = keep_mem
        self.opaque = opaque or (lambda d: False)
        self.keep_icast = keep_icast
        self.max_depth = max_depth
        self.max_states = max_states
        self.inline_virtual = inline_virtual
        self.loop_no = 0
        self.root = None
        self.stack = []
        self.n_paths = 0
        self.calls_seen = 0
        self.closures = {}
        self.inlined = set()
        self.loop_cache = {}

    # ------------------------------------------------------------ driver
    def run(self, fn, this=THIS, args=None, env=None, init_facts=None,
            lam_params=False):
        self.root = fn
        self.stack = [fn.id]
        self.filestack = [fn.file]
        s = State()
        if env:
            s.env.update(env)
        if init_facts:
            s.facts.update(init_facts)
            s.pc.update(init_facts)
        for i, (pid, pn, pt) in enumerate(fn.ps):
            s.env[pid] = (args[i] if args else
                          (("lp", i, pn) if lam_params else ("param", i, pn)))
        s.env["this"] = this
        states = [s]
        for ini in fn.inits or []:
            if ini[1] is None:
                continue
            ns = []
            for st in states:
                for st2, v in self.ex(ini[1], st):
                    if ini[0] not in ("(base)", "(delegating)"):
                        lv = ("fld", this, ini[0])
                        self.write(st2, lv, v, fn.line)
                    else:
                        st2.ev += (Ev("call", "(base-init)" if ini[0] ==
                                      "(base)" else "(delegating-init)",
                                      this, (v,), ("call", ini[0], this, (v,)),
                                      fn.line, fn.file),)
                    ns.append(st2)
            states = ns
        out = self.block([fn.body], states)
        for o in out:
            if o.exit is None:
                o.exit = "end"
        self.n_paths += len(out)
        return out

    def run_closure(self, lam, st):
        """Analyse the body of a closure term with its captured environment."""
        fid, line, caps = lam[1], lam[2], lam[3]
        fn = self.F.definition(fid)
        if fn is None:
            raise CheckError("lambda body not found")
        env = dict(st.env)
        for did, term in caps:
            env[did] = term
        saved = (self.root, self.stack, getattr(self, "filestack", []))
        this = env.get("this", THIS)
        r = self.run(fn, this=this, env=env, lam_params=True)
        self.root, self.stack, self.filestack = saved
        return r

    def curfile(self):
        return self.filestack[-1]

    # ------------------------------------------------------- statements
    def block(self, stmts, states):
        done = []
        cur = states
        for s in stmts:
            if s is None:
                continue
            nxt = []
            for st in cur:
                if st.exit is not None:
                    done.append(st)
                    continue
                base = st.copy() if self.merge else st
                r = self.stmt(s, st)
                if self.merge:
                    r = self.gate(base, r)
                nxt.extend(r)
            cur = self.join(nxt)
            if len(cur) + len(done) > self.max_states:
                raise Unanalysable(
                    "%s: more than %d abstract states" %
                    (self.root, self.max_states))
            if not cur:
                break
        return done + cur

    def gate(self, st, r):
        live = [x for x in r if x.exit is None]
        if len(live) < 2:
            return r
        self.loop_no += 1
        g = Loop()
        g.kind, g.container, g.cond = "gate", None, None
        g.id, g.file = self.loop_no, self.curfile()
        g.exits, g.entry, g.carry, g.paths = [], {}, [], []
        m = st.copy()
        for x in live:
            p = x.copy()
            p.ev = x.ev[len(st.ev):]
            p.pc = {k: v for k, v in x.pc.items() if st.pc.get(k) != v}
            g.paths.append(p)
            m.ver = max(m.ver, x.ver)
        g.line = next((e.line for p in g.paths for e in p.ev), 0)
        for n in ("env", "mem"):
            ds = [getattr(x, n) for x in live]
            new = {}
            for k in set().union(*ds):
                vs = [d.get(k) for d in ds]
                if all(v == vs[0] for v in vs):
                    new[k] = vs[0]
                elif n == "env" or None not in vs:
                    new[k] = ("phi", str(k)[:40], g.id)
                else:
                    new[k] = ("phi", t2s(k)[:40], g.id)
            setattr(m, n, new)
        m.facts = {k: v for k, v in live[0].facts.items()
                   if all(x.facts.get(k) == v for x in live)}
        m.vers = {}
        for x in live:
            for k, v in x.vers.items():
                m.vers[k] = max(v, m.vers.get(k, v))
        m.ev += (Ev("loop", loop=g, line=g.line, file=g.file),)
        return [x for x in r if x.exit is not None] + [m]

    def join(self, states):
        """merge states that differ only in branch facts"""
        if len(states) < 2:
            return states
        groups = {}
        order = []
        for s in states:
            k = (s.exit, s.ret, tuple(e.key() for e in s.ev),
                 frozenset(s.env.items()), frozenset(s.mem.items()))
            if k in groups:
                groups[k].append(s)
            else:
                groups[k] = [s]
                order.append(k)
        out = []
        for k in order:
            g = groups[k]
            if len(g) == 1:
                out.append(g[0])
                continue
            out.extend(self.join_facts(g))
        return out

    @staticmethod
    def join_facts(g):
        """exact merging: two states whose facts differ in the polarity of one
        condition only are replaced by one without that condition"""
        fs = [dict(s.pc) for s in g]
        changed = True
        alive = list(range(len(g)))
        while changed:
            changed = False
            idx = {}
            for i in alive:
                idx.setdefault(frozenset(fs[i].items()), i)
            if len(idx) < len(alive):
                for i in alive:
                    j = idx[frozenset(fs[i].items())]
                    if j != i:
                        fi = g[i].facts
                        g[j].facts = {a: b for a, b in g[j].facts.items()
                                      if fi.get(a) is b}
                alive = list(idx.values())
                changed = True
            seen = set(idx)
            for i in list(alive):
                for k, v in fs[i].items():
                    other = frozenset((fs[i].items() - {(k, v)}) | {(k, not v)})
                    if other in seen:
                        j = idx[other]
                        if j == i or j not in alive or i not in alive:
                            continue
                        del fs[i][k]
                        fj = g[j].facts
                        g[i].facts = {a: b for a, b in g[i].facts.items()
                                      if fj.get(a) is b}
                        alive.remove(j)
                        changed = True
                        break
                if changed:
                    break
        out = []
        for i in alive:
            g[i].pc = fs[i]
            out.append(g[i])
        return out

    def stmt(self, s, st):
        t = s[0]
        if t == "{":
            return self.block(s[2], [st])
        if t == "e":
            return [x for x, _ in self.ex(s[2], st)]
        if t == "decl":
            sts = [st]
            for d in s[2]:
                sts = [z for y in sts if y.exit is None
                       for z in self.decl(d, y, s[1])] + \
                      [y for y in sts if y.exit is not None]
            return sts
        if t == "ret":
            if s[2] is None:
                st.exit = "return"
                return [st]
            out = []
            for x, v in self.ex(s[2], st):
                if x.exit is None:
                    x.exit = "return"
                    x.ret = v
                    x.mem["(retline)"] = s[1]
                out.append(x)
            return out
        if t == "if":
            sts = [st]
            if s[2] is not None:
                sts = self.stmt(s[2], st)
            out = []
            for x in sts:
                if x.exit is not None:
                    out.append(x)
                    continue
                if s[3]:
                    ys = self.decl(s[3], x, s[1])
                else:
                    ys = [x]
                for y in ys:
                    if y.exit is not None:
                        out.append(y)
                        continue
                    if self.is_log_cond(s[4]):
                        out.append(y)
                        continue
                    for z, b in self.cond(s[4], y):
                        if z.exit is not None:
                            out.append(z)
                        elif b:
                            out.extend(self.stmt(s[5], z) if s[5] else [z])
                        else:
                            out.extend(self.stmt(s[6], z) if s[6] else [z])
            return self.join(out)
        if t == "sw":
            return self.switch(s, st)
        if t == "brk":
            st.exit = "break"
            return [st]
        if t == "cont":
            st.exit = "continue"
            return [st]
        if t == "rfor":
            sts = [st]
            if s[8] is not None:
                sts = self.stmt(s[8], st)
            out = []
            for x in sts:
                for y, c in self.ex(s[5], x):
                    if y.exit is not None:
                        out.append(y)
                        continue
                    out.extend(self.loop("range", s, y, c))
            return self.join(out)
        if t == "do" and self.const_false(s[3]):
            # do { ... } while (false): the body, once
            res = self.stmt(s[2], st)
            for r in res:
                if r.exit in ("break", "continue"):
                    r.exit = None
            return self.join(res)
        if t in ("while", "do", "for"):
            sts = [st]
            if t == "for" and s[2] is not None:
                sts = self.stmt(s[2], st)
            out = []
            for x in sts:
                if x.exit is not None:
                    out.append(x)
                else:
                    out.extend(self.loop(t, s, x, None))
            return self.join(out)
        if t == "try":
            handlers = []
            base = st.copy()
            for h in s[3]:
                b = base.copy()
                b.assume(("caught", s[1]), True)
                handlers.extend(self.stmt(h, b))
            return self.stmt(s[2], st) + handlers
        if t == "label":
            return self.stmt(s[3], st)
        if t == "goto":
            raise Unanalysable("goto in %s" % self.root)
        raise Unanalysable("statement %s in %s" % (s, self.root))

    def is_log_cond(self, e):
        if self.keep_logs:
            return False
        from facts import walk_ex
        for x in walk_ex(e):
            if x[0] == "call" and x[2].startswith(DROP_CALL_PREFIX):
                return True
        return False

    def decl(self, d, st, line):
        did, name, ty, init, static, binds = d
        if static:
            st.env[did] = ("glob", "static:" + name)
            if init is not None:
                out = []
                for x, v in self.ex(init, st):
                    x.mem[("glob", "static:" + name)] = v
                    x.env[did] = v if self.simple_static(v) else x.env[did]
                    out.append(x)
                return out
            return [st]
        if init is None:
            st.env[did] = ("loc", name, did)
            return [st]
        out = []
        for x, v in self.ex(init, st):
            if x.exit is None:
                if not ty.endswith(("&", "*")) and (
                        v[0] in ("ctor", "il") and (
                            self.is_container(ty) or self.keep_mem and
                            ty.replace("const ", "").startswith("psr::")) or
                        self.keep_mem and v[0] == "call" and
                        "basic_json" in ty or
                        self.keep_mem == 2 and self.is_container(ty)):
                    lv = ("loc", name, did)
                    x.env[did] = lv
                    x.ev += (Ev("init", name, lv, (v,), v, line,
                                self.curfile()),)
                    x.mem[lv] = v
                else:
                    x.env[did] = v
            out.append(x)
        return out

    @staticmethod
    def simple_static(v):
        return v[0] in ("int", "str", "bool")

    @staticmethod
    def is_container(ty):
        t = ty.replace("const ", "")
        return t.startswith(("std::", "llvm::", "__gnu_cxx::", "nlohmann::")) and \
            not t.startswith(("std::pair<", "std::tuple<", "std::unique_ptr",
                              "std::optional", "std::variant", "llvm::Optional",
                              "std::shared_ptr",
                              "std::function", "llvm::function_ref",
                              "llvm::ArrayRef", "llvm::StringRef",
                              "std::basic_string_view", "std::reference_wrapper",
                              "llvm::PointerIntPair")) and "*" not in t.split("<")[0]

    def switch(self, s, st):
        sts = [st]
        if s[2] is not None:
            sts = self.stmt(s[2], st)
        out = []
        body = s[5]
        labels = []
        for i, x in enumerate(body):
            if x[0] in ("case", "default"):
                labels.append((i, x))
        for x in sts:
            ys = self.decl(s[3], x, s[1]) if s[3] else [x]
            for y in ys:
                for z, v in self.ex(s[4], y):
                    if z.exit is not None:
                        out.append(z)
                        continue
                    cur = z
                    entries = []
                    dflt = None
                    dead = False
                    # merge fallthrough labels that share a body
                    for i, l in labels:
                        if l[0] == "default":
                            dflt = i
                            continue
                        for w, cv in self.ex(l[2], cur.copy()):
                            cterm = self.eq(v, cv)
                            break
                        d = self.decide(cur, cterm)
                        if d is True:
                            entries.append((i, cur.copy()))
                            dead = True
                            break
                        if d is False:
                            continue
                        a = cur.copy()
                        a.assume(cterm, True)
                        entries.append((i, a))
                        cur.assume(cterm, False)
                    if not dead:
                        if self.exhausted(s[6], v, cur):
                            pass
                        elif dflt is not None:
                            entries.append((dflt, cur))
                        else:
                            out.append(cur)
                    for i, e in entries:
                        res = self.block([b for b in body[i:]
                                          if b[0] not in ("case", "default")],
                                         [e])
                        for r in res:
                            if r.exit == "break":
                                r.exit = None
                            out.append(r)
        return self.join(out)

    def exhausted(self, ty, v, st):
        """all enumerators of an enum are excluded"""
        t = ty.replace("const ", "").rstrip("& ")
        e = None
        for q, en in self.F.enums.items():
            if q == t:
                e = en
        if not e:
            return False
        for n, val in e["consts"]:
            q = e["qn"]
            scoped = q + "::" + n
            un = (q.rsplit("::", 1)[0] + "::" if "::" in q else "") + n
            if st.facts.get(self.eq(v, ("enum", scoped, val))) is False or \
               st.facts.get(self.eq(v, ("enum", un, val))) is False:
                continue
            # by value
            if any(k[0] == "op" and k[1] == "==" and val2 is False and
                   k[2] == v and k[3][0] == "enum" and k[3][2] == val
                   for k, val2 in st.facts.items()):
                continue
            return False
        return True

    # ----------------------------------------------------------- loops
    def loop(self, kind, s, st, container):
        self.loop_no += 1
        lid = self.loop_no
        line = s[1]
        base_env, base_mem = dict(st.env), dict(st.mem)
        hav_env, hav_mem = {}, {}
        indvars = {}
        entry = st
        if kind == "do":
            body, condex, inc, cv = s[2], s[3], None, None
        elif kind == "while":
            body, condex, inc, cv = s[4], s[3], None, s[2]
        elif kind == "for":
            body, condex, inc, cv = s[5], s[3], s[4], s[6]
        else:
            body, condex, inc, cv = s[6], None, None, None
        rounds = 0
        while True:
            rounds += 1
            b = State()
            b.env = dict(base_env)
            b.env.update(hav_env)
            b.mem = dict(base_mem)
            for k, v in hav_mem.items():
                b.mem.pop(k, None)
            b.facts = {k: v for k, v in st.facts.items()
                       if not self.unstable(k, hav_env, hav_mem)}
            b.pc = {}
            b.ev = ()
            b.ver = st.ver
            lo = self.loop_no
            ends, exits = [], []
            if kind == "range":
                elem = ("elem", self.norm_container(strip(container), b), lid)
                self.bind_loop_var(s, b, elem)
                body_states = self.stmt(body, b)
            else:
                pre = [b]
                if cv:
                    pre = self.decl(cv, b, line)
                body_states = []
                for p in pre:
                    if kind == "do" or condex is None:
                        body_states.extend(self.stmt(body, p))
                        continue
                    for q, tv in self.cond(condex, p):
                        if q.exit is not None:
                            exits.append(q)
                        elif tv:
                            body_states.extend(self.stmt(body, q))
                        else:
                            exits.append(q)   # normal exit
            cont = []
            for q in body_states:
                if q.exit in (None, "continue"):
                    q.exit = None
                    if kind == "do" and condex is not None:
                        for r, tv in self.cond(condex, q):
                            (cont if tv else exits).append(r)
                            if not tv:
                                pass
                    elif inc is not None:
                        for r, _ in self.ex(inc, q):
                            cont.append(r)
                    else:
                        cont.append(q)
                else:
                    exits.append(q)
            # what may change between iterations?
            new_env, new_mem = {}, {}
            for q in cont:
                for k, v in q.env.items():
                    if k in base_env and base_env[k] != v and k not in hav_env:
                        if v == ("loc",) or k == "this":
                            continue
                        new_env.setdefault(k, set()).add(v)
                for k, v in q.mem.items():
                    if k == "(retline)":
                        continue
                    if base_mem.get(k) != v and k not in hav_mem:
                        new_mem[k] = True
                for k in base_mem:
                    if k not in q.mem and k not in hav_mem:
                        new_mem[k] = True
            if not new_env and not new_mem:
                break
            if rounds > 8:
                raise Unanalysable("loop at %s:%d does not stabilise" %
                                   (rel(self.curfile()), line))
            for k, vs in new_env.items():
                hav_env[k] = self.havoc_var(k, base_env[k], vs, lid)
            for k in new_mem:
                hav_mem[k] = True
            self.loop_no = lo
        L = Loop()
        L.kind = kind
        L.line = line
        L.file = self.curfile()
        L.id = lid
        L.container = (self.norm_container(strip(container), st)
                       if kind == "range" else None)
        L.cond = None
        L.exits = []
        L.entry = {}
        for k, v in hav_env.items():
            L.entry[v] = base_env.get(k)
        if kind in ("for", "while") and condex is not None:
            L.container = self.loop_container(hav_env, st)
        paths = [q for q in cont] + [q for q in exits
                                     if q.exit in ("return", "throw",
                                                   "break", "noreturn")]
        L.paths = self.join(paths)
        ev = Ev("loop", "", L.container, (), None, line, self.curfile(),
                loop=L)
        out = []
        # leaving the loop normally: everything the loop may change unknown
        norm = [q for q in exits if q.exit is None]
        L.exits = [dict(q.pc) for q in norm]
        L.carry = [(n, {v: q.env.get(k) for k, v in hav_env.items()},
                    dict(q.pc)) for n, qs in (("next", cont), ("exit", norm))
                   for q in qs]
        after = entry.copy()
        after.env = dict(base_env)
        after.env.update({k: (v if v[0] not in ("iter", "ind") else
                              ("hav", v[2] if v[0] == "iter" else v[1], lid))
                          for k, v in hav_env.items()})
        for k in hav_mem:
            after.mem.pop(k, None)
        after.facts = {k: v for k, v in st.facts.items()
                       if not self.unstable(k, hav_env, hav_mem)}
        after.ev = st.ev + (ev,)
        infinite = (kind in ("while", "do", "for") and
                    (condex is None or self.const_true(condex)))
        if kind == "range":
            out.append(after)
        elif norm:
            seen = set()
            for q in norm:
                a = after.copy()
                for k, v in q.facts.items():
                    if k not in a.facts:
                        a.facts[k] = v
                for k, v in q.pc.items():
                    if k not in a.pc:
                        a.pc[k] = v
                if q.ev and kind == "do":
                    pass
                key = frozenset(a.facts.items())
                if key not in seen:
                    seen.add(key)
                    out.append(a)
        elif not infinite:
            out.append(after)
        for q in exits:
            if q.exit is None:
                continue
            a = q.copy()
            pre = st.ev + (ev,)
            a.ev = pre + tuple(q.ev)
            for k, v in st.pc.items():
                a.pc.setdefault(k, v)
            if q.exit == "break":
                a.exit = None
            out.append(a)
        return out

    def loop_container(self, hav_env, st):
        for k, v in hav_env.items():
            if v[0] == "iter":
                return v[1]
        return None

    @staticmethod
    def const_false(e):
        return e in (["b", 0], ["i", 0]) or (
            e is not None and e[0] == "tobool" and e[1] == ["i", 0])

    def const_true(self, e):
        return e is not None and (e == ["b", 1] or
                                  (e[0] in ("tobool", "icast") and
                                   e[1] in (["i", 1],)))

    def unstable(self, cond, hav_env, hav_mem):
        if not hav_mem:
            return False
        for m in hav_mem:
            if isinstance(m, tuple) and contains(cond, m):
                return True
        return False

    def havoc_var(self, k, entry, vs, lid):
        name = self.var_name(k)
        if all(self.is_step(v, entry) for v in vs):
            if entry[0] == "begin":
                return ("iter", entry[1], lid)
            if entry[0] == "int":
                return ("ind", name, lid)
        return ("hav", name, lid)

    def is_step(self, v, entry):
        if entry[0] == "int" and v[0] == "int":
            return isinstance(v[1], int) and abs(v[1] - entry[1]) == 1
        return v[0] == "op" and v[1] in ("+", "-") and v[2] == entry and \
            v[3] == ("int", 1)

    def var_name(self, k):
        return "v%s" % (k,) if not isinstance(k, str) else k

    def bind_loop_var(self, s, b, elem):
        b.env[s[2]] = elem

    def norm_container(self, c, st):
        # ranges that only select all elements of something
        while True:
            if c[0] == "call" and c[1] in ("llvm::make_range",) and \
                    len(c[3]) == 2 and c[3][0][0] == "begin":
                c = c[3][0][1]
                continue
            if c[0] == "call" and last(c[1]) in ("asRef",):
                c = c[2] or c[3][0]
                continue
            return c

    # ---------------------------------------------------- conditions
    def decide(self, st, c):
        """syntactic decision of a normalised condition in a state"""
        if c[0] == "bool":
            return c[1]
        if c[0] == "int":
            return c[1] != 0
        if c[0] == "null":
            return False
        if c[0] in ("lam", "ctor") and c[0] == "lam":
            return True
        v = st.facts.get(c)
        if v is not None:
            return v
        if c[0] == "op" and c[1] == "==":
            a, b = c[2], c[3]
            if a == b and not self.impure_term(a):
                return True
            if is_const(a) and is_const(b):
                return self.same_const(a, b)
            if b[0] == "null" and a[0] in ("addr", "new", "this", "lam", "fn",
                                           "str"):
                return False
            # x == K1 known true, asked for x == K2
            if is_const(b):
                for k, val in st.facts.items():
                    if val and k[0] == "op" and k[1] == "==" and k[2] == a \
                            and is_const(k[3]):
                        return self.same_const(k[3], b)
                if b[0] == "null":
                    for k, val in st.facts.items():
                        if val and k[0] == "isa" and k[2] == a:
                            return False
                    if a[0] == "as":
                        r = st.facts.get(("isa", a[1], a[2]))
                        if r is not None:
                            return not r
        if c[0] == "isa":
            n = st.facts.get(("op", "==", c[2], NULL))
            if n is True:
                return False
        if c[0] == "op" and c[1] == "<" and is_const(c[2]) and is_const(c[3]) \
                and c[2][0] == c[3][0] == "int":
            return c[2][1] < c[3][1]
        if c[0] == "empty":
            m = c[1]
            if m[0] == "il":
                return len(m[2]) == 0
        return None

    @staticmethod
    def same_const(a, b):
        if a[0] == "enum" and b[0] == "enum":
            return a[1] == b[1] or (a[2] == b[2] and
                                    a[1].rsplit("::", 1)[0] ==
                                    b[1].rsplit("::", 1)[0])
        va = a[2] if a[0] == "enum" else (a[1] if len(a) > 1 else None)
        vb = b[2] if b[0] == "enum" else (b[1] if len(b) > 1 else None)
        if a[0] == "null" or b[0] == "null":
            return a[0] == b[0]
        return va == vb

    def impure_term(self, t):
        return any(x[0] == "call" and len(x) > 4 and x[4] for x in subterms(t))

    def eq(self, a, b):
        a, b = self.unaddr(a), self.unaddr(b)
        if is_const(a) and not is_const(b):
            a, b = b, a
        elif not is_const(a) and not is_const(b) and repr(a) > repr(b):
            a, b = b, a
        # iterator comparisons
        for x, y in ((a, b), (b, a)):
            if y[0] == "end":
                if x[0] == "find" and x[1] == y[1]:
                    return ("not", ("has", x[1], x[2]))
                if x[0] == "begin" and x[1] == y[1]:
                    return ("empty", x[1])
        if b[0] == "int" and b[1] == 0 and a[0] == "call" and \
                last(a[1]) == "size" and a[2] is not None:
            return ("empty", a[2])
        if b[0] == "int" and b[1] == 0 and a[0] == "call" and \
                last(a[1]) == "count" and a[2] is not None and len(a[3]) == 1:
            return ("not", ("has", a[2], a[3][0]))
        if b[0] == "null" and a[0] == "as":
            return ("not", ("isa", a[1], a[2]))
        if b[0] == "bool":
            return a if b[1] else ("not", a)
        return ("op", "==", a, b)

    @staticmethod
    def unaddr(t):
        return t

    def truth(self, t, ty=""):
        """condition term for 't is truthy'"""
        if t[0] in ("bool", "int", "null"):
            return ("bool", bool(t[1]) if t[0] != "null" else False)
        if t[0] == "as":
            return ("isa", t[1], t[2])
        if t[0] == "isa" or t[0] in ("has", "empty", "not", "truthy"):
            return t
        if t[0] == "op" and t[1] in ("==", "<"):
            return t
        if t[0] == "call" and last(t[1]) == "count" and t[2] is not None and \
                len(t[3]) == 1:
            return ("has", t[2], t[3][0])
        if t[0] == "call" and last(t[1]) == "size" and t[2] is not None and \
                not t[3]:
            return ("not", ("empty", t[2]))
        if ty.endswith("*") or ty.endswith("*const"):
            return ("not", ("op", "==", t, NULL))
        return t

    def branch(self, st, c):
        """-> [(state, bool)] for normalised condition term c"""
        neg = False
        while c[0] == "not":
            neg = not neg
            c = c[1]
        if c[0] == "cond":
            out = []
            for s1, b in self.branch(st, c[1]):
                out.extend(self.branch(s1, self.truth(c[2] if b else c[3])))
            return [(s1, b != neg) for s1, b in out]
        d = self.decide(st, c)
        if d is not None:
            return [(st, d != neg)]
        a = st.copy()
        a.assume(c, True)
        st.assume(c, False)
        return [(a, True != neg), (st, False != neg)]

    def cond(self, e, st):
        if e is None:
            return [(st, True)]
        t = e[0]
        if t == "un" and e[1] == "!":
            return [(s, not b) for s, b in self.cond(e[2], st)]
        if t == "bin" and e[1] == "&&":
            out = []
            for s, b in self.cond(e[2], st):
                if s.exit is not None or not b:
                    out.append((s, b))
                else:
                    out.extend(self.cond(e[3], s))
            return self.join_cond(out)
        if t == "bin" and e[1] == "||":
            out = []
            for s, b in self.cond(e[2], st):
                if s.exit is not None or b:
                    out.append((s, b))
                else:
                    out.extend(self.cond(e[3], s))
            return self.join_cond(out)
        if t == "cond":
            out = []
            for s, b in self.cond(e[1], st):
                if s.exit is not None:
                    out.append((s, False))
                else:
                    out.extend(self.cond(e[2] if b else e[3], s))
            return self.join_cond(out)
        if t == "icast" and not self.keep_icast:
            return self.cond(e[2], st)
        if t == "tobool":
            out = []
            for s, v in self.ex(e[1], st):
                if s.exit is not None:
                    out.append((s, False))
                else:
                    out.extend(self.branch(s, self.truth(v, e[2])))
            return out
        out = []
        for s, v in self.ex(e, st):
            if s.exit is not None:
                out.append((s, False))
            else:
                out.extend(self.branch(s, self.truth(v)))
        return out

    def join_cond(self, prs):
        ts = self.join([s for s, b in prs if b])
        fs = self.join([s for s, b in prs if not b])
        return [(s, True) for s in ts] + [(s, False) for s in fs]

    # ---------------------------------------------------- expressions
    def exl(self, es, st):
        """evaluate a list left to right -> [(state, tuple)]"""
        acc = [(st, ())]
        for e in es:
            nxt = []
            for s, vs in acc:
                if s.exit is not None:
                    nxt.append((s, vs))
                    continue
                for s2, v in self.ex(e, s):
                    nxt.append((s2, vs + (v,)))
            acc = nxt
        return acc

    def ex1(self, e, st, f):
        return [(s, f(v) if s.exit is None else v) for s, v in self.ex(e, st)]

    def ex(self, e, st):
        if e is None:
            return [(st, ("none",))]
        t = e[0]
        m = getattr(self, "x_" + t, None)
        if m is None:
            if t == "?":
                return self.x_unknown(e, st)
            raise Unanalysable("expression %s" % t)
        return m(e, st)

    def x_unknown(self, e, st):
        out = []
        for s, vs in self.exl(e[2], st):
            out.append((s, ("unk", e[1]) + vs))
        return out

    def x_i(self, e, st):
        return [(st, ("int", e[1]))]

    def x_b(self, e, st):
        return [(st, TRUE if e[1] else FALSE)]

    def x_s(self, e, st):
        return [(st, ("str", e[1]))]

    def x_fl(self, e, st):
        return [(st, ("flt", e[1]))]

    def x_nul(self, e, st):
        return [(st, NULL)]

    def x_this(self, e, st):
        return [(st, st.env.get("this", THIS))]

    def x_en(self, e, st):
        return [(st, ("enum", e[1], e[2]))]

    def x_fn(self, e, st):
        return [(st, ("fn", e[2]))]

    def x_sizeof(self, e, st):
        return [(st, ("unk", "sizeof"))]

    def x_zero(self, e, st):
        ty = e[1]
        if ty in ("bool",):
            return [(st, FALSE)]
        if ty.endswith("*"):
            return [(st, NULL)]
        if ty in ("int", "unsigned int", "unsigned long", "long", "char"):
            return [(st, ("int", 0))]
        return [(st, ("ctor", ty, ()))]

    def x_typeid(self, e, st):
        return [(st, ("unk", "typeid"))]

    def x_v(self, e, st):
        did, name, kind = e[1], e[2], e[3]
        if did in st.env:
            return [(st, st.env[did])]
        if kind in ("g", "s"):
            g = self.F.globs.get(did)
            if g is None and len(e) > 5:
                g = self.F.glob_qn.get(e[5])
            if g is not None and "val" in g and isinstance(g["val"], int):
                if g["t"].replace("const ", "") == "bool":
                    return [(st, ("bool", bool(g["val"])))]
                return [(st, ("int", g["val"]))]
            if g is not None and "init" in g and g["init"] is not None and \
                    g["init"][0] == "s":
                return [(st, ("str", g["init"][1]))]
            return [(st, ("glob", e[5] if len(e) > 5 else name))]
        return [(st, ("loc", name, did))]

    def x_bind(self, e, st):
        def f(v):
            return self.field(st, strip(v), self.bind_name(e, v), e[4])
        return self.ex1(e[1], st, f)

    @staticmethod
    def bind_name(e, v):
        if e[3]:
            return e[3]
        if "std::pair<" in e[6][:24]:
            return ("first", "second")[e[2]] if e[2] in (0, 1) else "?"
        return "get%d" % e[2]

    def x_m(self, e, st):
        out = []
        for s, b in self.ex(e[1], st):
            out.append((s, self.field(s, strip(b), e[2], e[4])))
        return out

    def field(self, st, b, name, ty=""):
        lv = ("fld", b, name)
        if lv in st.mem and not (self.keep_mem and
                                 st.mem[lv][0] == "ctor"):
            return st.mem[lv]
        # field of a value built in place
        if b[0] in ("ctor", "il"):
            v = self.field_of_value(st, b, name)
            if v is not None and not (self.keep_mem and v[0] == "ctor"):
                return v
        if b[0] == "cond":
            x = self.field(st, strip(b[2]), name)
            y = self.field(st, strip(b[3]), name)
            return ("cond", b[1], x, y)
        if name == "second" and b[0] == "entry":
            return ("idx", b[1], b[2])
        if name == "first" and b[0] == "entry":
            return b[2]
        return lv

    def field_of_value(self, st, b, name):
        tyname = b[1]
        base = tyname.split("<")[0]
        args = b[2]
        if base in ("std::pair",):
            if len(args) == 2:
                return args[0] if name == "first" else args[1]
            if len(args) == 1 and args[0][0] in ("il", "ctor"):
                return self.field_of_value(st, args[0], name)
            return None
        if base == "std::tuple" and name.startswith("get"):
            i = int(name[3:])
            return args[i] if i < len(args) else None
        r = self.F.rec(base, tyname)
        if r is None:
            return None
        names = [f[0] for f in r["fields"]]
        if b[0] == "il":
            nb = len(r["bases"])
            i = names.index(name) + nb if name in names else -1
            if 0 <= i < len(args):
                return args[i]
            return None
        # constructor: look at its member initialisers
        cid = b[3] if len(b) > 3 else None
        fn = self.F.definition(cid) if cid else None
        if fn is None:
            return None
        for ini in fn.inits or []:
            if ini[0] == name and ini[1] is not None:
                if len(fn.ps) != len(args):
                    return None
                s = State()
                s.env["this"] = b
                for (pid, _, _), a in zip(fn.ps, args):
                    s.env[pid] = a
                r = self.ex(ini[1], s)
                if len(r) == 1:
                    v = r[0][1]
                    return v
        return None

    def x_tobool(self, e, st):
        return self.boolval(e, st)

    def boolval(self, e, st):
        """evaluate a condition to a boolean value; splits"""
        return [(s, TRUE if b else FALSE) if s.exit is None else (s, FALSE)
                for s, b in self.cond(e, st)]

    def x_tovoid(self, e, st):
        return self.ex(e[1], st)

    def x_icast(self, e, st):
        if self.keep_icast:
            return self.ex1(e[2], st, lambda v: v if is_const(v) else
                            ("cast", e[1], v))
        return self.ex(e[2], st)

    def x_cast(self, e, st):
        to, frm = e[1], e[3]
        if self.keep_icast and self.is_int(to) and self.is_int(frm) and \
                to != frm:
            return self.ex1(e[2], st, lambda v: v if is_const(v) else
                            ("cast", to, v))
        if e[4] == "dynamic":
            return self.ex1(e[2], st, lambda v: ("as", to, v))
        return self.ex(e[2], st)

    @staticmethod
    def is_int(t):
        t = t.replace("const ", "")
        return t in ("int", "unsigned int", "long", "unsigned long", "char",
                     "short", "unsigned short", "unsigned char", "signed char",
                     "long long", "unsigned long long", "bool")

    def x_cond(self, e, st):
        out = []
        for s, b in self.cond(e[1], st):
            if s.exit is not None:
                out.append((s, ("none",)))
            else:
                out.extend(self.ex(e[2] if b else e[3], s))
        return out

    def x_sub(self, e, st):
        out = []
        for s, (b, i) in [(s, v) for s, v in self.exl([e[1], e[2]], st)
                          if s.exit is None or True]:
            out.append((s, self.index(s, strip(b), i)))
        return out

    def index(self, st, b, i):
        if i[0] == "ind":
            e = ("elem", b, i[2])
            return st.mem.get(e, e)
        lv = ("idx", b, i)
        if self.keep_mem:
            st.ev += (Ev("touch", "[]", lv, (), lv, 0, self.curfile()),)
            return lv
        if lv in st.mem:
            return st.mem[lv]
        return lv

    def x_il(self, e, st):
        out = []
        for s, vs in self.exl(e[1], st):
            ty = e[2]
            if len(vs) == 1 and not ty.startswith(("std::", "llvm::")) and \
                    "[" not in ty and self.F.rec(ty.split("<")[0]) is None:
                out.append((s, vs[0]))   # scalar in braces
            elif not vs and ty.endswith("*"):
                out.append((s, NULL))
            elif not vs and ty == "bool":
                out.append((s, FALSE))
            elif not vs and ty in ("int", "unsigned int", "unsigned long"):
                out.append((s, ("int", 0)))
            elif not vs:
                out.append((s, ("ctor", ty, ())))
            else:
                out.append((s, ("il", ty, vs)))
        return out

    def x_new(self, e, st):
        out = []
        for s, vs in self.exl([e[2]] + e[3] if e[2] is not None else e[3], st):
            if s.exit is None:
                tm = ("new", e[1], vs[0] if vs and e[2] is not None else None,
                      vs[1:] if e[2] is not None else vs)
                s.ev += (Ev("new", e[1], None, vs, tm, e[4], self.curfile()),)
                out.append((s, tm))
            else:
                out.append((s, ("none",)))
        return out

    def x_del(self, e, st):
        out = []
        for s, v in self.ex(e[1], st):
            if s.exit is None:
                s.ev += (Ev("delete", e[3], v, (), ("delete", v), e[2],
                            self.curfile()),)
            out.append((s, ("none",)))
        return out

    def x_throw(self, e, st):
        out = []
        for s, v in (self.ex(e[1], st) if e[1] is not None
                     else [(st, ("none",))]):
            s.exit = s.exit or "throw"
            out.append((s, ("none",)))
        return out

    def x_stmtexpr(self, e, st):
        return [(s, ("unk", "stmtexpr")) for s in self.stmt(e[1], st)]

    def x_lam(self, e, st):
        caps = []
        sts = [st]
        for c in e[2]:
            if c[1] == "this" and not c[0]:
                caps.append(("this", st.env.get("this", THIS)))
                continue
            if c[3] is None:
                v = st.env.get(c[0])
            else:
                r = self.ex(c[3], st)
                # captures are initialised by plain copies: no splitting
                v = r[0][1]
                if len(r) > 1:
                    v = ("unk", "capture")
            if v is not None:
                caps.append((c[0], v))
        lam = ("lam", e[1], e[4], tuple(caps), tuple(e[3]))
        byref = {c[0] for c in e[2] if c[2]}
        self.closures[(e[1], e[4])] = byref
        return [(st, lam)]

    # ---- operators
    def x_un(self, e, st):
        op = e[1]
        if op == "!":
            return self.boolval(e, st)
        if op == "*":
            return self.ex1(e[2], st, lambda v: self.deref(st, v))
        if op == "&":
            return self.ex1(e[2], st, self.addr)
        if op in ("++", "--", "++post", "--post"):
            out = []
            for s, v in self.lval(e[2], st):
                old = v[1]
                new = self.arith("+" if op[0] == "+" else "-", old, ("int", 1))
                self.assign(s, v[0], new, e[4])
                out.append((s, old if op.endswith("post") else new))
            return out
        if op == "-":
            return self.ex1(e[2], st, lambda v: ("int", -v[1])
                            if v[0] == "int" and isinstance(v[1], int)
                            else ("un", "-", v))
        return self.ex1(e[2], st, lambda v: ("un", op, v))

    def deref(self, st, v):
        if v[0] == "addr":
            return v[1]
        if v[0] == "this":
            return v
        if v[0] == "iter":
            return ("elem", v[1], v[2])
        if v[0] == "find":
            return ("entry", v[1], v[2])
        if v[0] == "begin":
            return ("call", "front", v[1], ())
        if v[0] == "fld" and v[2] == "first" and v[1][0] == "call" and \
                last(v[1][1]) in ("try_emplace", "emplace", "insert") and \
                v[1][2] is not None and len(v[1][3]) >= 1:
            return ("entry", v[1][2], self.ins_key(v[1]))
        return ("deref", v)

    @staticmethod
    def ins_key(c):
        k = c[3][0]
        if last(c[1]) == "insert" and k[0] in ("il", "ctor") and len(k[2]) == 2:
            return k[2][0]
        return k

    def addr(self, v):
        if v[0] == "deref":
            return v[1]
        if v[0] in ("this", "fn"):
            return v
        return ("addr", v)

    def arith(self, op, a, b):
        if a[0] == "int" and b[0] == "int" and isinstance(a[1], int) and \
                isinstance(b[1], int):
            try:
                if op == "+":
                    return ("int", a[1] + b[1])
                if op == "-":
                    return ("int", a[1] - b[1])
                if op == "*":
                    return ("int", a[1] * b[1])
                if op == "<<" and 0 <= b[1] < 64:
                    return ("int", a[1] << b[1])
                if op == "|":
                    return ("int", a[1] | b[1])
                if op == "&":
                    return ("int", a[1] & b[1])
            except (TypeError, ValueError):
                pass
        if op == "+" and (textual(a) or textual(b)):
            return ("op", op, a, b)
        if op in ("+", "*", "&", "|", "^") and repr(a) > repr(b) and \
                not (is_const(b)):
            a, b = b, a
        elif op in ("+", "*", "&", "|", "^") and is_const(a) and not is_const(b):
            a, b = b, a
        return ("op", op, a, b)

    def x_bin(self, e, st):
        op = e[1]
        if op in ("&&", "||"):
            return self.boolval(e, st)
        if op == ",":
            out = []
            for s, _ in self.ex(e[2], st):
                if s.exit is not None:
                    out.append((s, ("none",)))
                else:
                    out.extend(self.ex(e[3], s))
            return out
        out = []
        for s, vs in self.exl([e[2], e[3]], st):
            if s.exit is not None:
                out.append((s, ("none",)))
                continue
            out.append((s, self.binop(op, vs[0], vs[1])))
        return out

    def binop(self, op, a, b):
        if op == "==":
            return self.eq(a, b)
        if op == "!=":
            return self.neg(self.eq(a, b))
        if op == "<":
            return self.lt(a, b)
        if op == ">":
            return self.lt(b, a)
        if op == "<=":
            return self.neg(self.lt(b, a))
        if op == ">=":
            return self.neg(self.lt(a, b))
        return self.arith(op, a, b)

    def lt(self, a, b):
        if a == ("int", 0) and b[0] == "call" and last(b[1]) == "size" and \
                b[2] is not None:
            return ("not", ("empty", b[2]))
        if b == ("int", 1) and a[0] == "call" and last(a[1]) == "size" and \
                a[2] is not None:
            return ("empty", a[2])
        return ("op", "<", a, b)

    @staticmethod
    def neg(c):
        if c[0] == "not":
            return c[1]
        if c[0] == "bool":
            return ("bool", not c[1])
        return ("not", c)

    def lval(self, e, st):
        """-> [(state, (lvalue descriptor, current value))]"""
        t = e[0]
        if t == "v":
            did = e[1]
            cur = self.x_v(e, st)[0][1]
            # a reference variable stands for the lvalue it is bound to
            if e[4].endswith("&") and did in st.env and \
                    st.env[did][0] in ("fld", "idx", "elem", "deref", "entry",
                                       "param", "loc"):
                return [(st, (st.env[did], cur))]
            return [(st, (("var", did, e[2], e[3]), cur))]
        if t == "icast" or t == "cast":
            return self.lval(e[2], st)
        if t == "m":
            out = []
            for s, b in self.ex(e[1], st):
                lv = ("fld", strip(b), e[2])
                out.append((s, (lv, self.field(s, strip(b), e[2]))))
            return out
        if t == "cond":
            out = []
            for s, b in self.cond(e[1], st):
                out.extend(self.lval(e[2] if b else e[3], s))
            return out
        out = []
        for s, v in self.ex(e, st):
            out.append((s, (v, v)))
        return out

    def assign(self, st, lv, v, line):
        if lv[0] == "var":
            if lv[3] in ("g", "s"):
                self.write(st, ("glob", lv[2]), v, line)
            else:
                st.env[lv[1]] = v
                old = None
            return
        if lv[0] == "param":
            # output parameter or by-ref param
            self.write(st, lv, v, line)
            return
        self.write(st, lv, v, line)

    def write(self, st, lv, v, line):
        st.mem[lv] = v
        self.kill(st, lv)
        st.ev += (Ev("write", lv[2] if lv[0] == "fld" else lv[0], lv, (v,),
                     ("write", lv, v), line, self.curfile()),)

    def kill(self, st, lv):
        """facts that read the written lvalue are no longer known"""
        dead = [k for k in st.facts if contains(k, lv)]
        for k in dead:
            del st.facts[k]

    def x_asg(self, e, st):
        op = e[1]
        out = []
        for s, (lv, cur) in self.lval(e[2], st):
            if s.exit is not None:
                out.append((s, ("none",)))
                continue
            for s2, v in self.ex(e[3], s):
                if s2.exit is not None:
                    out.append((s2, ("none",)))
                    continue
                if op != "=":
                    # |= on booleans
                    o = op[:-1]
                    v = self.arith(o, cur, v)
                self.assign(s2, lv, v, e[5])
                out.append((s2, v))
        return out

    # ---- calls
    def x_cp(self, e, st):
        if self.copies and len(e[3]) >= 1 and any(
                c in e[2].split("<")[0] for c in self.copies):
            return [(s, v if v[0] == "ctor" or s.exit is not None else
                     ("ctor", e[2], (v,)))
                    for s, v in self.x_copy(e, st)]
        return self.x_copy(e, st)

    def x_mv(self, e, st):
        out = self.x_copy(e, st)
        if not self.moves or not e[3]:
            return out
        # what is left behind in a member of the object is unspecified
        a = e[3][0]
        while a[0] in ("icast", "cast"):
            a = a[2]
        if a[0] != "call" or a[2] != "std::move" or not a[4]:
            return out
        a = a[4][0]
        r = a
        while r[0] == "m":
            r = r[1]
        if a[0] != "m" or r[0] != "this":
            return out
        for s, v in out:
            if s.exit is not None:
                continue
            for s2, (lv, cur) in self.lval(a, s.copy())[:1]:
                s.ev += (Ev("write", "moved", lv, (("moved", lv),),
                            ("write", lv, ("moved", lv)), 0,
                            self.curfile()),)
        return out

    def x_copy(self, e, st):
        if len(e[3]) >= 1:
            out = []
            for s, vs in self.exl(e[3][:1], st):
                out.append((s, vs[0] if vs else ("none",)))
            return out
        return [(st, ("ctor", e[2], ()))]

    def x_ctor(self, e, st):
        out = []
        ty = e[2].replace("const ", "")
        d = self.F.decls.get(e[1])
        for s, vs in self.exl(e[3], st):
            if s.exit is not None:
                out.append((s, ("none",)))
                continue
            base = ty.split("<")[0]
            if len(vs) == 1 and (base in ("std::optional", "std::variant",
                                          "std::function",
                                          "llvm::function_ref",
                                          "std::unique_ptr",
                                          "std::shared_ptr",
                                          "llvm::Optional",
                                          "std::reference_wrapper",
                                          "std::basic_string_view",
                                          "llvm::StringRef", "llvm::Twine",
                                          "llvm::ArrayRef",
                                          "std::initializer_list")):
                out.append((s, vs[0]))
                continue
            if base in ("llvm::StringRef", "std::basic_string") and \
                    len(vs) >= 1 and vs[0][0] == "str":
                out.append((s, vs[0]))
                continue
            if base == "std::basic_string" and len(vs) >= 1:
                out.append((s, vs[0]))
                continue
            tm = ("ctor", ty, vs, e[1])
            if d is not None and d.fl & FL_INREPO:
                s.ev += (Ev("call", d.qn, None, vs, tm, e[4], self.curfile(),
                            pure=True, fid=e[1]),)
            out.append((s, tm))
        return out

    def x_calli(self, e, st):
        out = []
        for s, f in self.ex(e[1], st):
            for s2, vs in self.exl(e[2], s):
                if s2.exit is not None:
                    out.append((s2, ("none",)))
                    continue
                if f[0] == "lam":
                    out.extend(self.call_lambda(f, vs, s2, e[4]))
                    continue
                tm = ("calli", f, vs)
                s2.ev += (Ev("call", "(indirect)", f, vs, tm, e[4],
                             self.curfile()),)
                out.append((s2, tm))
        return out

    def call_lambda(self, lam, vs, st, line, fid=None):
        fn = self.F.definition(fid or lam[1])
        if fn is None:
            for f in lam[4]:
                fn = self.F.definition(f)
                if fn and len(fn.ps) == len(vs):
                    break
        if fn is None or fn.id in self.stack or \
                len(self.stack) > self.max_depth:
            tm = ("calli", lam, vs)
            st.ev += (Ev("call", "(lambda)", lam, vs, tm, line,
                         self.curfile()),)
            return [(st, tm)]
        byref = self.closures.get((lam[1], lam[2]), set())
        this = st.env.get("this", THIS)
        for did, term in lam[3]:
            if did == "this":
                this = term
            elif did not in byref or did not in st.env:
                st.env[did] = term
        return self.enter(fn, vs, st, this)

    def enter(self, fn, vs, st, this):
        saved_this = st.env.get("this")
        for i, (pid, pn, pt) in enumerate(fn.ps):
            if i < len(vs):
                st.env[pid] = vs[i]
        st.env["this"] = this
        self.stack.append(fn.id)
        self.filestack.append(fn.file)
        self.inlined.add(fn.qn)
        res = self.block([fn.body], [st])
        self.stack.pop()
        self.filestack.pop()
        out = []
        for r in res:
            r.env["this"] = saved_this
            if r.exit in ("return", None):
                v = r.ret if r.exit == "return" and r.ret is not None \
                    else ("none",)
                r.exit = None
                r.ret = None
                out.append((r, v))
            else:
                out.append((r, ("none",)))
        # join equal results
        return self.join_vals(out)

    def join_vals(self, prs):
        if len(prs) < 2:
            return prs
        groups = {}
        for s, v in prs:
            groups.setdefault(v, []).append(s)
        out = []
        for v, g in groups.items():
            for s in self.join(g):
                out.append((s, v))
        return out

    def should_inline(self, d, fn):
        if d.qn in self.stop or last(d.qn) in self.stop:
            return False
        if self.opaque(d):
            return False
        if self.no_inline is not None and self.no_inline(d):
            return False
        if fn is None or fn.id in self.stack or \
                len(self.stack) > self.max_depth:
            return False
        if d.fl & FL_VIRTUAL:
            return bool(self.inline_virtual and self.inline_virtual(d))
        if self.inline_pred is not None:
            r = self.inline_pred(d)
            if r is not None:
                return r
        rc = self.root.decl.cls
        if d.cls and rc and (d.cls == rc or rc.startswith(d.cls + "::")):
            return True
        if fn.file == self.root.file:
            return True
        # a file-local helper next to the out-of-line members of a template
        # (whose location is that of their declaration in the header)
        if d.fl & FL_INTERNAL and fn.file.endswith(".cpp") and \
                not self.root.file.endswith(".cpp"):
            return True
        return self.trivial(fn)

    def trivial(self, fn):
        b = fn.body
        n = 0
        while b is not None and b[0] == "{" and len(b[2]) == 1:
            b = b[2][0]
        return b is not None and b[0] == "ret" and b[2] is not None and \
            self.size(b[2]) <= 12

    @staticmethod
    def size(e):
        from facts import walk_ex
        return sum(1 for _ in walk_ex(e))

    def x_call(self, e, st):
        fid, qn, obj, args, ty, line, fl = e[1:8]
        d = self.F.decls.get(fid)
        out = []
        lst = last(qn)
        self.calls_seen += 1
        if not self.keep_logs and qn.startswith(DROP_CALL_PREFIX):
            return [(st, ("unk", "log"))]
        # assignment operators on class types
        if obj is not None and lst == "operator=" and len(args) == 1:
            for s, (lv, cur) in self.lval(obj, st):
                for s2, v in self.ex(args[0], s):
                    if s2.exit is None:
                        self.assign(s2, lv, v, line)
                    out.append((s2, v))
            return out
        if obj is not None and lst in ("operator++", "operator--"):
            for s, (lv, cur) in self.lval(obj, st):
                new = self.arith("+" if lst[-1] == "+" else "-", cur,
                                 ("int", 1))
                self.assign(s, lv, new, line)
                out.append((s, new))
            return out
        if obj is not None and lst in ("operator+=", "operator-=",
                                       "operator|=", "operator&=") and \
                obj[0] == "v":
            for s, (lv, cur) in self.lval(obj, st):
                for s2, vs in self.exl(args, s):
                    if s2.exit is not None:
                        out.append((s2, ("none",)))
                        continue
                    tm = ("call", qn, strip(cur), vs)
                    s2.ev += (Ev("call", qn, strip(cur), vs, tm, line,
                                 self.curfile(), fid=fid),)
                    out.append((s2, cur))
            return out
        if obj is not None:
            base = self.ex(obj, st)
        else:
            base = [(st, None)]
        for s, o in base:
            if s.exit is not None:
                out.append((s, ("none",)))
                continue
            for s2, vs in self.exl(args, s):
                if s2.exit is not None:
                    out.append((s2, ("none",)))
                    continue
                out.extend(self.apply(e, d, s2, o, vs))
        return out

    def apply(self, e, d, st, o, vs):
        fid, qn, _, _, ty, line, fl = e[1:8]
        lst = last(qn)
        n = len(vs)
        # ---- identities
        if qn in IDENT_FNS and n >= 1:
            return [(st, vs[0])]
        if o is not None and n == 0:
            if lst == "get" and qn.startswith(("std::unique_ptr",
                                               "std::shared_ptr",
                                               "std::__uniq", "std::__shared_ptr",
                                               "std::reference_wrapper")):
                return [(st, o)]
            if lst in ("operator*",):
                return [(st, self.deref(st, o))]
            if lst == "operator->":
                return [(st, self.arrow(st, o))]
            if lst in ("value", "getValue") and qn.startswith(
                    ("std::optional", "llvm::Optional")):
                return [(st, self.deref(st, o))]
            if lst in ("has_value", "hasValue") and qn.startswith(
                    ("std::optional", "llvm::Optional")):
                return [(st, truthy(strip(o)))]
            if lst == "operator bool":
                b = strip(o)
                if d is not None and d.fl & FL_INREPO:
                    fn = self.F.definition(fid)
                    if fn is not None and self.should_inline(d, fn):
                        return self.enter(fn, vs, st, b)
                return [(st, self.truth(b, "*") if b[0] == "as" else
                         truthy(b))]
            if not (d and d.fl & FL_INREPO):
                if lst in BEGIN:
                    return [(st, ("begin", self.norm_container(strip(o), st)))]
                if lst in END:
                    return [(st, ("end", self.norm_container(strip(o), st)))]
                if lst in ("empty",):
                    return [(st, ("empty", strip(o)))]
        if o is None and n == 1 and lst in ("begin", "adl_begin") and \
                qn.startswith(("std::", "llvm::")):
            return [(st, ("begin", strip(vs[0])))]
        if o is None and n == 1 and lst in ("end", "adl_end") and \
                qn.startswith(("std::", "llvm::")):
            return [(st, ("end", strip(vs[0])))]
        if o is None and n == 1 and lst == "empty" and \
                qn.startswith(("std::", "llvm::")):
            return [(st, ("empty", strip(vs[0])))]
        if o is None and n == 1 and qn in ("std::size", "llvm::size"):
            return [(st, ("call", "size", strip(vs[0]), ()))]
        # ---- llvm casts
        if qn in ("llvm::isa", "llvm::isa_and_nonnull",
                  "llvm::isa_and_present") and n == 1:
            ts = [x for x in (d.ta or []) if not x.endswith("*")
                  and not x.endswith("&") or x == d.ta[0]]
            tys = self.isa_types(d)
            b = self.unptr(vs[0])
            res = None
            if len(tys) == 1:
                return [(st, ("isa", tys[0], b))]
            outs, cur = [], [st]
            for tt in tys:
                nxt = []
                for s in cur:
                    for s2, r in self.branch(s, ("isa", tt, b)):
                        if r:
                            outs.append((s2, TRUE))
                        else:
                            nxt.append(s2)
                cur = nxt
            outs += [(s, FALSE) for s in cur]
            return self.join_vals(outs)
        if qn in ("llvm::dyn_cast", "llvm::dyn_cast_or_null",
                  "llvm::dyn_cast_if_present", "llvm::cast",
                  "llvm::cast_or_null") and n == 1:
            return [(st, ("as", d.ta[0] if d and d.ta else "?",
                          self.unptr(vs[0])))]
        if qn in ("std::holds_alternative",) and n == 1:
            return [(st, ("isa", d.ta[0], strip(vs[0])))]
        if qn == "std::get_if" and n == 1:
            return [(st, ("as", d.ta[0], strip(vs[0])))]
        if qn == "std::get" and n == 1 and d.ta:
            if str(d.ta[0]).startswith("#"):
                i = int(d.ta[0][1:])
                b = strip(vs[0])
                nm = (("first", "second")[i] if "std::pair<" in d.pt[0]
                      else "get%d" % i)
                return [(st, self.field(st, b, nm))]
            return [(st, ("deref", ("as", d.ta[0], strip(vs[0]))))]
        # ---- comparison / arithmetic operators
        if lst in OPCMP:
            a = o if o is not None else vs[0]
            b = vs[0] if o is not None else vs[1]
            if d is not None and d.fl & FL_INREPO and \
                    self.inline_eq(d):
                pass
            else:
                return [(st, self.binop(OPCMP[lst],
                                        self.cmpval(a), self.cmpval(b)))]
        if lst in ARITH and (o is not None and n == 1 or o is None and n == 2) \
                and not (d and d.fl & FL_INREPO):
            a = o if o is not None else vs[0]
            b = vs[0] if o is not None else vs[1]
            return [(st, self.arith(ARITH[lst], a, b))]
        if lst in ("operator[]", "at", "lookup") and o is not None and n == 1 and \
                not (d and d.fl & FL_INREPO):
            if lst == "operator[]" and "map" in qn.lower():
                st.ev += (Ev("call", qn, strip(o), vs,
                             ("call", qn, strip(o), vs), line, self.curfile(),
                             pure=True, fid=fid),)
            return [(st, self.index(st, strip(o), vs[0]))]
        if lst in ("count", "contains") and o is not None and n == 1 and \
                not (d and d.fl & FL_INREPO):
            return [(st, ("has", strip(o), vs[0]))]
        if lst == "find" and o is not None and n == 1 and \
                not (d and d.fl & FL_INREPO) and "basic_string" not in qn and \
                "StringRef" not in qn:
            return [(st, ("find", strip(o), vs[0]))]
        if qn in ("std::make_pair",) and n == 2:
            return [(st, ("ctor", "std::pair", vs))]
        if qn in ("std::make_tuple", "std::tie", "std::forward_as_tuple"):
            return [(st, ("ctor", "std::tuple", vs))]
        if qn in ("llvm::is_contained",) and n == 2:
            return [(st, ("has", strip(vs[0]), vs[1]))]
        # ---- higher order
        if lst in ("find_if", "any_of", "all_of", "none_of") and o is None \
                and qn in ("std::" + lst, "llvm::" + lst) and \
                vs[-1][0] == "lam":
            r = self.search(lst, vs, st, line)
            if r is not None:
                return r
        if qn in ("llvm::for_each", "std::for_each") and n >= 2 and \
                vs[-1][0] == "lam":
            return self.for_each(e, vs, st)
        if qn in ("std::transform", "llvm::transform") and \
                vs[-1][0] == "lam" and n in (3, 4):
            r = self.transform(e, vs, st, line)
            if r is not None:
                return r
        if o is not None and lst == "operator()":
            b = strip(o)
            if b[0] == "lam":
                return self.call_lambda(b, vs, st, line,
                                        fid if d and d.fl & FL_LAMBDA else None)
        if qn in ("std::invoke", "std::__invoke") and n >= 1 and \
                vs[0][0] == "lam":
            return self.call_lambda(vs[0], vs[1:], st, line)
        # ---- inlining
        fn = self.F.definition(fid)
        if d is not None and fn is not None and self.should_inline(d, fn):
            this = strip(o) if o is not None else st.env.get("this")
            if d.fl & FL_STATIC or (o is None):
                this = st.env.get("this")
            return self.enter(fn, vs, st, this)
        # ---- opaque call
        b = strip(o) if o is not None else None
        nm = self.callname(qn, d)
        pure = self.is_pure(qn, d, o, lst)
        # `T X; X.f()` on values: keep identity
        tm = ("call", nm, b, vs)
        if self.versions and b is not None and st.vers.get(b):
            tm = ("call", nm + "'" * st.vers[b], b, vs)
        if not pure:
            if self.versions and b is not None and not (
                    d and d.fl & FL_CONST):
                st.vers = {**st.vers, b: st.vers.get(b, 0) + 1}
            if b is not None and not (d and d.fl & FL_CONST):
                self.clobber(st, b)
            if ty and ty != "void":
                tm = ("call", nm, b, vs)
        st.ev += (Ev("call", nm, b, vs, tm, line, self.curfile(), pure=pure,
                     fid=fid),)
        if d is not None and d.fl & FL_NORETURN or qn in (
                "std::terminate", "std::abort", "std::exit", "abort", "exit"):
            st.exit = "noreturn"
        return [(st, tm)]

    def inline_eq(self, d):
        return False

    def callname(self, qn, d):
        if qn in ("std::make_unique", "std::make_shared") and d and d.ta:
            return "%s<%s>" % (qn, short_t(d.ta[0]))
        return qn

    @staticmethod
    def cmpval(t):
        return t

    @staticmethod
    def unptr(t):
        return t[1] if t[0] in ("addr",) else t

    def isa_types(self, d):
        ta = list(d.ta or [])
        # isa<X>(V): template args are X..., value type
        if len(ta) >= 2:
            ta = ta[:-1]
        return ta

    def arrow(self, st, o):
        if o[0] == "iter":
            return ("elem", o[1], o[2])
        if o[0] in ("find", "begin") or (o[0] == "fld" and o[2] == "first"):
            d = self.deref(st, o)
            if d[0] != "deref":
                return d
        return o

    def clobber(self, st, b):
        """a non-const call on b: forget what was known about b's memory"""
        dead = [k for k in st.mem if isinstance(k, tuple) and
                k != b and contains(k, b) and k[0] in ("fld", "idx")
                and self.root_is(k, b)]
        for k in dead:
            del st.mem[k]
        deadf = [k for k in st.facts if self.reads_object(k, b)]
        for k in deadf:
            del st.facts[k]

    @staticmethod
    def root_is(k, b):
        while k[0] in ("fld", "idx"):
            if k == b:
                return True
            k = k[1]
        return k == b

    def reads_object(self, c, b):
        if b[0] not in ("fld", "loc", "param", "this", "glob", "hav"):
            return False
        for x in subterms(c):
            if x[0] in ("has", "empty") and strip(x[1]) == b:
                return True
            if x[0] == "call" and x[2] is not None and x[2] == b:
                return True
            if x[0] == "idx" and x[1] == b:
                return True
        return False

    def is_pure(self, qn, d, o, lst):
        if o is not None:
            if d is not None and d.fl & FL_CONST:
                return True
            if lst in ("begin", "end", "rbegin", "rend", "find", "front",
                       "back", "data", "get", "operator->", "operator*",
                       "operator()", "lower_bound", "upper_bound"):
                return lst != "operator()"
            return qn.startswith("llvm::") and lst.startswith(("get", "is", "has",
                                                               "uses", "users",
                                                               "operands")) \
                and not lst.startswith("getOr")
        if qn in IMPURE_STD:
            return False
        return qn.startswith(PURE_NS)

    def search(self, lst, vs, st, line):
        """find_if & co: the predicate becomes part of the term"""
        cont = strip(vs[0])
        if cont[0] == "begin":
            cont = cont[1]
        cont = self.norm_container(cont, st)
        s = st.copy()
        n0 = len(s.ev)
        res = self.call_lambda(vs[-1], (("elem", cont, "p"),), s, line)
        terms = []
        for q, v in res:
            if q.exit is not None or any(
                    not e.pure for e in q.ev[n0:]):
                return None
            extra = tuple(sorted(
                ((k, b) for k, b in q.pc.items() if st.pc.get(k) is not b),
                key=repr))
            terms.append((extra, v))
        if len(terms) == 1 and not terms[0][0]:
            pred = terms[0][1]
        else:
            # disjunction of the paths on which the predicate may hold
            alts = []
            for extra, v in terms:
                if v == FALSE:
                    continue
                conj = tuple((k if b else ("un", "!", k)) for k, b in extra)
                if v != TRUE:
                    conj += (v,)
                alts.append(("conj",) + conj)
            pred = ("disj",) + tuple(sorted(alts, key=repr))
        if lst == "none_of":
            return [(st, self.neg(("anyof", cont, pred)))]
        if lst == "all_of":
            return [(st, self.neg(("anyof", cont, self.neg(pred))))]
        return [(st, ({"find_if": "findif", "any_of": "anyof"}[lst], cont,
                      pred))]

    def for_each(self, e, vs, st):
        lam = vs[-1]
        fn = self.F.definition(lam[1]) or next(
            (self.F.definition(f) for f in lam[4] if self.F.definition(f)),
            None)
        if fn is None:
            raise Unanalysable("for_each body")
        cont = strip(vs[0])
        if cont[0] == "begin":
            cont = cont[1]
        # treat like a range loop whose `return` is `continue`
        byref = self.closures.get((lam[1], lam[2]), set())
        for did, term in lam[3]:
            if did != "this" and (did not in byref or did not in st.env):
                st.env[did] = term
        pid = fn.ps[0][0]
        s = ["rfor", e[6], pid, fn.ps[0][1], fn.ps[0][2], None,
             ["(lambody)", e[6], fn.body], "", None]
        return [(x, ("none",)) for x in self.loop("range", s, st, cont)]


_BB_RANGE = {"pred_begin": "predecessors", "succ_begin": "successors"}


def _transform(self, e, vs, st, line):
    """transform(range, back_inserter(X), f) is a loop that pushes f(elem)"""
    lam, out = vs[-1], strip(vs[-2])
    if out[0] != "call" or last(out[1]) not in (
            "back_inserter", "inserter") or not out[3]:
        return None
    tgt = strip(out[3][0])
    fn = self.F.definition(lam[1]) or next(
        (self.F.definition(f) for f in lam[4] if self.F.definition(f)), None)
    if fn is None or len(fn.ps) != 1:
        return None
    cont = strip(vs[0])
    if len(vs) == 4:
        if cont[0] == "begin":
            cont = cont[1]
        elif cont[0] == "call" and last(cont[1]) in _BB_RANGE:
            b, nb = last(cont[1]), _BB_RANGE[last(cont[1])]
            ends = strip(vs[1])
            if ends[0] != "call" or last(ends[1]) != b[:-5] + "end" or \
                    ends[3] != cont[3]:
                return None
            cont = ("call", nb, None, cont[3])
        else:
            return None
    byref = self.closures.get((lam[1], lam[2]), set())
    for did, term in lam[3]:
        if did != "this" and (did not in byref or did not in st.env):
            st.env[did] = term
    s = ["rfor", e[6], fn.ps[0][0], fn.ps[0][1], fn.ps[0][2], None,
         ["(lampush)", e[6], fn.body, tgt, line], "", None]
    return [(x, ("none",)) for x in self.loop("range", s, st, cont)]


Engine.transform = _transform
_stmt = Engine.stmt


def _stmt2(self, s, st):
    if s[0] == "(lambody)":
        res = _stmt(self, s[2], st)
        for r in res:
            if r.exit == "return":
                r.exit = "continue"
                r.ret = None
        return res
    if s[0] == "(lampush)":
        res = _stmt(self, s[2], st)
        for r in res:
            if r.exit == "return":
                v = r.ret
                r.exit = None
                r.ret = None
                self.clobber(r, s[3])
                r.ev += (Ev("call", "push_back", s[3], (v,),
                            ("call", "push_back", s[3], (v,)), s[4],
                            self.curfile()),)
        return res
    return _stmt(self, s, st)


Engine.stmt = _stmt2


# ------------------------------------------------------------------ printing
class Abbrev:
    """prints long terms once and refers to them as T<n> afterwards"""

    def __init__(self, limit=38):
        self.limit = limit
        self.names = {}
        self.defs = []

    def s(self, t):
        if not isinstance(t, tuple):
            return str(t)
        if t in self.names:
            return self.names[t]

        def rec(x):
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                if x[0] in ("str", "enum", "int"):
                    return x
                y = (x[0],) + tuple(
                    self.sub(z) if isinstance(z, tuple) and z and
                    isinstance(z[0], str) else
                    (tuple(self.sub(w) for w in z)
                     if isinstance(z, tuple) else z)
                    for z in x[1:])
                return y
            return x
        r = t2s(rec(t))
        return r

    def sub(self, t):
        if not (isinstance(t, tuple) and t and isinstance(t[0], str)):
            return t
        if t in self.names:
            return self.names[t]
        r = self.s(t)
        if len(r) > self.limit and t[0] not in ("str", "lam"):
            n = "T%d" % (len(self.names) + 1)
            self.names[t] = n
            self.defs.append("%s = %s" % (n, r))
            return n
        return t if not isinstance(r, str) else (r if t[0] != "fld" else r)


def dump(paths, ind="", ab=None):
    ab = ab or Abbrev()
    out = []

    def flush():
        for d in ab.defs:
            out.append(ind + "      . " + d)
        ab.defs.clear()
    for i, p in enumerate(paths):
        g = " & ".join(sorted(("" if v else "!") + ab.s(k)
                              for k, v in p.pc.items()))
        r = ab.s(p.ret) if p.ret is not None else "-"
        flush()
        out.append("%spath %d [%s] exit=%s ret=%s" % (ind, i, g, p.exit, r))
        for e in p.ev:
            if e.kind == "loop":
                c = ab.s(e.loop.container) if e.loop.container else "_"
                flush()
                out.append("%s   loop over %s (line %d)" % (ind, c, e.line))
                out.extend(dump(e.loop.paths, ind + "      ", ab))
            else:
                if e.kind == "write":
                    x = "%s := %s" % (ab.s(e.obj), ab.s(e.args[0]))
                elif e.kind == "call":
                    x = ab.s(e.term)
                else:
                    x = e.kind + " " + (ab.s(e.term) if e.term else "")
                flush()
                out.append("%s   %s%s" % (ind, "~" if e.pure else "!", x))
    return out
