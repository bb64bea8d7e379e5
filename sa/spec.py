"""Vocabulary for rules over the dataflow summaries produced by flow.py."""
from flow import (t2s, last, short, strip, subterms, contains, Ev, NULL, TRUE,
                  FALSE, THIS, is_const, short_t)
from facts import CheckError, rel
import re

ADD = {"emplace_back", "push_back", "emplace", "insert", "push",
       "try_emplace", "insert_or_assign", "emplace_front", "push_front",
       "emplace_hint"}


def S(t):
    return t2s(t)


def call(obj, name, *args):
    """term of an opaque member call; compared by last name component"""
    return ("call", name, obj, tuple(args))


def norm(t):
    """canonical string of a term: qualified call names shortened, so that a
    reimplementation in another namespace compares equal"""
    return t2s(t)


def same(a, b):
    return norm(a) == norm(b)


def added(ev):
    """the value a container-insertion event adds (flattened pair), or None"""
    if ev.kind == "call" and ev.obj is not None and last(ev.name) in ADD:
        a = ev.args
        if len(a) == 1 and a[0][0] in ("il", "ctor") and \
                (a[0][0] == "il" or a[0][1].startswith(("std::pair",
                                                        "std::tuple"))):
            a = a[0][2]
        return tuple(a)
    return None


class Item:
    """an event with the loop nest and the branch conditions around it"""
    __slots__ = ("ev", "loops", "pc", "path", "chain")

    def __init__(self, ev, loops, pc, path, chain):
        self.ev = ev
        self.loops = loops
        self.pc = pc
        self.path = path
        self.chain = chain


def items(paths, loops=(), pc=None, chain=()):
    for p in paths:
        q = dict(pc or {})
        q.update(p.pc)
        for e in p.ev:
            yield Item(e, loops, q, p, chain + (p,))
            if e.kind == "loop":
                yield from items(e.loop.paths, loops + (e.loop,), q,
                                 chain + (p,))


def lits(pc):
    return {("" if v else "!") + t2s(k) for k, v in pc.items()}


class Pat:
    """a set of terms, written as text with alternatives"""

    def __init__(self, rx):
        self.rx = rx = "(?:%s)" % rx
        self.c = re.compile(rx)

    def __or__(self, o):
        return Pat("(?:%s|%s)" % (self.rx, pat(o).rx))

    def ok(self, t):
        return self.c.fullmatch(t if isinstance(t, str) else t2s(t)) is not None

    def __str__(self):
        return self.rx.replace("\\", "")


ANY = Pat("(?:.*)")


def pat(s, /, **kw):
    """text of a term; {x} is replaced by the pattern kw[x]"""
    if isinstance(s, Pat):
        return s
    if isinstance(s, (list, tuple)):
        return Pat("(?:%s)" % "|".join(pat(x, **kw).rx for x in s))
    out = []
    for i, part in enumerate(re.split(r"\{(\w+)\}", s)):
        if i % 2 == 0:
            out.append(re.escape(part))
        elif part in kw:
            out.append(pat(kw[part]).rx)
        else:
            out.append(re.escape("{" + part + "}"))
    return Pat("".join(out))


def is_t(t, p):
    return pat(p).ok(t)


def chain(t, name="extend"):
    """the flat sequence of a nest of binary compositions"""
    if t[0] == "call" and last(t[1]) == name and len(t[3]) == 2:
        return chain(t[3][0], name) + chain(t[3][1], name)
    if t[0] == "call" and last(t[1]) == name and len(t[3]) == 1 and \
            t[2] is not None:
        return chain(t[2], name) + chain(t[3][0], name)
    return [t]


def covers(loop, cstr):
    """does the loop visit every element of the container with this name?
    Returns None if it is about something else, True/False otherwise."""
    P = pat(cstr)
    if loop.kind == "range":
        return True if P.ok(loop.container) else None
    found = None
    # index or iterator loop: some element of the container is used
    for v, entry in loop.entry.items():
        if v[0] == "iter" and P.ok(v[1]):
            cstr = t2s(v[1])
            found = True
            want = {"(%s == %s)" % tuple(sorted(
                [t2s(v), "end(%s)" % cstr])),
                "(%s == end(%s))" % (t2s(v), cstr),
                "(end(%s) == %s)" % (cstr, t2s(v))}
            for pc in loop.exits:
                if not (lits(pc) & want):
                    found = False
            return found
        if v[0] == "ind":
            used = []
            for it in items(loop.paths):
                for tm in list(it.ev.args) + [it.ev.term, it.ev.obj] + \
                        list(it.pc):
                    for x in subterms(tm) if isinstance(tm, tuple) else ():
                        if x[0] == "elem" and x[2] == v[2] and \
                                P.ok(x[1]):
                            used.append(t2s(x[1]))
            if not used:
                continue
            if entry != ("int", 0):
                return False
            ok = True
            n = t2s(v)
            want = set()
            for c in used:
                sz = "%s.size()" % c
                want |= {"!(%s < %s)" % (n, sz), "(%s == %s)" % (n, sz),
                         "(%s == %s)" % (sz, n)}
            for pc in loop.exits:
                if not (lits(pc) & want):
                    ok = False
            return ok
    return found


class Miss(Exception):
    pass


def require(paths, steps, exempt=None, pc=None, why=None, complete=True,
            depth=0, early=None):
    """Every non-exempt path must perform `steps`: a list of
         ("loop", container string)   - visit every element, then inside ...
         ("ev", predicate(Item)->bool, text)
         ("prune", predicate(lits)->bool)  - skip paths for which it holds
       `early(lits)`: conditions under which a loop may be left early.
       Returns a list of (path, step text, line) that miss it."""
    out = []
    kind = steps[0][0]
    for p in paths:
        q = dict(pc or {})
        q.update(p.pc)
        L = lits(q)
        if p.exit in ("noreturn", "throw"):
            continue
        # leaving the loop skips the elements that are still to come, also
        # when there is nothing to do for this one
        if complete and depth and p.exit in ("break", "return"):
            if early is not None and early(L):
                continue
            out.append((p, "the loop is left early (%s)" % p.exit, L))
            continue
        if exempt is not None and exempt(L):
            continue
        if kind == "ev":
            ok = False
            for it in items([p], (), pc):
                # the event must lie on the path itself, not only inside a
                # loop that may run zero times
                if not it.loops and steps[0][1](it):
                    ok = True
                    break
            if not ok:
                out.append((p, steps[0][2], L))
        elif kind == "loop":
            cands = [e.loop for e in p.ev if e.kind == "loop" and
                     covers(e.loop, steps[0][1]) is not None]
            if not cands:
                out.append((p, "no loop over every element of %s" %
                            steps[0][1], L))
                continue
            best = None
            for l in cands:
                if covers(l, steps[0][1]) is False:
                    r = [(p, "the loop over %s does not visit every element" %
                          steps[0][1], L)]
                else:
                    r = require(l.paths, steps[1:], exempt, q, None, complete,
                                depth + 1, early) if len(steps) > 1 else []
                if best is None or len(r) < len(best):
                    best = r
            out.extend(best)
    return out


def where(fn):
    return "%s:%d" % (rel(fn.file), fn.line)


def call_is(it, name, args=None, obj=None):
    e = it.ev if isinstance(it, Item) else it
    if e.kind != "call" or last(e.name) != name:
        return False
    if obj is not None and t2s(e.obj) != obj:
        return False
    if args is not None:
        if len(args) != len(e.args):
            return False
        for a, b in zip(args, e.args):
            if a is None:
                continue
            if callable(a):
                if not a(b):
                    return False
            elif t2s(b) != a:
                return False
    return True


# ------------------------------------------------------------ decision tables
def evb(t, atoms, A):
    """truth value of a boolean term under the assignment, or its text"""
    if t is None:
        return "-"
    if t == TRUE:
        return True
    if t == FALSE:
        return False
    k = t[0]
    if k == "not":
        v = evb(t[1], atoms, A)
        if isinstance(v, bool):
            return not v
    if k == "un" and t[1] == "!":
        v = evb(t[2], atoms, A)
        if isinstance(v, bool):
            return not v
    if k == "op" and t[1] in ("&", "&&", "|", "||"):
        a, b = evb(t[2], atoms, A), evb(t[3], atoms, A)
        if isinstance(a, bool) and isinstance(b, bool):
            return (a and b) if t[1][0] == "&" else (a or b)
    if k in ("conj", "disj"):
        vs = [evb(x, atoms, A) for x in t[1:]]
        if all(isinstance(v, bool) for v in vs):
            return all(vs) if k == "conj" else any(vs)
    if k == "cond":
        c = evb(t[1], atoms, A)
        if isinstance(c, bool):
            return evb(t[2] if c else t[3], atoms, A)
    s = t2s(t)
    for n, (p, pol) in atoms.items():
        if p.ok(s):
            return A[n] == pol
    return s


def mk_atoms(d):
    """{name: pattern}; a pattern starting with '!' is the negated atom"""
    out = {}
    for n, p in d.items():
        if isinstance(p, str) and p.startswith("!"):
            out[n] = (pat(p[1:]), False)
        else:
            out[n] = (pat(p), True)
    return out


def assigns(names):
    if not names:
        yield {}
        return
    for r in assigns(names[1:]):
        yield {names[0]: True, **r}
        yield {names[0]: False, **r}


PURE = {"getDefaultValue"}


def decide(ctx, rule, fn, ps, atoms, expect, inst=None, what="",
           pure=True, eff=None, value=evb):
    """Truth-table equivalence: under every assignment of the atoms, every
    path that is consistent with it returns what `expect(assignment)` says
    (True/False/Pat/list of them; None: that assignment cannot occur).
    `eff(assignment, items)` may check effects; with pure=True none may
    happen."""
    AT = mk_atoms(atoms)
    names = list(AT)
    inst = inst or fn.qn
    for p in ps:
        if p.exit in ("noreturn", "throw"):
            continue
        known = {}
        bad = False
        for k, v in p.pc.items():
            s = t2s(k)
            for n, (q, pol) in AT.items():
                if q.ok(s):
                    val = v == pol
                    if known.setdefault(n, val) != val:
                        bad = True
        if bad:
            continue
        L = lits(p.pc)
        for A in assigns([n for n in names if n not in known]):
            A = {**known, **A}
            e = expect(A)
            if e is None:
                continue
            got = value(p.ret, AT, A)
            if e is not ANY:
                ok = match(got, e)
                ctx.ob(rule, ok, where(fn), "%s: returns %s, expected %s "
                       "when %s" % (what or last(fn.qn), str(got)[:300],
                                    str(e)[:300], fmtA(A)), inst)
            if eff is not None:
                m = eff(A, list(items([p])))
                ctx.ob(rule, m is None or m is True, where(fn), "%s: %s, "
                       "when %s" % (what or last(fn.qn), m, fmtA(A)), inst)
        if pure:
            for it in items([p]):
                e = it.ev
                bad = e.kind == "write" and not str(t2s(e.obj)).startswith(
                    "?") or (e.kind == "call" and not e.pure)
                if bad and eff is None and last(e.name) not in PURE:
                    ctx.ob(rule, False, e.where(), "%s: unexpected effect %s"
                           % (what or last(fn.qn), e.s()[:200]), inst)


def match(got, e):
    if isinstance(e, (list, tuple, set)):
        return any(match(got, x) for x in e)
    if isinstance(e, bool):
        return got is e
    if isinstance(got, bool):
        got = "true" if got else "false"
    return pat(e).ok(got)


def fmtA(A):
    return " & ".join(("" if v else "!") + k for k, v in sorted(A.items())) \
        or "(always)"


def effects(ps_or_p):
    """impure events of one path, outside and inside loops"""
    for it in items([ps_or_p]):
        e = it.ev
        if e.kind == "write" or (e.kind == "call" and not e.pure):
            yield it


def model(ctx, rule, fn, ps, models, atoms, expect, inst=None, what="",
          exact=False):
    """Truth-table equivalence over a finite set of models: `atoms` is a list
    of (regex, f(model, match) -> truth value) that interprets literals;
    every path whose literals do not contradict a model must return what
    `expect(model)` says. With exact=True a literal without interpretation
    is an error of the path (it could only make the result depend on
    something that must not matter)."""
    AT = [(re.compile(r), f) for r, f in atoms]

    def ev(t, m):
        if t == TRUE:
            return True
        if t == FALSE:
            return False
        if t is None:
            return "-"
        k = t[0]
        if k == "un" and t[1] == "!":
            v = ev(t[2], m)
            if isinstance(v, bool):
                return not v
        if k == "not":
            v = ev(t[1], m)
            if isinstance(v, bool):
                return not v
        if k == "op" and t[1] in ("&", "&&", "|", "||", "==", "!="):
            a, b = ev(t[2], m), ev(t[3], m)
            if isinstance(a, bool) and isinstance(b, bool):
                return {"&": a and b, "|": a or b, "=": a == b,
                        "!": a != b}[t[1][0]]
        if k in ("conj", "disj"):
            vs = [ev(x, m) for x in t[1:]]
            if all(isinstance(v, bool) for v in vs):
                return all(vs) if k == "conj" else any(vs)
        if k == "cond":
            c = ev(t[1], m)
            if isinstance(c, bool):
                return ev(t[2] if c else t[3], m)
        s = t2s(t)
        for r, f in AT:
            g = r.fullmatch(s)
            if g:
                v = f(m, g)
                if v is not None:
                    return v
        return s
    inst = inst or fn.qn
    for m in models:
        e = expect(m)
        if e is None:
            continue
        n = 0
        for p in ps:
            if p.exit in ("noreturn", "throw"):
                continue
            ok = True
            for k, v in p.pc.items():
                g = ev(k, m)
                if isinstance(g, bool):
                    if g != v:
                        ok = False
                        break
                elif exact:
                    ctx.ob(rule, False, where(fn), "%s: the result depends "
                           "on %s" % (what or last(fn.qn), g[:200]), inst)
            if not ok:
                continue
            n += 1
            got = ev(p.ret, m)
            ctx.ob(rule, e is ANY or match(got, e), where(fn),
                   "%s: returns %s, expected %s when %s" % (
                       what or last(fn.qn), str(got)[:300], str(e)[:300],
                       fmtM(m)), inst)
        ctx.ob(rule, n > 0, where(fn), "%s: no path returns when %s" % (
            what or last(fn.qn), fmtM(m)), inst)


def fmtM(m):
    return ", ".join("%s=%s" % kv for kv in sorted(m.items())) or "(always)"


def product(**kw):
    """all combinations of the given finite domains, as dictionaries"""
    out = [{}]
    for k, vs in kw.items():
        out = [{**m, k: v} for m in out for v in vs]
    return out


def anynorm(ps):
    """`for (x : c) if (P(x)) return r;` is read as `if (any_of(c, P))
    return r;`"""
    import copy
    out = []
    for p in ps:
        pc = dict(p.pc)
        for e in p.ev:
            l = e.loop if e.kind == "loop" else None
            if l is None or l.kind != "range":
                continue
            on = [q for q in l.paths if q.exit in (None, "continue")]
            off = [q for q in l.paths if q not in on]
            if len(on) != 1 or len(off) != 1 or off[0].exit != "return" or \
                    len(off[0].pc) != 1 or on[0].ev:
                continue
            (k, v), = off[0].pc.items()
            if on[0].pc.get(k) != (not v):
                continue
            t = ("anyof", l.container, k if v else ("not", k))
            if pc.get(k) == v:
                pc = {a: b for a, b in pc.items() if a != k}
                pc[t] = True
            else:
                pc[t] = False
        q = copy.copy(p)
        q.pc = pc
        out.append(q)
    return out
