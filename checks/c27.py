"""C27: every value of an option that is chosen by has its own behaviour, a default or an error."""
import sys
import facts
from facts import Broken
from report import Report
from flow import strip

NORETURN = ("exit", "abort", "terminate", "quick_exit", "_Exit", "rethrow_exception", "__assert_fail", "unreachable", "__builtin_unreachable")


class Ends(object):
    """can a statement be left at its end"""

    def __init__(self, F):
        self.F, self.memo = F, {}

    def raises(self, f):
        """a function that never comes back"""
        if f.u in self.memo:
            return self.memo[f.u]
        self.memo[f.u] = False
        f.load()
        if f.body is None or f.body < 0:
            return False
        r = not any(f.k(i) == "Return" for i in f.walk()) and "Throw" in {f.k(i) for i in f.walk()} and not self.falls(f, f.body)
        self.memo[f.u] = r
        return r

    def gone(self, f, i):
        """an expression that does not come back"""
        i = strip(f, i)
        n = f.n(i)
        if n["k"] == "Throw":
            return True
        if n["k"] == "Call":
            if (n.get("fn") or "").split("::")[-1] in NORETURN:
                return True
            g = self.F.fns.get(n.get("f"))
            return g is not None and not n.get("virt") and self.raises(g)
        if n["k"] == "Binary" and n["op"] == ",":
            return any(self.gone(f, x) for x in f.c(i))
        return False

    def const(self, f, i):
        i = strip(f, i)
        n = f.n(i)
        if n["k"] in ("Bool", "Int"):
            return str(n.get("v")) not in ("0", "false", "False")
        return None

    def breaks(self, f, i, top=True):
        """a break that leaves this statement"""
        if i is None or i < 0:
            return False
        k = f.k(i)
        if k == "BreakStmt":
            return True
        if not top and k in ("For", "While", "Do", "RangeFor", "Switch", "Lambda"):
            return False
        return any(self.breaks(f, x, False) for x in f.c(i))

    def falls(self, f, i):
        if i is None or i < 0:
            return True
        k, c = f.k(i), f.c(i)
        if k in ("Return", "BreakStmt", "ContinueStmt", "Throw", "GotoStmt"):
            return False
        if k == "Block":
            for x in c:
                if not self.falls(f, x):
                    return False
            return True
        if k in ("Case", "Default", "CaseStmt", "DefaultStmt", "LabelStmt", "AttributedStmt"):
            return self.falls(f, c[-1]) if c else True
        if k == "If":
            cond, then, els = c[2], c[3], c[4] if len(c) > 4 else -1
            v = self.const(f, cond)
            if v is True:
                return self.falls(f, then)
            if v is False:
                return self.falls(f, els)
            return self.falls(f, then) or self.falls(f, els)
        if k in ("While", "For", "Do"):
            cond = {"While": c[-2] if len(c) > 1 else -1, "For": c[1] if k == "For" else -1, "Do": c[-1]}[k]
            body = {"While": c[-1], "For": c[-1], "Do": c[0]}[k]
            if k == "Do" and not self.falls(f, body) and not self.breaks(f, body) and "ContinueStmt" not in {f.k(x) for x in f.walk(body)}:
                return False
            endless = self.const(f, cond) is True or (k == "For" and cond < 0)
            return not endless or self.breaks(f, body)
        if k == "Switch":
            if self.breaks(f, c[-1]):
                return True
            gs = groups(f, i)
            if not any(l is None for labs, xs in gs for l in labs):
                en = enum_of(self.F, f, c[-2])
                if en is None or missing(f, en, gs):
                    return True
            return all(self.falls(f, x) for x in gs[-1][1]) if gs else True
        if k == "CXXTryStmt":
            return self.falls(f, c[0]) or any(self.falls(f, f.c(x)[-1]) if f.c(x) else True for x in c[1:])
        return not self.gone(f, i)


def groups(f, i):
    """[(labels, statements)] of a switch; label None is default"""
    body = f.c(i)[-1]
    out = []
    for x in (f.c(body) if f.k(body) == "Block" else [body]):
        labs = []
        while f.k(x) in ("Case", "Default", "CaseStmt", "DefaultStmt"):
            labs.append(None if f.k(x).startswith("Default") else f.c(x)[0])
            x = f.c(x)[-1]
        if labs:
            # labels with nothing of their own go with the next ones
            out.append((labs, []))
        if out and f.k(x) != "NullStmt":
            out[-1][1].append(x)
    return out


def enum_of(F, f, i):
    i = strip(f, i)
    t = (f.n(i).get("t") or "").replace("const ", "").strip().rstrip("&").strip()
    for e in F.enums.values():
        if e["qn"] == t or e.get("ty") == t:
            return e
    return None


def value(f, l):
    l2 = strip(f, l)
    n = f.n(l2)
    if n.get("ev") is not None:
        return int(n["ev"])
    try:
        return int(n.get("v"))
    except (TypeError, ValueError):
        return None


def missing(f, en, gs):
    have = {value(f, l) for labs, xs in gs for l in labs if l is not None}
    return [v[0].split("::")[-1] for v in en["vals"] if int(v[1]) not in have and not v[0].split("::")[-1].lower().startswith(("num", "count", "last_", "max_"))]


def eqs(f, i):
    i = strip(f, i)
    n, c = f.n(i), f.c(i)
    if n["k"] == "Binary" and n["op"] == "||":
        a, b = eqs(f, c[0]), eqs(f, c[1])
        return a + b if a and b else None
    if n.get("op") == "==" and len(c) == 2:
        for a, b in ((c[0], c[1]), (c[1], c[0])):
            b2 = strip(f, b)
            if f.k(b2) in ("Str", "String", "Int", "Char") or f.n(b2).get("ev") is not None:
                a2 = strip(f, a)
                return [(f.show(a2), f.show(b2), a2, b2)]
    return None


def chain(f, i):
    """if ... else if ... on one subject: [(constant, node, branch)], subject, what is left"""
    out, subj, j = [], None, i
    while j >= 0 and f.k(j) == "If":
        c = f.c(j)
        e = eqs(f, c[2])
        if not e or len({x[0] for x in e}) != 1 or (subj is not None and e[0][0] != subj):
            break
        subj = e[0][0]
        for x in e:
            out.append((x[1], x[3], c[3], x[2]))
        j = c[4] if len(c) > 4 else -1
    return out, subj, j


def says(f, xs):
    """nothing is done but printing"""
    seen = False
    todo = list(xs)
    while todo:
        x = todo.pop()
        k = f.k(x)
        if k == "Block":
            todo += list(f.c(x))
            continue
        x = strip(f, x)
        if k in ("BreakStmt", "NullStmt"):
            continue
        if f.k(x) == "Call" and f.n(x).get("op") == "<<" and "ostream" in (f.n(x).get("t") or ""):
            seen = True
            continue
        return False
    return seen


def bounded(f, P, i, subj):
    """the values a loop around gives the subject, if it is its counter"""
    j = P[i]
    while j is not None and j >= 0:
        if f.k(j) == "For":
            init, cond = f.c(j)[0], strip(f, f.c(j)[1]) if f.c(j)[1] >= 0 else -1
            if cond >= 0 and f.n(cond).get("op") in ("<", "<=") and f.show(strip(f, f.c(cond)[0])) == subj:
                hi = value(f, f.c(cond)[1])
                lo = None
                for x in f.walk(init):
                    if f.k(x) == "Int" and lo is None:
                        lo = value(f, x)
                if init >= 0 and f.k(init) == "Decl" and f.n(init)["d"]:
                    lo = value(f, f.n(init)["d"][0][1])
                if hi is not None and lo is not None:
                    return set(range(lo, hi + (1 if f.n(cond)["op"] == "<=" else 0)))
        j = P[j]
    return None


def run():
    sys.setrecursionlimit(20000)
    R = Report("C27", "every switch over an option covers all its values or has a default, none runs on into the next case; every chain of comparisons with fixed values says what happens with any other; "
               "no function that gives a value can be left without one")
    F = facts.load()
    E = Ends(F)
    nsw = 0
    tags = {}
    fns = sorted((f for f in F.fns.values() if f.load()["body"] is not None and f.body >= 0), key=lambda f: f.loc())
    todo = []
    for f in fns:
        for i in f.walk():
            if f.k(i) == "Switch":
                gs = groups(f, i)
                nsw += 1
                name = "%s switch over %s" % (f.qn, f.show(strip(f, f.c(i)[-2])))
                dflt = any(l is None for labs, xs in gs for l in labs)
                en = enum_of(F, f, f.c(i)[-2])
                if en is not None:
                    ms = [] if dflt else missing(f, en, gs)
                    R.check(not ms, "covered", name, f.loc(i), "%s of %s has no case and there is no default" % (", ".join(ms), en["qn"]))
                else:
                    todo.append((f, i, gs, dflt, name))
                if dflt and not all(says(f, xs) for labs, xs in gs):
                    d = next(xs for labs, xs in gs if None in labs)
                    R.check(not says(f, d), "covered", name + "|default", f.loc(i), "any other value is only written about, not refused")
                for k, (labs, xs) in enumerate(gs):
                    if not xs or k + 1 == len(gs):
                        continue
                    fall = True
                    for x in xs:
                        if f.k(x) == "AttributedStmt" or not E.falls(f, x):
                            fall = False
                    R.check(not fall, "own case", "%s case %s" % (name, "/".join("default" if l is None else f.show(l) for l in labs)), f.loc(labs[0] if labs[0] is not None else xs[0]),
                            "the case runs on into the next one")
    # switches over letters and numbers: the same values as where the letters are accepted
    full = {}
    for f, i, gs, dflt, name in todo:
        if dflt:
            d = next(xs for labs, xs in gs if None in labs)
            if not d or not all(E.falls(f, x) for x in d):
                t = f.n(strip(f, f.c(i)[-2])).get("t", "").replace("const ", "").strip("& ")
                full.setdefault((t, f.loc().split(".")[0].replace("TFS", "")), set()).update(value(f, l) for labs, xs in gs for l in labs if l is not None)
    for f, i, gs, dflt, name in todo:
        if not dflt:
            t = f.n(strip(f, f.c(i)[-2])).get("t", "").replace("const ", "").strip("& ")
            want = full.get((t, f.loc().split(".")[0].replace("TFS", "")))
            have = {value(f, l) for labs, xs in gs for l in labs if l is not None}
            R.check(want is not None and want <= have, "covered", name, f.loc(i),
                    "values other than %s have no case and there is no default" % ", ".join(chr(v) if v and 31 < v < 127 else str(v) for v in sorted(have, key=str)))
    # chains of comparisons
    nch = 0
    for f in fns:
        P = None
        for i in f.walk():
            if f.k(i) != "If":
                continue
            if P is None:
                P = f.parents() if callable(f.parents) else f.parents
            p = P[i]
            if p is not None and p >= 0 and f.k(p) == "If" and len(f.c(p)) > 4 and f.c(p)[4] == i:
                pe = eqs(f, f.c(p)[2])
                me = eqs(f, f.c(i)[2])
                if pe and me and pe[0][0] == me[0][0]:
                    continue
            ch, subj, rest = chain(f, i)
            if len(ch) < 3:
                continue
            nch += 1
            name = "%s chain over %s" % (f.qn, subj)
            dup = [x[0] for k, x in enumerate(ch) if any(y[0] == x[0] for y in ch[:k])]
            R.check(not dup, "own case", name + "|twice", f.loc(i), "%s is asked for twice: the second is never reached" % ", ".join(dup))
            if rest >= 0:
                R.check(not says(f, [rest]) or all(says(f, [x[2]]) for x in ch), "covered", name, f.loc(rest), "any other value of %s is only written about, not refused: it goes on as one of the others" % subj)
                continue
            en = enum_of(F, f, ch[0][3])
            have = {value(f, x[1]) for x in ch}
            ok = False
            if en is not None:
                ok = not [v for v in en["vals"] if int(v[1]) not in have]
            if not ok:
                b = bounded(f, P, i, subj)
                ok = b is not None and b <= have
            if not ok:
                # all the branches leave: what follows is for any other value
                ok = all(not E.falls(f, x[2]) for x in ch)
            R.check(ok, "covered", name, f.loc(i), "a value of %s that is none of %s is passed over without a word" % (subj, ", ".join(x[0] for x in ch)))
    # functions with a value
    nf = 0
    for f in fns:
        if f.ret and f.ret not in ("void",) and f.kind not in ("ctor", "dtor", "conv") and f.name != "main":
            nf += 1
            R.check(not E.falls(f, f.body), "value", f.qn, f.loc(f.body), "%s can be left without giving a value" % f.qn)
    R.extra["switches"], R.extra["chains"], R.extra["functions with a value"] = nsw, nch, nf
    R.floor("covered", 20)
    R.floor("own case", 30)
    R.floor("value", 500)
    return R.finish(F)
