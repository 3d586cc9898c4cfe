"""C15: errors are raised as catchable exceptions, and not dropped."""
import facts
from flow import strip
from report import Report

STD = {"std::" + x for x in ("exception", "runtime_error", "logic_error", "out_of_range", "invalid_argument", "domain_error", "length_error", "range_error", "overflow_error",
                             "underflow_error", "bad_alloc", "bad_cast", "bad_typeid", "bad_function_call", "system_error", "ios_base::failure", "bad_array_new_length",
                             "bad_weak_ptr", "bad_exception", "filesystem::filesystem_error", "nested_exception", "regex_error", "future_error")}
KILL = {"exit", "abort", "_exit", "_Exit", "quick_exit", "terminate", "raise", "kill", "longjmp", "__builtin_trap", "__builtin_abort"}
# thrown by the standard library for a single look-up or conversion: the handler may be its own answer
LOOKUP = {"std::out_of_range", "std::bad_cast", "std::invalid_argument", "std::bad_typeid"}


def base(t):
    t = (t or "").strip()
    if t.startswith("const "):
        t = t[6:]
    return t.rstrip("& ").strip()


def standard(F, t):
    """the thrown type is a class below std::exception"""
    t = base(t)
    if t in STD or t.startswith("std::__cxx11::"):
        return True
    c = F.by_ty.get(t) if isinstance(F.by_ty, dict) else None
    c = F.classes.get(c) if isinstance(c, str) else c
    return bool(c) and any(b["n"] in STD or standard(F, b["n"]) for b in c["bases"])


def ancestors(F, t):
    t = base(t)
    out = {t}
    c = F.by_ty.get(t)
    c = F.classes.get(c) if isinstance(c, str) else c
    for b in (c["bases"] if c else []):
        out |= ancestors(F, b["n"])
    for k, v in (("std::out_of_range", "std::logic_error"), ("std::invalid_argument", "std::logic_error"), ("std::domain_error", "std::logic_error"),
                 ("std::length_error", "std::logic_error"), ("std::range_error", "std::runtime_error"), ("std::overflow_error", "std::runtime_error")):
        if k in out:
            out.add(v)
    if out & STD:
        out.add("std::exception")
    return out


def handlers(f, t):
    return [x for x in f.c(t)[1:] if f.k(x) == "Catch"]


def called(F, f, n):
    u = n.get("f")
    g = F.fns.get(u)
    out = [g] if g is not None else []
    if n.get("virt") and u:
        out += [F.fns[x] for x in F.overriders(u) if x in F.fns]
    return out


class Throws(object):
    """the exceptions a function may let out: explicit throws, checked look-ups and conversions of the standard library"""

    def __init__(self, F):
        self.F, self.memo, self.busy = F, {}, set()

    def of(self, f):
        if f.u in self.memo:
            return self.memo[f.u]
        if f.u in self.busy:
            return {}
        self.busy.add(f.u)
        f.load()
        out = {}
        if f.body >= 0:
            out.update(self.node(f, f.body))
        for e in f.inits:
            if e[2] >= 0:
                out.update(self.node(f, e[2]))
        self.busy.discard(f.u)
        if not self.busy:
            self.memo[f.u] = out
        return out

    def node(self, f, i, current=None):
        F = self.F
        n = f.n(i)
        k = n["k"]
        if k == "Lambda":
            return {}
        out = {}
        if k == "CXXTryStmt":
            body = self.node(f, f.c(i)[0], current)
            for h in handlers(f, i):
                ct = f.n(h)["ct"]
                caught = {t for t in body if ct == "..." or base(ct) in ancestors(F, t)}
                inner = {}
                for x in f.c(h):
                    inner.update(self.node(f, x, {t: body[t] for t in caught} or {base(ct): f.loc(h)}))
                body = {t: v for t, v in body.items() if t not in caught}
                out.update(inner)
            out.update(body)
            return out
        if k == "Throw":
            if f.c(i):
                out[base(n.get("tt") or f.n(f.c(i)[0]).get("t"))] = f.loc(i)
            else:
                out.update(current or {"?": f.loc(i)})
        if k in ("Call", "Construct", "New"):
            fn = n.get("fn", "")
            for g in called(F, f, n):
                for t, v in self.of(g).items():
                    out.setdefault(t, "%s, reached from %s" % (v, f.loc(i)))
            if fn.startswith("std::") and fn.endswith("::at"):
                out["std::out_of_range"] = f.loc(i)
            if fn.startswith("std::sto"):
                out["std::invalid_argument"] = f.loc(i)
        if k == "Cast" and n.get("ck") == "dynamic" and n.get("t", "").rstrip().endswith("&"):
            out["std::bad_cast"] = f.loc(i)
        for x in f.c(i):
            if x is not None and x >= 0:
                out.update(self.node(f, x, current))
        return out


def prints(F, f, i, seen=()):
    for x in f.walk(i):
        n = f.n(x)
        if n["k"] == "Call":
            if n.get("op") == "<<" and "ostream" in "".join(n.get("pt", [])[:1]) or "std::basic_ostream" in n.get("fn", "") or "ostream" in f.n(f.c(x)[0]).get("t", "") if f.c(x) else False:
                return True
            for g in called(F, f, n):
                if g.u not in seen and g.load()["body"] >= 0 and len(seen) < 4 and prints(F, g, g.body, seen + (g.u,)):
                    return True
    return False


def option(F, f, cond):
    """a condition on a member, parameter or global alone: the user's choice"""
    has = False
    for x in f.walk(cond):
        n = f.n(x)
        if n["k"] == "Member" or n["k"] == "Ref" and n.get("v", -1) >= 0 and f.vars[n["v"]][2] == "param":
            has = True
    return has


def always_throws(F, f, seq, opt=False, seen=()):
    """every way through the statements ends in a throw; with opt, ways chosen by the user's option may report instead"""
    for x in seq:
        if x is None or x < 0:
            continue
        n = f.n(x)
        k = n["k"]
        if k == "Throw":
            return True
        if k == "Block":
            if always_throws(F, f, f.c(x), opt, seen):
                return True
        elif k == "If":
            init, var, cond, then, els = (list(f.c(x)) + [-1] * 5)[:5]
            a, b = always_throws(F, f, [then], opt, seen), always_throws(F, f, [els], opt, seen)
            if a and b:
                return True
            if opt and option(F, f, cond):
                rest = seq[list(seq).index(x) + 1:]
                after = always_throws(F, f, rest, opt, seen)
                for ends, arm in ((a, then), (b, els)):
                    if not ends and not after and not (arm >= 0 and prints(F, f, arm) or any(prints(F, f, y) for y in rest if y >= 0)):
                        break
                else:
                    return True
        elif k == "Call":
            if n.get("noret"):
                return True
            for g in called(F, f, n)[:1]:
                if not n.get("virt") and g.u not in seen and g.load()["body"] >= 0 and len(seen) < 5 and always_throws(F, g, [g.body], False, seen + (g.u,)):
                    return True
        elif k in ("Return", "BreakStmt", "ContinueStmt"):
            return False
        elif k == "CXXTryStmt":
            pass
    return False


def message(f, i):
    """the literal message of a thrown object, if that is what it is"""
    for x in f.walk(i):
        if f.k(x) == "Str":
            return f.n(x).get("s", f.n(x).get("v", "?"))
    return None


def run():
    F = facts.load()
    R = Report("C15", "Over every function of the library: the static type of each thrown expression is a class below std::exception (not a pointer, number or text) with a non-empty message; no call ends the process; an exception "
               "thrown again from a handler is not a sliced copy; every handler of a library, standard or unknown exception throws on every path unless the user's own option chose to have it reported; "
               "handlers of a single look-up do something; destructors let no exception out (explicit throws, checked look-ups and conversions, through the call graph).")
    T = Throws(F)
    for f in F.fns.values():
        f.load()
        roots = ([f.body] if f.body >= 0 else []) + [e[2] for e in f.inits if e[2] >= 0]
        for r in roots:
            for i in f.walk(r):
                n = f.n(i)
                k = n["k"]
                if k == "Throw":
                    if not f.c(i):
                        R.ok("throw", f.loc(i) + " " + f.qn + " rethrows")
                        continue
                    t = n.get("tt") or f.n(f.c(i)[0]).get("t")
                    R.check(standard(F, t) and not t.rstrip().endswith("*"), "throw", "%s throws %s" % (f.qn, base(t)), f.loc(i),
                            "%s throws a %s, which no handler of std::exception catches" % (f.qn, base(t)))
                    m = message(f, f.c(i)[0])
                    R.check(m is None or m.strip() != "" or any(f.k(y) in ("Call", "Ref", "Member") for y in f.walk(f.c(i)[0])), "message", "%s message %s" % (f.qn, base(t)), f.loc(i),
                            "%s throws a %s without a message" % (f.qn, base(t)))
                elif k == "Call":
                    fn = n.get("fn", "")
                    if fn.startswith("std::"):
                        fn = fn[5:]
                    if fn in KILL:
                        R.bad("ends", "%s %s" % (f.qn, fn), f.loc(i), "%s ends the program by %s() instead of raising an exception" % (f.qn, fn))
                elif k == "CXXTryStmt":
                    for h in handlers(f, i):
                        ct = base(f.n(h)["ct"])
                        key = "%s catch %s" % (f.qn, ct)
                        body = f.c(h)
                        ends = always_throws(F, f, body, True)
                        inner = f.c(body[0]) if body and f.k(body[0]) == "Block" else body
                        if ct in LOOKUP:
                            R.check(ends or any(f.k(x) != "NullStmt" for x in inner), "handler", key, f.loc(h), "%s drops a caught %s" % (f.qn, ct))
                        else:
                            R.check(ends, "handler", key, f.loc(h), "%s catches %s and can go on as if nothing had happened" % (f.qn, "everything" if ct == "..." else ct))
                        cv = f.n(h).get("cv", -1)
                        for b in body:
                            for x in f.walk(b):
                                if f.k(x) == "Throw" and f.c(x):
                                    y = f.c(x)[0]
                                    while f.k(y) in ("Cast",) or f.k(y) == "Construct" and (f.n(y).get("copy") or f.n(y).get("move")):
                                        y = f.c(y)[0]
                                    if f.k(y) == "Ref" and f.n(y).get("v") == cv and cv is not None and cv >= 0:
                                        c = F.by_ty.get(ct)
                                        c = F.classes.get(c) if isinstance(c, str) else c
                                        sub = c is None or bool([s for s in F.all_subs(c["u"]) if s != c["u"]])
                                        R.check(not sub, "slice", key + " again", f.loc(x), "%s throws a copy of the caught %s: what was thrown originally may be of a class below it" % (f.qn, ct))
    nd = 0
    for f in F.fns.values():
        if f.kind == "dtor":
            nd += 1
            out = T.of(f)
            R.check(not out, "destructor", f.qn, f.loc(f.body) if f.body >= 0 else f.qn,
                    "%s may let %s escape (%s)" % (f.qn, ", ".join(sorted(out)), "; ".join(sorted(out.values())[:2])))
    R.ok("ends", "%d functions" % len(F.fns))
    R.floor("throw", 40)
    R.floor("handler", 7)
    R.floor("destructor", 20)
    return R.finish(F)
