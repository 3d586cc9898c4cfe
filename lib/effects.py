"""What a function may change, as access paths from its object, parameters and globals (flow-insensitive, interprocedural).

A path is a root - ("this",), ("param", k), ("global", usr), ("local",), ("?",) - followed by steps (label, type): a field, an element "[]" or
"[5]". A pointer, reference or iterator stands for what it gives access to. Writes to objects local to a function are no effect of it."""
import re

LIMIT = 7
READERS = {"accumulate", "count", "count_if", "find", "find_if", "find_if_not", "min_element", "max_element", "minmax_element", "distance", "equal", "lower_bound", "upper_bound", "binary_search",
           "equal_range", "is_sorted", "all_of", "any_of", "none_of", "inner_product", "mismatch", "search", "adjacent_find", "next", "prev", "begin", "end", "cbegin", "cend", "rbegin", "rend", "size",
           "min", "max", "abs", "fabs", "move", "forward", "addressof", "ref", "cref", "make_pair", "tie", "get", "isnan", "isfinite", "to_string", "back_inserter", "inserter", "advance", "bind", "bind1st",
           "bind2nd", "mem_fun", "mem_fun_ref", "mem_fn", "make_unique", "make_shared", "static_pointer_cast", "dynamic_pointer_cast", "setw", "setprecision", "pow", "hypot"}
OUTLAST = {"copy": [2], "copy_if": [2], "copy_n": [2], "transform": None, "partial_sum": [2], "adjacent_difference": [2], "merge": [4], "set_union": [4], "set_difference": [4], "copy_backward": [2]}
CONSTM = {"begin", "end", "rbegin", "rend", "cbegin", "cend", "front", "back", "at", "operator[]", "data", "size", "empty", "find", "count", "lower_bound", "upper_bound", "equal_range", "get", "operator*",
          "operator->", "c_str", "str", "capacity", "length", "good", "is_open", "operator bool", "base", "top", "first", "second", "real", "imag", "operator()", "use_count", "key_comp", "rdbuf", "compare",
          "substr", "max_size", "fail", "eof", "what", "find_first_of", "find_last_of", "min", "max", "sum", "shape", "apply", "begin_range"}
ITER = re.compile(r"(__normal_iterator|_iterator<|_Rb_tree_(const_)?iterator|_List_(const_)?iterator|_Deque_iterator|move_iterator|back_insert_iterator|insert_iterator|reverse_iterator)")


def isptr(t):
    t = t.strip()
    return t.endswith("*") or t.endswith("* const") or t.endswith("*const")


def indirect(t):
    """a value of this type gives access to something else"""
    t = (t or "").strip()
    return isptr(t) or t.endswith("&") or bool(ITER.search(t)) or t.startswith("std::unique_ptr<") or t.startswith("std::shared_ptr<") or t.startswith("const std::shared_ptr<")


class Summary(object):
    __slots__ = ("writes", "ret", "unknown")

    def __init__(self):
        self.writes, self.ret, self.unknown = {}, frozenset(), {}

    def key(self):
        return (frozenset(self.writes), self.ret)


class Effects(object):
    """assume: {field usr: number} - what the user's options are taken to be; branches they rule out are left out"""

    def __init__(self, F, skip=None, assume=None):
        self.F, self.sum, self.skip, self.assume = F, {}, skip or (lambda f: False), assume or {}
        self.busy = []
        self.cyc = set()
        REFS.clear()
        for u, (c, fl) in F.fields.items():
            if fl.get("ref") or indirect(fl["t"]):
                REFS[u] = "ref"
            else:
                r = F.by_ty.get(fl["t"].replace("const ", "").strip())
                if r is not None and any(x.get("ref") or indirect(x["t"]) for x in r["fields"]):
                    REFS[u] = "holds"

    def of(self, f, given=()):
        """given: constants (under the assumptions) of parameters, as pairs (position, value)"""
        key = (f.u, given) if given else f.u
        s = self.sum.get(key)
        if s is not None:
            return s
        s = self.sum[key] = Summary()
        if self.skip(f):
            return s
        self.busy.append(f.u)
        for _ in range(6):
            self.cyc.discard(f.u)
            w = Walk(self, f)
            w.given = {f.params[k]: v for k, v in given if k < len(f.params)}
            n = w.run()
            same = n.key() == s.key()
            s.writes.update(n.writes)
            s.ret |= n.ret
            s.unknown.update(n.unknown)
            if same or f.u not in self.cyc:
                break
        self.busy.pop()
        return s

    def called(self, f, given=()):
        if f.u in self.busy:
            self.cyc.add(f.u)
            given = ()
        return self.of(f, given)


REFS = {}
HELD = ("~", "")


def held(p):
    """an object of its own that keeps access to p"""
    return p if p[0][0] in ("local", "fresh", "lambda") or p[-1] == HELD else p + (HELD,)


def ext(p, label, t):
    if p[0][0] == "local":
        return p
    if p[-1] == HELD:
        kind = REFS.get(label, "ref" if not isinstance(label, str) or not label.startswith("c:") else None)
        return p[:-1] if kind == "ref" else p if kind == "holds" else (("local",),)
    if len(p) > LIMIT:
        return p
    return p + ((label, t),)


class Walk(object):
    def __init__(self, E, f, outer=None):
        self.E, self.F, self.f, self.outer = E, E.F, f, outer
        f.load()
        self.pts = {}
        self.s = Summary()
        self.memo = {}
        self.params = {v: k for k, v in enumerate(f.params)}
        self.known = {}
        self.given = {}

    def run(self):
        f = self.f
        for rnd in range(12):
            before = {v: len(s) for v, s in self.pts.items()}, len(self.s.writes), len(self.s.ret), dict(self.known)
            self.memo = {}
            self.done = set()
            for e in f.inits:
                if e[2] >= 0:
                    self.init(e)
            if f.body >= 0:
                self.visit(f.body)
            if ({v: len(s) for v, s in self.pts.items()}, len(self.s.writes), len(self.s.ret), self.known) == before:
                break
        return self.s

    # ---- constants under the assumed options
    def learn(self, v, x):
        """a value given to a local variable"""
        if not self.E.assume:
            return
        c = self.const(x) if x is not None else None
        if v in self.given and self.given[v] != c:
            self.given[v] = None
        self.known[v] = c if v not in self.known or self.known[v] == c else None

    def const(self, x, depth=0):
        f = self.f
        if x is None or x < 0 or depth > 12:
            return None
        n = f.n(x)
        k = n["k"]
        c = f.c(x)
        if n.get("fv") is not None or n.get("cv") is not None:
            try:
                return float(n["fv"] if n.get("fv") is not None else n["cv"])
            except ValueError:
                return None
        if k in ("Int", "Float", "Bool"):
            v = n.get("v")
            return float(v) if not isinstance(v, str) else (1.0 if v == "true" else 0.0 if v == "false" else None if not re.match(r"^[-+0-9.eE]+$", v) else float(v))
        if k == "Cast" and c:
            return self.const(c[0], depth + 1)
        if k == "DefaultArg" and c:
            return self.const(c[0], depth + 1)
        if k == "Member":
            if n.get("fld") in self.E.assume:
                return self.E.assume[n.get("fld")]
            return self.known.get(self.chain(x))
        if k == "Ref":
            v = n.get("v", -1)
            if v is not None and v >= 0 and "g" not in n:
                if v in self.given:
                    return self.given[v]
                return self.known.get(v) if v not in self.params and self.f.vars[v][2] == "local" else None
            return None
        if k == "Unary" and c:
            a = self.const(c[0], depth + 1)
            if a is None:
                return None
            return {"!": float(not a), "-": -a, "+": a}.get(n["op"])
        if k == "Binary" and len(c) == 2:
            a, b = self.const(c[0], depth + 1), self.const(c[1], depth + 1)
            op = n["op"]
            if op == "&&":
                return 0.0 if a == 0 or b == 0 else (1.0 if a is not None and b is not None else None)
            if op == "||":
                return 1.0 if a or b else (0.0 if a is not None and b is not None else None)
            if a is None or b is None:
                return None
            if op == "/":
                return a / b if b else None
            r = {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "+": a + b, "-": a - b, "*": a * b}.get(op)
            return float(r) if r is not None else None
        if k == "Cond":
            a = self.const(c[0], depth + 1)
            return None if a is None else self.const(c[1] if a else c[2], depth + 1)
        if k == "Call":
            fn = n.get("fn", "")
            args = [self.const(y, depth + 1) for y in (c[1:] if n.get("obj") else c)]
            if fn.split("::")[-1] in ("fabs", "abs", "fabsf") and len(args) == 1:
                return None if args[0] is None else abs(args[0])
            g = self.F.fns.get(n.get("f"))
            if g is not None and not n.get("virt") and g.load()["body"] >= 0:
                b = [y for y in g.c(g.body) if g.k(y) != "NullStmt"] if g.k(g.body) == "Block" else []
                if len(b) == 1 and g.k(b[0]) == "Return" and g.c(b[0]):
                    w = Walk(self.E, g)
                    w.given = {v: a for v, a in zip(g.params, args)}
                    return w.const(g.c(b[0])[0], depth + 1)
        return None

    def init(self, e):
        f = self.f
        kind, what, x = e[0], e[1], e[2]
        if kind != "m" and f.k(x) == "Construct":
            self.construct(x, {(("this",),)})
        else:
            self.visit(x)

    def write(self, places, i, what, t=""):
        for p in places:
            if p[0][0] in ("local", "fresh") or p[-1] == HELD:
                continue
            self.s.writes.setdefault((p, what), self.f.loc(i))

    def visit(self, i):
        """effects of a statement or expression; the places an expression denotes"""
        if i is None or i < 0:
            return frozenset()
        if i in self.memo:
            return self.memo[i]
        self.memo[i] = frozenset()
        r = frozenset(self.visit0(i) or ())
        self.memo[i] = r
        return r

    def varplaces(self, v):
        f = self.f
        nm, t, kind = f.vars[v][0], f.vars[v][1], f.vars[v][2]
        if kind == "static":
            return frozenset({(("global", f.u + "#" + nm, t),)})
        base = set()
        if v in self.params and indirect(t):
            base.add((("param", self.params[v], t),))
        if indirect(t):
            return frozenset(base | self.pts.get(v, set()))
        if self.outer is not None and v not in self.params and v in getattr(self, "captured", ()):
            return self.captured[v]
        return frozenset({(("local",),)}) | frozenset(self.pts.get(v, ()))

    def note(self, v, places):
        self.pts.setdefault(v, set()).update(places)

    def visit0(self, i):
        f = self.f
        n = f.n(i)
        k = n["k"]
        c = f.c(i)
        if k == "Block" and self.E.assume:
            for y in c:
                self.visit(y)
                if self.leaves(y):
                    break
            return ()
        if k == "Binary" and self.E.assume and n["op"] in ("&&", "||"):
            a = self.const(c[0])
            self.visit(c[0])
            if a is None or bool(a) == (n["op"] == "&&"):
                self.visit(c[1])
            return ()
        if k == "Ref":
            if "g" in n:
                return {(("global", n["g"], n.get("t", "")),)}
            v = n.get("v", -1)
            return self.varplaces(v) if v is not None and v >= 0 else ()
        if k == "This":
            return {(("this",),)}
        if k == "Member":
            if n.get("g"):
                return {(("global", n["g"], n.get("t", "")),)}
            b = self.visit(c[0])
            return {ext(p, n.get("fld") or n.get("n"), n.get("t", "")) for p in b}
        if k == "Index":
            b = self.visit(c[0])
            self.visit(c[1])
            return {ext(p, self.label(c[1]), n.get("t", "")) for p in b}
        if k == "Unary":
            b = self.visit(c[0])
            op = n["op"]
            if op == "&" and self.E.assume:
                self.given_to(c[0], None)
            if "++" in op or "--" in op:
                self.given_to(c[0], None)
                t = f.n(c[0]).get("t", "")
                if indirect(t) or isptr(t):
                    self.write({p for p in self.lplaces(c[0])}, i, "pointer")
                else:
                    self.write(b, i, "value")
            return b
        if k in ("Binary", "CompoundAssign"):
            a, b = self.visit(c[0]), self.visit(c[1])
            op = n["op"]
            if op == "=" or k == "CompoundAssign" or op in ("+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="):
                t = f.n(c[0]).get("t", "")
                if op == "=" or not self.E.assume:
                    self.given_to(c[0], c[1])
                else:
                    p, q = self.const(c[0]), self.const(c[1])
                    if p is None or q is None or p or q or op not in ("+=", "-=", "*=", "|=", "&="):
                        self.given_to(c[0], None)
                if isptr(t):
                    self.assign(c[0], b)
                    self.write(self.lplaces(c[0]), i, "pointer")
                else:
                    self.write(a, i, "value")
                return a
            if op == ",":
                return b
            if isptr(f.n(c[0]).get("t", "")) and op in ("+", "-"):
                return a
            if isptr(f.n(c[1]).get("t", "")) and op == "+":
                return b
            return ()
        if k == "Cast":
            return self.visit(c[0]) if c else ()
        if k == "Decl":
            for v, x, style in n["d"]:
                if v < 0 or x < 0:
                    continue
                self.learn(v, x)
                self.declare(v, x)
            return ()
        if self.E.assume and k in ("If", "While", "For") or k == "Cond":
            at = {"If": 2, "While": 0, "For": 1, "Cond": 0}[k]
            v = self.const(c[at]) if at < len(c) and self.E.assume else None
            if v is not None:
                for y in c[:at + 1]:
                    self.visit(y)
                if k == "If":
                    self.visit(c[3] if v else (c[4] if len(c) > 4 else -1))
                    return ()
                if k == "Cond":
                    return self.visit(c[1] if v else c[2])
                if not v:
                    return ()
            if k == "Cond":
                self.visit(c[0])
                return self.visit(c[1]) | self.visit(c[2])
        if k == "Return":
            for x in c:
                r = self.visit(x)
                if indirect(f.ret or "") or r:
                    self.s.ret = self.s.ret | (r if indirect(f.ret or "") else frozenset(p for p in r if p[0][0] != "local" and indirect(f.ret or "")))
            return ()
        if k == "Call":
            return self.call(i, n, c)
        if k == "Construct":
            return self.construct(i, None)
        if k == "New":
            for x in c:
                self.visit(x)
            return {(("fresh",),)}
        if k == "Delete":
            for x in c:
                self.visit(x)
            return ()
        if k == "Lambda":
            return ()
        for x in c:
            self.visit(x)
        return ()

    def constants(self, argn):
        """arguments that are constants because of an assumption"""
        if not self.E.assume:
            return ()
        out = []
        for k, x in enumerate(argn):
            if x is None or x < 0:
                continue
            if any(self.f.k(y) in ("Member", "Ref") for y in self.f.walk(x)):
                v = self.const(x)
                if v is not None:
                    out.append((k, v))
        return tuple(out)

    def leaves(self, x):
        """nothing after this statement runs, as far as the assumptions tell"""
        f = self.f
        if x is None or x < 0:
            return False
        k = f.k(x)
        c = f.c(x)
        if k in ("Return", "Throw", "BreakStmt", "ContinueStmt"):
            return True
        if k == "Block":
            return any(self.leaves(y) for y in c)
        if k == "If":
            v = self.const(c[2]) if self.E.assume else None
            a, b = self.leaves(c[3]), self.leaves(c[4] if len(c) > 4 else -1)
            return a and b if v is None else (a if v else b)
        return False

    def chain(self, x):
        """(variable, field, ...) of a part of a local aggregate"""
        f = self.f
        out = ()
        while True:
            n = f.n(x)
            if n["k"] == "Member" and not n.get("arrow") and f.c(x):
                out = (n.get("fld"),) + out
                x = f.c(x)[0]
            elif n["k"] == "Cast" and f.c(x):
                x = f.c(x)[0]
            elif n["k"] == "Ref" and n.get("v", -1) is not None and n.get("v", -1) >= 0 and "g" not in n:
                v = n["v"]
                if v in self.params or f.vars[v][2] != "local" or indirect(f.vars[v][1]):
                    return None
                return (v,) + out
            else:
                return None

    def given_to(self, x, value):
        f = self.f
        while f.k(x) == "Cast" and f.c(x):
            x = f.c(x)[0]
        n = f.n(x)
        if n["k"] == "Member":
            c = self.chain(x)
            if c:
                self.learn(c, value)
            return
        if n["k"] == "Ref" and n.get("v", -1) is not None and n.get("v", -1) >= 0 and "g" not in n:
            self.learn(n["v"], value)

    def lplaces(self, x):
        """places of the variable or field itself, not of what it points to"""
        f = self.f
        while f.k(x) == "Cast" and f.c(x):
            x = f.c(x)[0]
        if f.k(x) == "Ref" and f.n(x).get("v", -1) is not None and f.n(x).get("v", -1) >= 0 and "g" not in f.n(x):
            v = f.n(x)["v"]
            t = f.vars[v][1]
            return self.varplaces(v) if t.rstrip().endswith("&") else ()
        return self.visit(x)

    def assign(self, lhs, places):
        f = self.f
        x = lhs
        while f.k(x) == "Cast" and f.c(x):
            x = f.c(x)[0]
        if f.k(x) == "Ref" and f.n(x).get("v", -1) is not None and f.n(x).get("v", -1) >= 0:
            self.note(f.n(x)["v"], places)

    def declare(self, v, x):
        f = self.f
        t = f.vars[v][1]
        r = self.visit(x)
        y = x
        while f.k(y) in ("Cast",) or f.k(y) == "Construct" and len(f.c(y)) == 1 and (f.n(y).get("elid") or f.n(y).get("copy") or f.n(y).get("move")):
            y = f.c(y)[0] if f.c(y) else y
            if not f.c(y):
                break
        if f.k(y) == "Lambda":
            self.note(v, {(("lambda", f.n(y).get("f")),)} if isinstance(f.n(y).get("f"), str) else set())
            return
        if indirect(t):
            self.note(v, {p for p in r if p[0][0] != "local"} or ({(("local",),)} if r else set()))
        elif self.holds(t):
            self.note(v, {held(p) for p in r if p[0][0] != "local"})

    def holds(self, t):
        """a class of the repository (a functor, an adapter) that keeps a reference, pointer or iterator it was given"""
        c = self.F.by_ty.get(t.replace("const ", "").strip())
        return c is not None and any(fl.get("ref") or indirect(fl["t"]) for fl in c["fields"])

    def label(self, x):
        f = self.f
        while f.k(x) == "Cast" and f.c(x):
            x = f.c(x)[0]
        n = f.n(x)
        if n["k"] in ("Int", "Char"):
            return "[%s]" % n["v"]
        if n["k"] == "Ref":
            v = n.get("v", -1)
            if n.get("ev") is not None:
                return "[%s]" % n["ev"]
            if v is not None and v >= 0 and v in self.params:
                return ("idx", self.params[v])
        if "cv" in n:
            return "[%s]" % n["cv"]
        return "[]"

    # ---- calls
    def bind(self, s, this, args, argnodes, i):
        """effects of a callee at this call"""
        f = self.f

        def conv(p):
            r = p[0]
            if r[0] == "this":
                bases = this
            elif r[0] == "param":
                bases = args[r[1]] if r[1] < len(args) else frozenset({(("?",),)})
            elif r[0] in ("global", "fresh", "?", "lambda"):
                return {p}
            else:
                return {(("local",),)}
            out = set()
            for b in bases:
                for lab, t in p[1:]:
                    if isinstance(lab, tuple):
                        lab = self.label(argnodes[lab[1]]) if lab[1] < len(argnodes) and argnodes[lab[1]] is not None else "[]"
                    b = ext(b, lab, t)
                out.add(b)
            return out
        for (p, what), loc in list(s.writes.items()):
            for q in conv(p):
                if q[0][0] in ("local", "fresh", "lambda") or q[-1] == HELD:
                    continue
                self.s.writes.setdefault((q, what), loc)
        out = set()
        for p in s.ret:
            out |= conv(p)
        return frozenset(out)

    def targets(self, n, this=None):
        u = n.get("f")
        out = []
        g = self.F.fns.get(u)
        if g is not None and g.load()["body"] >= 0:
            out.append(g)
        if n.get("virt") and u:
            out += [self.F.fns[x] for x in self.F.overriders(u) if x in self.F.fns and x != u and self.F.fns[x].load()["body"] >= 0]
        return out

    def call(self, i, n, c):
        f = self.f
        fn = n.get("fn", "")
        last = fn.split("::")[-1] if not fn.endswith(">") else re.sub(r"<.*>$", "", fn).split("::")[-1]
        obj = bool(n.get("obj"))
        this = self.visit(c[0]) if obj and c else frozenset({(("this",),)})
        argn = list(c[1:] if obj else c)
        args = [self.visit(x) for x in argn]
        op = n.get("op")
        if op and not obj and n.get("cm"):
            obj, this, argn, args = True, args[0] if args else frozenset(), argn[1:], args[1:]
        if self.E.assume:
            for k, t in enumerate(n.get("pt", [])):
                if t.rstrip().endswith("&") and not t.startswith("const ") and k < len(argn) and argn[k] is not None and argn[k] >= 0:
                    self.given_to(argn[k], None)
        ts = self.targets(n)
        if ts and last == "swap" and obj and argn:
            self.exchanged(c[0], argn[0], this, args[0])
        if ts:
            out = frozenset()
            given = self.constants(argn)
            for g in ts:
                out |= self.bind(self.E.called(g, given), this, args, argn, i)
            rt = n.get("t", "")
            if ts[0].ret and indirect(ts[0].ret) and not out:
                out = frozenset({(("?",),)}) if False else out
            # adapters returned by value keep what they were given
            if not out and ts[0].ret and self.holds(ts[0].ret):
                for a in args:
                    out |= frozenset(held(p) for p in a if p[0][0] != "local")
            return out
        if op == "()" or last == "operator()" or n.get("indirect"):
            return self.closure(this if obj else (args[0] if args else ()), args if obj else args[1:], argn if obj else argn[1:], i)
        return self.library(i, n, c, last, op, obj, this, args, argn)

    def closure(self, what, args, argn, i):
        out = frozenset()
        for p in what:
            if p[0][0] == "lambda":
                out |= self.runlambda(p[0][1], args, argn, i)
        return out

    def runlambda(self, u, args, argn, i):
        g = self.F.fns.get(u)
        if g is None:
            return frozenset()
        # a closure sees the variables of the function it is written in by name
        w = Walk(self.E, g, self)
        names = {self.f.vars[v][0]: v for v in range(len(self.f.vars))}
        w.captured = {}
        given = dict(self.constants([x if x is not None else -1 for x in argn]))
        w.given = {g.params[k]: v for k, v in given.items() if k < len(g.params)}
        for v in range(len(g.vars)):
            if v not in w.params and g.vars[v][0] in names:
                o = names[g.vars[v][0]]
                w.captured[v] = self.varplaces(o)
                if self.known.get(o) is not None:
                    w.given[v] = self.known[o]
                w.pts.setdefault(v, set()).update(self.varplaces(o))
        s = w.run()
        for v in w.captured:
            if v in w.known:
                o = names[g.vars[v][0]]
                self.known[o] = w.known[v] if self.known.get(o, w.known[v]) == w.known[v] else None
        out = Summary()
        # roots of the closure other than its parameters are those of the enclosing function
        free = {(p, what): l for (p, what), l in s.writes.items() if p[0][0] != "param" or self.isouter(p, w)}
        for (p, what), l in s.writes.items():
            if p[0][0] == "param":
                out.writes[(p, what)] = l
            elif p[0][0] not in ("local", "fresh"):
                self.s.writes.setdefault((p, what), l)
        out.ret = s.ret
        return self.bind(out, frozenset({(("this",),)}), args, argn, i)

    def isouter(self, p, w):
        return False

    def functor(self, x):
        """(node, lambda usr or class) of a callable argument"""
        f = self.f
        y = x
        while f.k(y) in ("Cast",) or f.k(y) == "Construct" and len(f.c(y)) == 1 and (f.n(y).get("elid") or f.n(y).get("copy") or f.n(y).get("move")):
            y = f.c(y)[0]
        if f.k(y) == "Lambda":
            u = f.n(y).get("f")
            return [("lambda", z) for z in (u if isinstance(u, list) else [u])]
        if f.k(y) == "Ref" and f.n(y).get("v", -1) is not None and f.n(y).get("v", -1) >= 0:
            l = [("lambda", p[0][1]) for p in self.pts.get(f.n(y)["v"], ()) if p[0][0] == "lambda"]
            if l:
                return l
        if f.k(y) == "Ref" and f.n(y).get("f") in self.F.fns:
            return [("fn", f.n(y)["f"])]
        t = f.n(y).get("t", "").replace("const ", "").rstrip("& ").strip()
        cl = self.F.by_ty.get(t)
        if cl:
            return [("fn", m["u"]) for m in cl["methods"] if m["n"] == "operator()"]
        return []

    def apply(self, x, elems, i):
        """calls a callable argument on elements"""
        f = self.f
        for kind, u in self.functor(x):
            if kind == "lambda":
                self.runlambda(u, elems, [None] * len(elems), i)
            else:
                g = self.F.fns.get(u)
                if g is not None and g.load()["body"] >= 0:
                    this = self.visit(x)
                    this = frozenset(p for p in this if p[0][0] != "local") or frozenset({(("local",),)})
                    self.bind(self.E.called(g), this, elems, [None] * len(elems), i)

    def library(self, i, n, c, last, op, obj, this, args, argn):
        f = self.f
        t = n.get("t", "")
        pt = n.get("pt", [])
        if obj or op:
            if not obj:
                this, args, argn = (args[0] if args else frozenset()), args[1:], argn[1:]
                objn = c[0]
            else:
                objn = c[0]
            ot = f.n(objn).get("t", "") if objn is not None and objn >= 0 else ""
            name = "operator" + op if op else last
            if name in ("operator*", "operator->") and not args:
                return frozenset(this)
            if name in ("operator[]", "at"):
                return frozenset(ext(p, self.label(argn[0]) if argn else "[]", t) for p in this)
            if name in ("begin", "end", "rbegin", "rend", "front", "back", "data", "find", "lower_bound", "upper_bound", "cbegin", "cend", "top"):
                return frozenset(ext(p, "[]", t) for p in this)
            if name in ("get", "base"):
                return frozenset(this)
            if name in ("operator++", "operator--", "operator+=", "operator-=", "operator+", "operator-") and ITER.search(ot):
                if name in ("operator++", "operator--", "operator+=", "operator-="):
                    self.write(self.lplaces(objn), i, "pointer")
                return frozenset(this)
            if name == "operator=" and indirect(ot):
                self.assign(objn, args[0] if args else frozenset())
                self.write(self.lplaces(objn), i, "pointer")
                return frozenset(this)
            if name in ("operator<<",) and "ostream" in ot or name in ("operator>>",) and "istream" in ot:
                if name == "operator>>":
                    for a in args:
                        self.write(a, i, "value")
                return frozenset(this)
            if name in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>=", "operator!", "operator&&", "operator||") or name in CONSTM or n.get("cmeth"):
                return frozenset()
            if "stream" in ot or "std::filebuf" in ot:
                return frozenset(this)
            if name in ("operator+", "operator-", "operator*", "operator/", "operator<<", "operator%") and not obj:
                return frozenset()
            md = None
            if self.const_method(n):
                return frozenset(this) if t.rstrip().endswith(("&", "*")) else frozenset()
            self.write(this, i, "whole" if name == "operator=" else "structure")
            if name in ("swap", "splice", "merge"):
                for a in args:
                    self.write(a, i, "structure")
                if name == "swap" and argn:
                    self.exchanged(objn, argn[0], this, args[0])
            if name in ("insert", "erase", "emplace"):
                return frozenset(ext(p, "[]", t) for p in this)
            return frozenset(this) if t.rstrip().endswith("&") else frozenset()
        if last in ("for_each", "for_each_n"):
            if argn:
                self.apply(argn[-1], [args[0]], i)
            return frozenset()
        if last == "transform":
            self.write(args[-2], i, "value")
            self.apply(argn[-1], [args[0]] if len(args) < 5 else [args[0], args[2]], i)
            return frozenset()
        if last in ("copy_if", "remove_if", "partition", "stable_partition", "count_if", "find_if", "sort", "stable_sort", "accumulate", "generate", "any_of", "all_of", "none_of", "max_element", "min_element",
                    "nth_element", "unique", "remove_copy_if", "generate_n"):
            if argn:
                self.apply(argn[-1], [args[0], args[0]], i)
        if last in READERS:
            out = frozenset()
            if last not in ("pow", "fabs", "abs", "size"):
                for a in args:
                    out |= a
            return out
        if last in ("copy", "copy_n", "copy_if", "copy_backward", "partial_sum", "remove_copy_if", "unique_copy", "reverse_copy"):
            if len(args) > 2:
                self.write(args[2], i, "value")
            return args[2] if len(args) > 2 else frozenset()
        if last in ("swap", "iter_swap", "exchange"):
            for a in args[:2]:
                self.write(a, i, "whole")
            if len(argn) > 1:
                self.exchanged(argn[0], argn[1], args[0], args[1])
            return frozenset()
        std = n.get("fn", "").startswith("std::")
        for k, a in enumerate(args):
            p = pt[k] if k < len(pt) else ""
            if std and (ITER.search(p) and "const" not in p.split("<", 1)[-1].split(",")[0] or p.rstrip().endswith("&") and not p.startswith("const ")) and last not in ("getline",):
                self.write(a, i, "whole")
            elif std and last == "getline" and k == 1:
                self.write(a, i, "value")
        return frozenset()

    def exchanged(self, x, y, px, py):
        """what was done to the contents of the one is done to those of the other"""
        f = self.f
        for a, b in ((x, py), (y, px)):
            for z in f.walk(a):
                n = f.n(z)
                if n["k"] == "Ref" and n.get("v", -1) is not None and n.get("v", -1) >= 0 and "g" not in n:
                    self.note(n["v"], {p for p in b if p[0][0] not in ("local", "fresh")})

    def const_method(self, n):
        f = n.get("f") or ""
        # the key of a const method ends in '1' after the parameter list
        return f.endswith("#1")

    def construct(self, i, this):
        f = self.f
        n = f.n(i)
        c = [x for x in f.c(i) if x is not None and x >= 0]
        args = [self.visit(x) for x in c]
        g = self.F.fns.get(n.get("f"))
        if g is not None and g.load()["body"] >= 0 and not (n.get("elid")):
            self.bind(self.E.called(g), this or frozenset({(("local",),)}), args, c, i)
        out = set()
        if n.get("copy") or n.get("move") or n.get("elid"):
            for a in args[:1]:
                out |= a
            if not indirect(n.get("t", "")) and not self.holds(n.get("t", "")):
                out = {(("local",),)}
        elif indirect(n.get("t", "")) or self.holds(n.get("t", "")):
            mark = (lambda p: p) if indirect(n.get("t", "")) else held
            for a in args:
                out |= {mark(p) for p in a if p[0][0] != "local"}
        return frozenset(out) or frozenset({(("local",),)})


def show(p):
    out = {"this": "*this", "param": "argument %s", "global": "global %s", "?": "?"}.get(p[0][0], p[0][0])
    if p[0][0] in ("param", "global"):
        out = out % (p[0][1],)
    for lab, t in p[1:]:
        lab = lab if isinstance(lab, str) else "[]"
        out += lab if lab.startswith("[") else "." + lab.split("@")[-1]
    return out
