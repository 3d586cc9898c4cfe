"""Evaluates the coordinate-transformation classes over exact symbolic numbers.

Control is followed exactly; numbers are normal forms (poly.py). A comparison that the normal forms leave open splits the evaluation: both
outcomes are followed, each with what it assumes. Matrices are known as a type; everything else comes from the sources."""
import re
import poly
from poly import P, num


class Stuck(Exception):
    pass


class Raised(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Obj(object):
    def __init__(self, cls):
        self.cls, self.f = cls, {}


class Mat(object):
    def __init__(self, r, c, d=None):
        self.r, self.c = r, c
        self.d = d if d is not None else {}

    def copy(self):
        return Mat(self.r, self.c, dict(self.d))


class Lst(object):
    """a sequence container"""

    def __init__(self, items):
        self.items = {k: v for k, v in enumerate(items)}


class Iter(object):
    def __init__(self, l, k):
        self.l, self.k = l, k


class Pair(object):
    """std::pair"""

    def __init__(self, a, b):
        self.f = {"first": a, "second": b}


class Ptr(object):
    def __init__(self, o):
        self.o = o


class Cell(object):
    def __init__(self, d, k):
        self.d, self.k = d, k

    def get(self):
        if self.k not in self.d:
            raise Stuck("value of %s never set" % (str(self.k)[-40:],))
        return self.d[self.k]

    def set(self, v):
        self.d[self.k] = v


def bare(t):
    return t.replace("const ", "").rstrip("&* ").strip()


def untyped(s):
    out, d = [], 0
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out)


class Ev(object):
    def __init__(self, F, script=()):
        self.F = F
        self.script, self.used, self.assumed = list(script), [], []
        self.steps = 0
        self.fnsused = set()

    # ---- decisions
    def ask(self, op, p):
        """truth of p op 0 (op: ==, <)"""
        c = p.const()
        if c is not None:
            return c == 0 if op == "==" else c < 0
        for o, q, v in self.assumed:
            if o == op and q == p:
                return v
            if o == "==" and v and op == "<" and q in (p, poly.neg(p)):
                return False
        k = len(self.used)
        v = self.script[k] if k < len(self.script) else False
        self.used.append(v)
        self.assumed.append((op, p, v))
        return v

    # ---- calls
    def mro(self, u):
        return [u] + list(self.F.all_bases(u, True))

    def impl(self, u, cls):
        fs = {self.F.fns[x].cls: self.F.fns[x] for x in list(self.F.overriders(u)) + [u] if x in self.F.fns and self.F.fns[x].load()["body"] >= 0}
        for b in self.mro(cls):
            if b in fs:
                return fs[b]
        return self.F.fns.get(u)

    def fn(self, g, args, this=None):
        """args: values for value parameters, places (Obj, Mat, Cell) for references"""
        g.load()
        if g.body < 0:
            raise Stuck("no body of " + g.qn)
        self.fnsused.add(g.u)
        env = {"this": this}
        for v, a in zip(g.params, args):
            t = g.vars[v][1]
            env[v] = a
            if not t.rstrip().endswith("&"):
                env[v] = self.own(a)
        fr = Frame(self, g, env)
        if g.kind == "ctor":
            fr.inits()
        try:
            fr.stmt(g.body)
        except Ret as r:
            return r.v
        return None

    def own(self, a):
        """a variable of its own holding a"""
        if isinstance(a, Cell):
            a = a.get()
        if isinstance(a, (Obj, Mat)):
            return self.copy(a)
        return Cell({0: a}, 0)

    def copy(self, o):
        if isinstance(o, Mat):
            return o.copy()
        if isinstance(o, Obj):
            for g in self.F.fns.values():
                if g.kind == "ctor" and g.cls == o.cls and len(g.load()["params"]) == 1 and g.body >= 0 and bare(g.vars[g.params[0]][1]) == self.F.classes[o.cls]["ty"] \
                        and g.vars[g.params[0]][1].rstrip().endswith("&") and not g.vars[g.params[0]][1].rstrip().endswith("&&"):
                    n = Obj(o.cls)
                    self.fn(g, [o], n)
                    return n
            n = Obj(o.cls)
            n.f = {k: self.copy(v) if isinstance(v, (Obj, Mat)) else v for k, v in o.f.items()}
            return n
        return o

    def assign(self, a, b):
        """memberwise"""
        if isinstance(a, Mat):
            a.r, a.c, a.d = b.r, b.c, dict(b.d)
            return
        for k, v in b.f.items():
            if isinstance(v, (Obj, Mat)) and k in a.f:
                self.assignop(a.f[k], v)
            else:
                a.f[k] = self.copy(v)

    def assignop(self, a, b):
        if a is b:
            return
        if isinstance(a, Obj):
            for g in self.F.fns.values():
                if g.name == "operator=" and g.cls == a.cls and g.load()["body"] >= 0 and bare(g.vars[g.params[0]][1]) == self.F.classes[a.cls]["ty"]:
                    self.fn(g, [b], a)
                    return
        self.assign(a, b)


class Frame(object):
    def __init__(self, E, f, env):
        self.E, self.f, self.env = E, f, env
        self.F = E.F

    def inits(self):
        f = self.f
        this = self.env["this"]
        for e in f.inits:
            kind, what, x = e[0], e[1], e[2]
            if x < 0:
                continue
            if kind == "m":
                v = self.val(x)
                this.f[what] = v
            else:
                n = f.n(x)
                if n["k"] == "Construct":
                    g = self.F.fns.get(n.get("f"))
                    if g is not None and g.load()["body"] >= 0:
                        self.E.fn(g, self.args(g, f.c(x)), this)

    def args(self, g, xs):
        out = []
        for v, x in zip(g.params, xs):
            if g.vars[v][1].rstrip().endswith("&"):
                out.append(self.ref(x))
            else:
                out.append(self.val(x))
        return out

    # ---- statements
    def stmt(self, i):
        if i is None or i < 0:
            return
        f, E = self.f, self.E
        E.steps += 1
        if E.steps > 200000:
            raise Stuck("too long")
        n = f.n(i)
        k, c = n["k"], f.c(i)
        if k == "Block":
            for x in c:
                self.stmt(x)
        elif k == "Decl":
            for v, x, style in n["d"]:
                if v >= 0:
                    t = f.vars[v][1]
                    if t.rstrip().endswith("]"):
                        self.env[v] = Cell({0: self.array(t, x)}, 0)
                    elif x is None or x < 0:
                        self.env[v] = self.fresh(t)
                    elif t.rstrip().endswith("&"):
                        self.env[v] = self.ref(x)
                    else:
                        a = self.val(x)
                        self.env[v] = a if isinstance(a, (Obj, Mat)) else Cell({0: Iter(a.l, a.k) if isinstance(a, Iter) else a}, 0)
        elif k == "Return":
            if not c:
                raise Ret(None)
            raise Ret(self.ref(c[0]) if f.ret.rstrip().endswith("&") else self.val(c[0]))
        elif k == "If":
            init, var, cond, then, els = (list(c) + [-1] * 5)[:5]
            self.stmt(init)
            self.stmt(var)
            self.stmt(then if self.truth(cond) else els)
        elif k in ("For", "While", "Do"):
            if k == "For":
                init, cond, inc, body = c
                self.stmt(init)
            elif k == "While":
                cond, body, inc = c[-2], c[-1], -1
            else:
                body, cond, inc = c[0], c[1], -1
            first, rounds = k == "Do", 0
            while first or cond < 0 or self.truth(cond):
                first = False
                rounds += 1
                if rounds > 200:
                    raise Stuck("loop")
                try:
                    self.stmt(body)
                except Brk:
                    break
                except Cnt:
                    pass
                if inc >= 0:
                    self.val(inc)
        elif k == "RangeFor":
            x = self.ref(next(f.n(y)["d"][0][1] for y in c[:2] if y is not None and y >= 0 and f.k(y) == "Decl"))
            x = x.get() if isinstance(x, Cell) else x
            if not isinstance(x, Lst):
                raise Stuck("range at " + f.loc(i))
            v = f.n(c[5])["d"][0][0]
            for j in sorted(x.items):
                self.env[v] = Cell(x.items, j) if f.vars[v][1].rstrip().endswith("&") else Cell({0: x.items[j]}, 0)
                try:
                    self.stmt(c[6])
                except Brk:
                    break
                except Cnt:
                    pass
        elif k == "Switch":
            v = self.val(c[-2])
            ks = f.c(c[-1])
            on = False
            order = list(ks)
            start = None
            for j, x in enumerate(order):
                y = x
                while f.k(y) in ("Case", "Default", "CaseStmt", "DefaultStmt"):
                    if f.k(y).startswith("Case") and start is None and self.val(f.c(y)[0]) == v:
                        start = j
                    y = f.c(y)[-1]
            if start is None:
                for j, x in enumerate(order):
                    y = x
                    while f.k(y) in ("Case", "Default", "CaseStmt", "DefaultStmt"):
                        if f.k(y).startswith("Default") and start is None:
                            start = j
                        y = f.c(y)[-1]
            if start is not None:
                try:
                    for x in order[start:]:
                        y = x
                        while f.k(y) in ("Case", "Default", "CaseStmt", "DefaultStmt"):
                            y = f.c(y)[-1]
                        self.stmt(y)
                except Brk:
                    pass
        elif k == "BreakStmt":
            raise Brk()
        elif k == "ContinueStmt":
            raise Cnt()
        elif k == "NullStmt":
            pass
        else:
            self.val(i)

    def fresh(self, t):
        b = bare(t)
        if "Matrix<" in b and not t.rstrip().endswith("*"):
            return Mat(0, 0)
        if b.startswith("std::pair<") or b.endswith("::Extent"):
            return Pair(num(0), num(0))
        c = self.F.by_ty.get(b)
        if c is not None and not t.rstrip().endswith("*"):
            return Obj(c["u"])
        return Cell({}, 0)

    def truth(self, i):
        v = self.val(i)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, Ptr):
            return True
        if isinstance(v, P):
            return not self.E.ask("==", v)
        raise Stuck("condition at " + self.f.loc(i))

    # ---- expressions
    def val(self, i):
        r = self.ref(i)
        if isinstance(r, Cell):
            return r.get()
        return r

    def ref(self, i):
        f, E = self.f, self.E
        E.steps += 1
        n = f.n(i)
        k, c = n["k"], f.c(i)
        if "iv" in n and k not in ("Ref", "Call", "Construct", "Bool"):
            return num(int(n["iv"]))
        if k in ("Int", "Char"):
            return num(int(n["v"]))
        if k == "Bool":
            return n["v"] in (True, 1, "1", "true")
        if k == "Float":
            from fractions import Fraction
            return num(Fraction(str(n["v"])))
        if k == "Null":
            return None
        if k == "This":
            return Ptr(self.env["this"])
        if k == "Cast":
            if not c:
                raise Stuck("cast")
            return self.ref(c[0])
        if k == "Ref":
            if "en" in n:
                return num(int(n["ev"])) if "ev" in n else poly.atom(("enum", n["en"]))
            if "v" in n:
                return self.env[n["v"]]
            raise Stuck("global %s" % n.get("g"))
        if k == "Member":
            b = self.ref(c[0])
            if isinstance(b, Cell):
                b = b.get()
            if isinstance(b, Ptr):
                b = b.o
            if isinstance(b, Pair):
                return Cell(b.f, n.get("n", "").split("::")[-1] or n["fld"].split("@")[-1])
            if not isinstance(b, Obj):
                raise Stuck("member of nothing at " + f.loc(i))
            v = b.f.get(n["fld"])
            if isinstance(v, (Obj, Mat)):
                return v
            return Cell(b.f, n["fld"])
        if k == "Unary":
            op = n["op"]
            a = self.ref(c[0])
            if op == "*":
                a = a.get() if isinstance(a, Cell) else a
                if not isinstance(a, Ptr):
                    raise Stuck("null dereferenced at " + f.loc(i))
                return a.o
            if op == "&":
                return Ptr(a)
            if "++" in op or "--" in op:
                old = a.get()
                if not isinstance(old, P):
                    raise Stuck("step of a pointer")
                a.set(poly.add(old, num(1 if "++" in op else -1)))
                return old if op.endswith("post") or n.get("post") else a
            a = a.get() if isinstance(a, Cell) else a
            if op == "-":
                return poly.neg(a)
            if op == "+":
                return a
            if op == "!":
                return not (a if isinstance(a, bool) else isinstance(a, Ptr) if not isinstance(a, P) else not E.ask("==", a))
            raise Stuck("operator " + op)
        if k in ("Binary", "CompoundAssign"):
            return self.binary(i, n, c)
        if k == "Cond":
            return self.ref(c[1] if self.truth(c[0]) else c[2])
        if k == "Construct":
            return self.construct(i, n, c)
        if k == "New":
            for y in c:
                if y >= 0 and f.k(y) in ("Construct", "InitList"):
                    return Ptr(self.val(y))
            C = self.F.by_ty.get(bare(n.get("nt") or n.get("t", "")))
            if C is None:
                raise Stuck("new")
            return Ptr(Obj(C["u"]))
        if k == "Delete":
            return None
        if k == "Throw":
            raise Raised()
        if k == "Call":
            return self.call(i, n, c)
        if k in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"):
            return num(0)
        if k == "InitList" and len(c) == 1:
            return self.ref(c[0])
        if k == "Index":
            b = self.ref(c[0])
            b = b.get() if isinstance(b, Cell) else b
            j = self.val(c[1])
            j = j.const() if isinstance(j, P) else None
            if not isinstance(b, Lst) or j is None or j.denominator != 1:
                raise Stuck("index at " + f.loc(i))
            return Cell(b.items, int(j)) if not isinstance(b.items.get(int(j)), (Obj, Mat)) else b.items[int(j)]
        raise Stuck("%s at %s" % (k, f.loc(i)))

    def array(self, t, x):
        """a C array: a list of its elements; those left out of its initialiser are zero, without initialiser they are unset"""
        f = self.f
        m = re.match(r"(.*)\[(\d+)\]$", t.strip())
        if m is None or "[" in m.group(1):
            raise Stuck("array of arrays")
        l = Lst([])
        if x is None or x < 0:
            return l
        if f.k(x) != "InitList":
            raise Stuck("array initialiser")
        for j in range(int(m.group(2))):
            ys = f.c(x)
            y = ys[j] if j < len(ys) else -1
            l.items[j] = self.val(y) if y is not None and y >= 0 else num(0)
        return l

    def binary(self, i, n, c):
        E = self.E
        op = n["op"]
        if op == "=":
            b = self.val(c[1])
            a = self.ref(c[0])
            if isinstance(a, Cell):
                a.set(b)
            else:
                E.assignop(a, b)
            return a
        if op in ("&&", "||"):
            a = self.truth(c[0])
            if a != (op == "&&"):
                return a
            return self.truth(c[1])
        if op == ",":
            self.val(c[0])
            return self.ref(c[1])
        a = self.ref(c[0])
        b = self.val(c[1])
        x = a.get() if isinstance(a, Cell) else a
        if op in ("==", "!="):
            if isinstance(x, P) and isinstance(b, P):
                r = E.ask("==", poly.sub(x, b))
            elif isinstance(x, bool) or isinstance(b, bool):
                r = (x if isinstance(x, bool) else bool(x.const())) == (b if isinstance(b, bool) else bool(b.const()))
            else:
                r = (x.o if isinstance(x, Ptr) else None) is (b.o if isinstance(b, Ptr) else None)
            return r if op == "==" else not r
        if not (isinstance(x, P) and isinstance(b, P)):
            raise Stuck("operands of %s at %s" % (op, self.f.loc(i)))
        if op == "<":
            return E.ask("<", poly.sub(x, b))
        if op == ">":
            return E.ask("<", poly.sub(b, x))
        if op == "<=":
            return not E.ask("<", poly.sub(b, x))
        if op == ">=":
            return not E.ask("<", poly.sub(x, b))
        o = op[:-1] if n["k"] == "CompoundAssign" else op
        fn = {"+": poly.add, "-": poly.sub, "*": poly.mul, "/": poly.div}.get(o)
        if fn is None:
            raise Stuck("operator " + op)
        r = fn(x, b)
        if r is None:
            raise Stuck("division by zero at " + self.f.loc(i))
        if n["k"] == "CompoundAssign":
            a.set(r)
            return a
        return r

    def construct(self, i, n, c):
        f, E = self.f, self.E
        t = bare(n.get("t", ""))
        if t.startswith("class ") or t.startswith("struct "):
            t = t.split(" ", 1)[1]
        if t.endswith("IdentityMatrix"):
            if n.get("copy") or n.get("move"):
                return self.val(c[0])
            k = int(self.val(c[0]).const())
            return Mat(k, k, {(a, b): poly.ONE if a == b else poly.ZERO for a in range(k) for b in range(k)})
        if "Matrix<" in t:
            a = [self.val(x) for x in c if x >= 0]
            if not a:
                return Mat(0, 0)
            if isinstance(a[0], Mat):
                return a[0].copy()
            r, k = int(a[0].const()), int(a[1].const())
            return Mat(r, k, {(p, q): a[2] for p in range(r) for q in range(k)} if len(a) > 2 and isinstance(a[2], P) else {})
        if t.startswith("std::pair<") or t.endswith("::Extent"):
            v = [self.val(x) for x in c if x >= 0]
            if len(v) == 1:
                return Pair(v[0].f["first"], v[0].f["second"])
            return Pair(*(v or [num(0), num(0)]))
        if "iterator" in t and len(c) == 1:
            v = self.val(c[0])
            return Iter(v.l, v.k)
        if "iterator" in t and not c:
            return Iter(None, 0)
        C = self.F.by_ty.get(t)
        if n.get("copy") or n.get("move"):
            v = self.val(c[0])
            return v if n.get("elid") else E.copy(v)
        if C is None:
            if len(c) == 1:
                return self.val(c[0])
            raise Stuck("object of type " + t)
        o = Obj(C["u"])
        g = self.F.fns.get(n.get("f"))
        if g is not None and g.load()["body"] >= 0:
            E.fn(g, self.args(g, c), o)
        else:
            self.implicit(o)
        return o

    def implicit(self, o):
        """an implicit default constructor"""
        C = self.F.classes[o.cls]
        for b in C["fields"]:
            t = b.get("ty") or b.get("t", "")
            D = self.F.by_ty.get(bare(t))
            if D is not None and not t.rstrip().endswith("*"):
                p = Obj(D["u"])
                for g in self.F.fns.values():
                    if g.kind == "ctor" and g.cls == D["u"] and not g.load()["params"] and g.body >= 0:
                        self.E.fn(g, [], p)
                        break
                o.f[b["u"]] = p

    def call(self, i, n, c):
        f, E = self.f, self.E
        fn = n.get("fn", "")
        last = untyped(fn).split("::")[-1] if not n.get("op") else ""
        op = n.get("op")
        t0 = bare(f.n(c[0]).get("t", "")) if c else ""
        if "Matrix<" in t0 or "Matrix<" in fn:
            r = self.matrix(i, n, c, op, fn.split("::")[-1])
            if r is not NotImplemented:
                return r
        if last in ("cos", "sin", "atan2", "fequal", "fabs", "abs", "sqrt", "pow", "atan", "tan", "acos", "asin") and not n.get("obj") and \
                (self.F.fns.get(n.get("f")) is None or last == "fequal"):
            a = [self.val(x) for x in (c[:2] if last == "fequal" else c) if x >= 0]
            if last == "fequal":
                return E.ask("==", poly.sub(a[0], a[1]))
            if last in ("cos", "sin"):
                return getattr(poly, last)(a[0])
            if last == "atan2":
                return poly.atan2(*a)
            if last == "pow" and a[1].const() is not None and a[1].const().denominator == 1 and 0 <= a[1].const() < 6:
                r = poly.ONE
                for _ in range(int(a[1].const())):
                    r = poly.mul(r, a[0])
                return r
            if last in ("fabs", "abs"):
                return poly.neg(a[0]) if E.ask("<", a[0]) else a[0]
            return poly.opaque(last, *a)
        if fn.startswith("std::") and last in ("move", "forward", "max", "min"):
            if last in ("max", "min"):
                a, b = self.val(c[0]), self.val(c[1])
                lt = E.ask("<", poly.sub(a, b))
                return (b if lt else a) if last == "max" else (a if lt else b)
            return self.ref(c[0])
        if fn.startswith("std::") and last == "swap" and len(c) == 2:
            p, q = self.ref(c[0]), self.ref(c[1])
            if isinstance(p, Cell):
                u, v = p.get(), q.get()
                p.set(v)
                q.set(u)
                return None
        if fn.startswith("std::make_pair"):
            return Pair(self.val(c[0]), self.val(c[1]))
        if (fn.startswith("std::") or fn.startswith("__gnu_cxx::")) and c:
            o = self.ref(c[0])
            o = o.get() if isinstance(o, Cell) else o
            o = o.o if isinstance(o, Ptr) and isinstance(o.o, Lst) else o
            if isinstance(o, Lst):
                if last in ("begin", "cbegin"):
                    return Iter(o, 0)
                if last in ("end", "cend"):
                    return Iter(o, len(o.items))
                if last == "size":
                    return num(len(o.items))
                if last == "empty":
                    return not o.items
                if last in ("front", "back"):
                    return Cell(o.items, 0 if last == "front" else len(o.items) - 1)
                if op == "[]" or last == "at":
                    return Cell(o.items, int(self.val(c[1]).const()))
            if isinstance(o, Iter):
                if op in ("==", "!="):
                    b = self.val(c[1])
                    return (o.k == b.k) == (op == "==")
                if op in ("++", "--"):
                    r = Iter(o.l, o.k)
                    o.k += 1 if op == "++" else -1
                    return r if len(c) > 1 else o
                if op in ("+", "-") and len(c) == 2:
                    return Iter(o.l, o.k + (1 if op == "+" else -1) * int(self.val(c[1]).const()))
                if op == "*":
                    if o.k not in o.l.items:
                        raise Stuck("past the end at " + f.loc(i))
                    return Cell(o.l.items, o.k)
                if op == "=":
                    b = self.val(c[1])
                    o.l, o.k = b.l, b.k
                    return o
                if last in ("next", "prev"):
                    return Iter(o.l, o.k + (1 if last == "next" else -1))
            if isinstance(o, Pair) and op == "=":
                b = self.val(c[1])
                o.f.update(b.f)
                return o
        g = self.F.fns.get(n.get("f"))
        this = None
        xs = [x for x in c]
        if n.get("obj"):
            this = self.ref(xs[0])
            this = this.get() if isinstance(this, Cell) else this
            this = this.o if isinstance(this, Ptr) else this
            xs = xs[1:]
            if n.get("virt") and isinstance(this, Obj):
                h = E.impl(n["f"], this.cls)
                g = h or g
        if op == "=" and n.get("obj") and (g is None or g.load()["body"] < 0):
            E.assign(this, self.val(xs[0]))
            return this
        if g is None or g.load()["body"] < 0:
            if op == "=" and n.get("obj"):
                E.assign(this, self.val(xs[0]))
                return this
            if n.get("noret") or fn in ("__assert_fail",):
                raise Raised()
            raise Stuck("call of %s at %s" % (fn, f.loc(i)))
        if n.get("obj") and this is None:
            raise Stuck("call through nothing at " + f.loc(i))
        r = E.fn(g, self.args(g, xs), this)
        return r

    def matrix(self, i, n, c, op, last):
        E = self.E
        if op == "()" and len(c) == 3:
            m = self.ref(c[0])
            if not isinstance(m, Mat):
                return NotImplemented
            k = tuple(int(self.val(x).const()) for x in c[1:])
            if not (0 <= k[0] < m.r and 0 <= k[1] < m.c):
                raise Stuck("matrix element outside at " + self.f.loc(i))
            return Cell(m.d, k)
        if op == "*":
            a, b = self.val(c[0]), self.val(c[1])
            if isinstance(a, Mat) and isinstance(b, Mat):
                if a.c != b.r:
                    raise Stuck("matrix sizes")
                d = {}
                for p in range(a.r):
                    for q in range(b.c):
                        s = poly.ZERO
                        for r in range(a.c):
                            s = poly.add(s, poly.mul(a.d[(p, r)], b.d[(r, q)]))
                        d[(p, q)] = s
                return Mat(a.r, b.c, d)
            raise Stuck("matrix product")
        if op == "=" or last == "copy":
            a, b = self.ref(c[0]), self.val(c[1])
            a.r, a.c, a.d = b.r, b.c, dict(b.d)
            return a
        if last in ("nrows", "ncols"):
            m = self.ref(c[0])
            return num(m.r if last == "nrows" else m.c)
        if last in ("Transpose", "transpose"):
            m = self.val(c[0])
            return Mat(m.c, m.r, {(b, a): v for (a, b), v in m.d.items()})
        return NotImplemented


def paths(F, fn, limit=64):
    """fn(E) for every way the open comparisons can come out: (assumptions, value or exception)"""
    out, todo = [], [[]]
    used = set()
    while todo and len(out) < limit:
        s = todo.pop()
        E = Ev(F, s)
        try:
            r = fn(E)
        except Raised:
            r = Raised
        out.append((E.assumed, r))
        used |= E.fnsused
        for k in range(len(s), len(E.used)):
            todo.append(E.used[:k] + [not E.used[k]])
    return out, used


HALF = {"0": (poly.ONE, poly.ZERO), "pi": (poly.ZERO, poly.ONE)}


def put(p, m):
    """p with numbers for atoms; an angle made of them that vanishes has cosine 1 and sine 0"""
    if not m:
        return p
    A, X = poly.angles(p)
    add = {}
    for b in A:
        if ("c", b) in m:
            continue
        v = poly.subst(P({b: 1}), m)
        if v is not None and v.const() == 0:
            add[("c", b)], add[("s", b)] = poly.ONE, poly.ZERO
    return poly.subst(p, dict(m, **{}) | add)


def cases(assumed):
    """numbers for atoms under which all assumptions hold, as far as they can be found: a list of substitutions; [{}] when nothing was assumed equal"""
    eqs = [p for op, p, v in assumed if op == "==" and v]
    if not eqs:
        return [{}]
    A, X = set(), set()
    for p in eqs:
        a, x = poly.angles(p)
        A |= a
        X |= x
    A, X = sorted(A, key=str), sorted(X, key=str)
    out = []

    def rec(k, m):
        if len(out) > 400:
            return
        if k < len(A):
            a = A[k]
            c, s = ("c", a), ("s", a)
            rec(k + 1, m)
            for v in HALF.values():
                rec(k + 1, dict(m, **{}) | {c: v[0], s: v[1]})
            for b in A[:k]:
                if ("c", b) in m:
                    continue
                bc, bs = P({((("c", b), 1),): 1}), P({((("s", b), 1),): 1})
                for v in ((bc, bs), (bc, poly.neg(bs)), (bs, bc), (poly.neg(bs), bc)):
                    rec(k + 1, m | {c: v[0], s: v[1]})
        elif k < len(A) + len(X):
            x = X[k - len(A)]
            rec(k + 1, m)
            # solve the first equation linear in x with a constant coefficient
            for p in eqs:
                q = put(p, m)
                if q is None:
                    continue
                lin = [(t, cc) for t, cc in q.t.items() if any(at == x for at, e in t)]
                if len(lin) == 1 and lin[0][0] == ((x, 1),):
                    rest = poly.sub(q, P({lin[0][0]: lin[0][1]}))
                    rec(k + 1, m | {x: poly.mul(poly.num(-1 / lin[0][1]), rest)})
                    break
        else:
            if m in out:
                return
            for op, p, v in assumed:
                q = put(p, m)
                if q is None:
                    return
                cst = q.const()
                if op == "==" and v and cst != 0:
                    return
                if op == "==" and not v and cst == 0:
                    return
                if op == "<" and cst is not None and (cst < 0) != v:
                    return
            out.append(m)
    rec(0, {})
    # keep only the most general ones
    return [m for m in out if not any(o is not m and len(o) < len(m) and all(m.get(k) == v for k, v in o.items()) for o in out)]
