"""Flow-insensitive value resolution: which values an expression can denote, looking through locals,
copies, references and small helper functions (call-by-call, with their arguments bound)."""
from flow import strip

MAXDEPTH = 12


def basename(t):
    """class spelled in a type, without cv, reference and one pointer"""
    t = t.strip()
    for p in ("const ", "volatile ", "class ", "struct "):
        if t.startswith(p):
            t = t[len(p):]
    t = t.rstrip("&").strip()
    if t.endswith("const"):
        t = t[:-5].strip()
    if t.endswith("*"):
        t = t[:-1].strip()
    return t


class Values(object):
    def __init__(self, F, opaque=()):
        """opaque: last names of functions whose calls are kept as calls, not looked into"""
        self.F, self.opaque = F, frozenset(opaque)
        self._assign = {}

    def assigns(self, f):
        """var -> list of nodes it is given (initialiser and assignments); None entry = unknown change"""
        if f.u not in self._assign:
            m = {}
            for i in f.walk():
                n = f.n(i)
                k = n["k"]
                if k == "Decl":
                    for v, init, style in n["d"]:
                        if v >= 0 and init >= 0:
                            m.setdefault(v, []).append(init)
                elif (k == "Binary" and n["op"] == "=") or (k == "Call" and n.get("op") == "=" and len(f.c(i)) == 2):
                    l = strip(f, f.c(i)[0])
                    if f.k(l) == "Ref" and "v" in f.n(l):
                        m.setdefault(f.n(l)["v"], []).append(f.c(i)[1])
                elif k == "CompoundAssign" or (k == "Unary" and ("++" in n["op"] or "--" in n["op"])) or (k == "Call" and n.get("op") in ("+=", "-=")):
                    l = strip(f, f.c(i)[0])
                    if f.k(l) == "Ref" and "v" in f.n(l):
                        m.setdefault(f.n(l)["v"], []).append(None)
            self._assign[f.u] = m
        return self._assign[f.u]

    def of(self, f, i, env=None, depth=0):
        """set of abstract values of node i of f; env: parameter var -> set of values"""
        env = env or {}
        U = {("?",)}
        if i is None or i < 0 or depth > MAXDEPTH:
            return U
        n = f.n(i)
        k = n["k"]
        c = n.get("c", ())
        rec = lambda j: self.of(f, j, env, depth + 1)
        if k == "Ref":
            if "v" in n:
                v = n["v"]
                if v in env:
                    return env[v]
                a = self.assigns(f).get(v)
                if v in f.params and not a:
                    return {("param", f.u, f.params.index(v))}
                if not a:
                    return {("var", f.u, v)}
                out = set()
                for x in a:
                    out |= U if x is None else rec(x)
                if v in f.params:
                    out.add(("param", f.u, f.params.index(v)))
                return out
            if "g" in n:
                return {("g", n["g"])}
            if "f" in n:
                return {("fn", n["f"])}
            if "en" in n:
                return {("en", n["en"])}
            return U
        if k == "Int" or "iv" in n:
            return {("int", str(n.get("iv", n.get("v"))))}
        if k == "Bool":
            return {("int", str(int(n["v"])))}
        if k == "Float":
            return {("flt", n["v"])}
        if k == "Str":
            return {("str", n["v"])}
        if k == "Null":
            return {("null",)}
        if k == "This":
            return env.get("this") or {("this",)}
        if k == "Cast":
            return rec(c[0]) if c else U
        if k == "Cond":
            return rec(c[1]) | rec(c[2])
        if k == "Unary":
            if n["op"] == "*":
                return {("deref", x) for x in rec(c[0])}
            if n["op"] == "&":
                return {x[1] if x[0] == "deref" else x if x[0] == "fn" else ("addr", x) for x in rec(c[0])}
            return U
        if k == "Member" and n.get("fld"):
            return {("field", n["fld"], b) for b in (rec(c[0]) if c else [("?",)])}
        if k == "Construct":
            args = [x for x in c if x >= 0]
            t = basename(n.get("t", ""))
            if t.startswith("std::basic_string<") and args:
                r = rec(args[0])
                if all(x[0] in ("str", "param", "field", "g", "var") for x in r):
                    return r
            if (n.get("copy") or n.get("move")) and args and n.get("elid"):
                return rec(args[0])
            if (n.get("copy") or n.get("move")) and args:
                r = rec(args[0])
                if all(x[0] in ("str", "ctor") for x in r):
                    return r
            return {("ctor", t, n.get("f"), tuple(frozenset(rec(x)) for x in args))}
        if k == "New":
            if n.get("arr"):
                return {("newarr", n["nt"])}
            cargs = ()
            cf = False
            for x in c:
                if x >= 0 and f.k(x) == "Construct":
                    cargs = tuple(frozenset(rec(y)) for y in f.c(x) if y >= 0)
                    cf = bool(f.n(x).get("copy") or f.n(x).get("move"))
            return {("new", n["nt"], cf, cargs)}
        if k == "Call":
            fn = n.get("f")
            if n.get("op") in ("*", "->") and len(c) == 1:
                return {("deref", x) for x in rec(c[0])}
            if fn in self.F.fns and not n.get("virt") and (n.get("fn") or "").split("::")[-1] not in self.opaque:
                g = self.F.fns[fn]
                if g.body >= 0 and depth < MAXDEPTH - 2:
                    off = 1 if n.get("obj") else 0
                    e2 = {}
                    for p, a in zip(g.params, c[off:]):
                        e2[p] = rec(a)
                    out = set()
                    this = rec(c[0]) if off else set()
                    for r in self.returns(g):
                        for v in self.of(g, r, e2, depth + 3):
                            out |= {subst_this(v, t) for t in this} if off and this else {v}
                    if out and ("?",) not in out:
                        return out
            if n.get("fn", "").startswith("std::__cxx11::basic_string") or n.get("fn", "").startswith("std::move"):
                return rec(c[0]) if c else U
            return {("call", fn, n.get("fn"), tuple(frozenset(rec(x)) for x in c))}
        if k == "Lambda":
            return {("fn", n.get("f"))}
        return U

    def returns(self, f):
        return [f.c(i)[0] for i in f.walk() if f.k(i) == "Return" and f.c(i)]


def subst_this(v, t):
    if v == ("this",):
        return t
    if isinstance(v, tuple):
        return tuple(subst_this(x, t) if isinstance(x, tuple) else x for x in v)
    return v
