"""What tracking does to one particle: abstract interpretation of the integrators over value graphs.

The bunch holds one generic particle whose coordinates are symbols (or zero). Control that the abstract values decide is followed
exactly (matrix and map storage is concrete: entries are abstract values at known positions); a condition they do not decide splits the
analysis into both cases, each decided the same way wherever it is asked again. Loops with an undecided bound use the fixpoint of
vg.Frame.loop. Standard containers and algorithms are modelled; everything of Merlin is followed into its source."""
import vg
from vg import mk, num, ZERO, ONE, TRUE, FALSE, V, St, Out, Frame, Graph, last, truth, nt, land, lor, cmp, add, sub, mul, phi, sel, rec, iscplx, below, parent, psel, overlay
from fractions import Fraction
from flow import strip
import re

ROUNDS = 600
WIDE = 40


class KMem(dict):
    """memory with an index of what is stored under each place"""

    def __init__(self, other=None):
        dict.__init__(self)
        self.kids = {}
        if other is not None:
            for k, v in other.items():
                self[k] = v

    def __setitem__(self, p, v):
        if p not in self:
            x = p
            while x.op in ("fld", "idx"):
                q = x.args[0]
                s = self.kids.get(q)
                if s is None:
                    s = self.kids[q] = {}
                if x in s:
                    break
                s[x] = None
                x = q
        dict.__setitem__(self, p, v)

    def __delitem__(self, p):
        dict.__delitem__(self, p)
        x = p
        while x.op in ("fld", "idx") and x not in self and not self.kids.get(x):
            q = x.args[0]
            s = self.kids.get(q)
            if s is not None:
                s.pop(x, None)
            x = q

    def under(self, p):
        out, todo = [], [p]
        while todo:
            for x in self.kids.get(todo.pop(), ()):
                if dict.__contains__(self, x):
                    out.append(x)
                todo.append(x)
        return out

    def copy(self):
        m = KMem()
        dict.update(m, self)
        m.kids = {k: dict(v) for k, v in self.kids.items()}
        return m


WIDEN = None    # applied to every value written


class BSt(St):
    __slots__ = ()

    def __init__(self, mem=None):
        self.mem = mem if isinstance(mem, KMem) else KMem(mem)

    def copy(self):
        return BSt(self.mem.copy())

    def siblings(self, par):
        return [e for e in self.mem.kids.get(par, ()) if e.op == "idx" and (e in self.mem or self.mem.under(e))]

    def write(self, p, v):
        if WIDEN is not None:
            v = WIDEN(p, v)
        for q in self.mem.under(p):
            del self.mem[q]
        q = p
        while q.op in ("fld", "idx"):
            if q.op == "idx":
                par = q.args[0]
                for e in list(self.mem.kids.get(par, ())):
                    if e.op != "idx" or e is q or e.args[1].op == "num" and q.args[1].op == "num" or vg.apart(e.args[1], q.args[1]):
                        continue
                    for o in ([e] if e in self.mem else []) + self.mem.under(e):
                        if o is not p and not below(p, o) and not below(o, p):
                            self.mem[o] = mk("f", "maybe", self.mem[o], v)
            q = q.args[0]
        self.mem[p] = v

    def read(self, p):
        kids = self.mem.kids.get(p)
        if p in self.mem:
            base = self.mem[p]
        else:
            q = parent(p)
            base = sel(self.read1(q), psel(p)) if q is not None and self.covered(q) else mk("in", p)
            base = self.perhaps(p, base)
        if kids:
            d = {}
            for q in self.mem.under(p):
                path, x = [], q
                while x is not p:
                    path.append(psel(x))
                    x = x.args[0]
                path.reverse()
                d[tuple(path)] = self.mem[q]
            if d:
                return overlay(base, d)
        return base


def bases(F, cu):
    """base classes, nearest first"""
    out, lvl = [], [cu]
    while lvl:
        nx = []
        for x in lvl:
            for b in F.classes[x]["bases"] if x in F.classes else ():
                if b["u"] in F.classes and b["u"] not in out:
                    out.append(b["u"])
                    nx.append(b["u"])
        lvl = nx
    return out


class Graph1(Graph):
    """a graph in which undecided conditions are decided case by case"""

    def __init__(self, F, script=(), depth=40, model=None, known=None):
        Graph.__init__(self, F, depth=depth)
        self.Frame = BFrame
        self.script, self.taken, self.asked, self.order = list(script), [], {}, []
        self.generic = 0
        self.nonzero = set()            # symbols that are not zero
        self.model = model
        self.known = known or (lambda c: None)
        self.trace = []                 # (function, line) of conditions decided
        self.unknown = {}
        self.limit = 2500000
        self.widened = {}
        self.par = None
        self.refs = {}
        self.sizes = {}
        self.resolve = self.virtual

    def isref(self, u):
        if u not in self.refs:
            self.refs[u] = bool(self.F.fields.get(u, (0, {}))[1].get("ref"))
        return self.refs[u]

    def decide(self, c, frame, i):
        c = truth(c)
        if c is TRUE or c is FALSE:
            return c is TRUE
        if c.op == "not":
            return not self.decide(c.args[0], frame, i)
        if c.op == "and":
            return all([self.decide(x, frame, i) for x in c.args])
        if c.op == "or":
            return any([self.decide(x, frame, i) for x in c.args])
        if c.op == "b" and c.args[0] in ("==", "t") and c.args[1].op in ("poly", "in") and c not in self.asked:
            z = self.product(c.args[1], frame, i)
            if z is not None:
                return z == (c.args[0] == "==")
        v = self.asked.get(c)
        if v is None:
            v = self.known(c)
            if v is None:
                k = self.implied(c)
                if k is None:
                    n = len(self.taken)
                    v = self.script[n] if n < len(self.script) else True
                    self.taken.append(v)
                    self.order.append((c, frame.f, i))
                else:
                    v = k
            self.asked[c] = v
        return v

    def virtual(self, frame, n):
        """the implementation for the declared type of the object (derived classes of users are not known)"""
        md = self.F.method_decl.get(n["f"])
        cu = frame.objclass(n)
        if cu is not None and md is not None:
            for x in [cu] + bases(self.F, cu):
                for m in self.F.classes[x]["methods"]:
                    if m["n"] == md[1]["n"] and len(m["pt"]) == len(md[1]["pt"]) and bool(m.get("const")) == bool(md[1].get("const")):
                        return self.F.fns.get(m["u"])
        return None

    def implied(self, c):
        """what the conditions decided so far say about c"""
        z = {a.args[1]: ZERO for a, v in self.asked.items() if v and a.op == "b" and a.args[0] == "==" and a.args[1].op == "in"}
        if z:
            d = vg.subst(c, z)
            if d is TRUE or d is FALSE:
                return d is TRUE
        if c.op == "b" and c.args[0] == "t":
            e = mk("b", "==", vg.canonsign(c.args[1])[1])
            if e in self.asked:
                return not self.asked[e]
        if c.op == "b" and c.args[0] == "==":
            e = mk("b", "t", c.args[1])
            if e in self.asked:
                return not self.asked[e]
            z = self.roots(c.args[1])
            if z is not None:
                return z
        if c.args[0] == "<" and c.op == "b":
            x = c.args[1]
            if x.op == "f" and x.args[0] in ("sqrt", "fabs"):
                return False
            y = vg.neg(x)
            if y.op == "f" and y.args[0] == "sqrt":
                e = mk("b", "==", y)
                k = self.asked.get(e, self.implied(e))
                if k is not None:
                    return not k
            e = mk("b", "==", vg.canonsign(c.args[1])[1])
            if self.asked.get(e) is True:
                return False
            o = mk("b", "<", vg.neg(c.args[1]))
            if self.asked.get(o) is True:
                return False
        if c.op == "b" and c.args[0] == "==":
            for s in (c.args[1], vg.neg(c.args[1])):
                if self.asked.get(mk("b", "<", s)) is True:
                    return False
        return None


    def product(self, v, frame, i):
        """is a product zero, factor by factor"""
        if v.op == "in":
            return False if v in self.nonzero or v.args[0].op == "g" else None
        if len(v.args[0]) != 1:
            return None
        m, c = v.args[0][0]
        return any([self.decide(mk("b", "==", a), frame, i) for a, e in m if e > 0])

    def zero(self, v):
        """is it zero, as far as was decided"""
        if v is ZERO:
            return True
        if v in self.nonzero or v.op == "in" and v.args[0].op == "g":
            return False
        k = self.asked.get(mk("b", "==", vg.canonsign(v)[1]))
        if k is None and v.op == "poly" and len(v.args[0]) == 1:
            zs = [self.zero(a) for a, e in v.args[0][0][0] if e > 0]
            return True if True in zs else None if None in zs else False
        return k

    def roots(self, v):
        """is the square root of a sum of squares zero, as far as the squares are known?"""
        if v.op != "f" or v.args[0] != "sqrt" or v.args[1].op != "poly":
            return None
        allz = True
        for m, c in v.args[1].args[0]:
            if c < 0 or any(e % 2 for a, e in m):
                return None
            r = vg.from_terms({tuple((a, e // 2) for a, e in m): 1})
            k = self.zero(r)
            if k is False:
                return False
            allz = allz and k is True
        return True if allz else None


ITERT = re.compile(r"__normal_iterator<|_Rb_tree|^(const )?PSvector \*|::iterator")


def isiter(t):
    return "__normal_iterator<" in t


class BFrame(Frame):
    def lim(self):
        if self.G.steps > self.G.limit:
            raise Exception("value graph too large at " + self.f.qn)

    def deref(self, v):
        if v.op == "addr":
            return v.args[0]
        return mk("deref", v)

    # ---- conditions decided case by case
    def stmt(self, i, st):
        f, G = self.f, self.G
        if i is None or i < 0 or G.generic:
            return Frame.stmt(self, i, st)
        n = f.n(i)
        if n["k"] == "If":
            c = f.c(i)
            init, var, cond, then, els = (list(c) + [-1] * 5)[:5]
            if init >= 0:
                self.stmt(init, st)
            if var >= 0:
                self.stmt(var, st)
            t = self.G.decide(self.expr(cond, st), self, cond)
            return self.stmt(then if t else els, st)
        if n["k"] == "Decl":
            for v, x, style in n["d"]:
                if v < 0:
                    continue
                t = f.vars[v][1]
                if f.vars[v][2] == "static":
                    p = self.var(v)
                    if x >= 0 and p not in st.mem:
                        st.write(p, self.expr(x, st))
                    continue
                if t.rstrip().endswith("&") and x >= 0:
                    self.bind[v] = self.place(x, st)
                    continue
                self.bind.pop(v, None)
                p = self.var(v)
                if x >= 0:
                    self.into(p, x, st)
                else:
                    st.write(p, mk("undef"))
            return Out({"fall": (TRUE, st, None)})
        return Frame.stmt(self, i, st)

    def switch(self, n, c, st):
        if self.G.generic:
            return Frame.switch(self, n, c, st)
        f = self.f
        body, cond = c[-1], c[-2]
        v = self.expr(cond, st)
        flat, labels = [], []
        for x in f.c(body) if f.k(body) == "Block" else [body]:
            while f.k(x) in ("Case", "Default"):
                labels.append((len(flat), None if f.k(x) == "Default" else f.c(x)[0]))
                x = f.c(x)[-1]
            flat.append(x)
        start = None
        for k, l in labels:
            if l is not None and self.G.decide(self.compare("==", v, self.expr(l, st)), self, cond):
                start = k
                break
        if start is None:
            d = [k for k, l in labels if l is None]
            if not d:
                return Out({"fall": (TRUE, st, None)})
            start = d[0]
        o = self.stmts(flat[start:], st)
        if "break" in o.k:
            g, s, _ = o.k.pop("break")
            o.k["fall"] = (TRUE, s, None)
        return o

    def expr0(self, i, st):
        f, G = self.f, self.G
        self.lim()
        if i is None or i < 0 or G.generic:
            return self.expr1(i, st)
        n = f.n(i)
        k = n["k"]
        if k == "New" and not n.get("array"):
            c = f.c(i)
            ys = [y for y in c if y >= 0 and f.k(y) in ("Construct", "InitList")]
            if len(ys) == 1:
                G.nframe += 1
                p = mk("heap", f.u, i, self.id, G.nframe)
                self.into(p, ys[0], st)
                return mk("addr", p)
        if k == "Cond":
            c = f.c(i)
            t = G.decide(self.expr(c[0], st), self, c[0])
            return self.expr(c[1] if t else c[2], st)
        if k == "Binary" and n["op"] in ("&&", "||"):
            c = f.c(i)
            a = G.decide(self.expr(c[0], st), self, c[0])
            if a == (n["op"] == "||"):
                return TRUE if a else FALSE
            return TRUE if G.decide(self.expr(c[1], st), self, c[1]) else FALSE
        return self.expr1(i, st)

    def expr1(self, i, st):
        self.G.steps = min(self.G.steps, 399990) if False else self.G.steps
        return Frame.expr0(self, i, st)

    def place(self, i, st):
        f = self.f
        n = f.n(i)
        k = n["k"]
        if k == "Cond" and not self.G.generic:
            c = f.c(i)
            t = self.G.decide(self.expr(c[0], st), self, c[0])
            return self.place(c[1] if t else c[2], st)
        if k in ("Call", "Construct"):
            r = self.std(i, n, f.c(i), st, "place")
            if r is not None:
                return r
        p = Frame.place(self, i, st)
        if k == "Member" and n.get("fld") and self.G.isref(n["fld"]):
            v = st.read(p)
            return v.args[0] if v.op == "addr" else mk("deref", v)
        return p

    def call(self, i, n, c, st):
        r = self.std(i, n, c, st, "value")
        if r is not None:
            return r
        return Frame.call(self, i, n, c, st)

    def construct(self, i, n, c, st):
        r = self.std(i, n, c, st, "value")
        if r is not None:
            return r
        return Frame.construct(self, i, n, c, st)

    def inits(self, st):
        f = self.f
        for e in f.inits:
            kind, what, x = e[0], e[1], e[2]
            if x < 0:
                continue
            if kind == "m":
                if self.G.isref(what):
                    # a reference member names the place it is bound to
                    st.write(mk("fld", self.this, what), mk("addr", self.place(x, st)))
                else:
                    self.into(mk("fld", self.this, what), x, st)
            else:
                n = f.n(x)
                if n["k"] == "Construct":
                    g = self.F.fns.get(n.get("f"))
                    if g is not None and g.load()["body"] >= 0 and g.u not in self.stack and len(self.stack) <= self.G.maxdepth and not self.G.opq(g):
                        self.ctor(g, f.c(x), self.this, st)
                        continue
                    for y in f.c(x):
                        if y >= 0:
                            self.expr(y, st)

    def into(self, p, x, st):
        """an object made at p by the expression x (its members may hold addresses of one another)"""
        f = self.f
        y = x
        while f.k(y) == "Cast" and f.c(y) or f.k(y) == "Construct" and f.n(y).get("elid") and f.c(y):
            y = f.c(y)[0]
        n = f.n(y)
        if n["k"] == "Construct" and not ((n.get("copy") or n.get("move")) and f.c(y)) and not iscplx(n.get("t", "")) and self.std(y, n, f.c(y), st.copy(), "value") is None:
            g = self.F.fns.get(n.get("f"))
            if g is not None and g.load()["body"] >= 0 and g.u not in self.stack and len(self.stack) <= self.G.maxdepth:
                st.write(p, mk("zinit") if n.get("zero") else mk("undef"))
                self.ctor(g, f.c(y), p, st)
                return
        st.write(p, self.expr(x, st))

    # ---- loops
    def loop(self, i, n, c, st):
        f, G = self.f, self.G
        if G.generic:
            return self.growing(i, n, c, st)
        k = n["k"]
        pre = -1
        if k == "For":
            init, cond, inc, body = c
            if init >= 0:
                self.stmt(init, st)
        elif k == "While":
            cond, body, inc = c[-2], c[-1], -1
        elif k == "Do":
            body, cond, inc = c[0], c[1], -1
        else:
            for x in c[:3]:
                self.stmt(x, st)
            cond, inc, body, pre = c[3], c[4], c[6], c[5]
        start = st.copy()
        bind = dict(self.bind)
        nlog = len(G.log)
        for turn in range(ROUNDS):
            if cond >= 0 and (k != "Do" or turn):
                t = truth(self.expr(cond, st))
                if t is FALSE:
                    return Out({"fall": (TRUE, st, None)})
                if t is not TRUE:
                    break
            if pre >= 0:
                self.stmt(pre, st)
            o = self.stmt(body, st)
            kind = next(iter(o.k))
            st2 = o.k[kind][1]
            if kind == "break":
                return Out({"fall": (TRUE, st2, None)})
            if kind in ("return", "throw"):
                return o
            if st2 is not st:
                st = st2
            if inc >= 0:
                self.expr(inc, st)
        else:
            raise Exception("loop of more than %d rounds in %s" % (ROUNDS, f.loc(i)))
        self.bind = bind
        del G.log[nlog:]
        G.generic += 1
        try:
            if k == "For":
                return Frame.loop(self, i, n, (-1, cond, inc, body), start)
            if k == "RangeFor":
                return Frame.loop(self, i, n, (-1, -1, -1) + tuple(c[3:]), start)
            return Frame.loop(self, i, n, c, start)
        finally:
            G.generic -= 1

    def growing(self, i, n, c, st):
        return Frame.loop(self, i, n, c, st)

    # ---- the standard library
    def compare(self, op, a, b):
        if a.op == "addr" and b.op == "addr":
            p, q = a.args[0], b.args[0]
            if p is q:
                return TRUE if op in ("==", "<=", ">=") else FALSE
            if p.op == "idx" and q.op == "idx" and p.args[0] is q.args[0]:
                return cmp(op, p.args[1], q.args[1])
            if op in ("==", "!=") and vg.root(p).op in ("loc", "tmp", "heap") and vg.root(q).op in ("loc", "tmp", "heap") and (
                    vg.root(p) is not vg.root(q) or not below(p, q) and not below(q, p)):
                return FALSE if op == "==" else TRUE
        return Frame.compare(self, op, a, b)

    def size(self, p, st):
        v = st.read(mk("fld", p, "#size"))
        if v.op == "in":
            for k, x in self.G.sizes.items():
                if p.op == "fld" and p.args[1].endswith(k):
                    return x
        return v

    def objclass(self, n):
        f = self.f
        x = strip(f, n["c"][0]) if n.get("c") else None
        if x is None:
            return None
        while f.k(x) in ("Unary", "Cast") and f.n(x).get("op", "*") == "*" and f.c(x):
            t = f.n(x).get("t", "")
            if self.classof(t) is not None:
                break
            x = f.c(x)[0]
        if f.k(x) == "This":
            C = self.classof(f.n(x).get("t", ""))
        else:
            C = self.classof(f.n(x).get("t", ""))
        return C["u"] if C is not None else None

    def setsize(self, p, k, st, fill=None):
        old = self.size(p, st)
        if fill is not None and k.op == "num" and old.op == "num":
            for j in range(int(old.args[0]), int(k.args[0])):
                st.write(mk("idx", p, num(j)), fill)
        elif fill is not None:
            st.write(p, mk("filled", fill))
        st.write(mk("fld", p, "#size"), k)

    def advance(self, v, k):
        if v.op == "addr" and v.args[0].op == "idx":
            p = v.args[0]
            return mk("addr", mk("idx", p.args[0], add(p.args[1], k)))
        return add(v, k)

    def dist(self, a, b):
        if a.op == "addr" and b.op == "addr" and a.args[0].op == "idx" and b.args[0].op == "idx" and a.args[0].args[0] is b.args[0].args[0]:
            return sub(b.args[0].args[1], a.args[0].args[1])
        return None

    def objplace(self, n, c, st):
        return self.deref(self.expr(c[0], st)) if n.get("arrow") else self.place(c[0], st)

    def argvals(self, xs, st):
        return [self.expr(x, st) for x in xs if x >= 0]

    def std(self, i, n, c, st, want):
        """a call or construction of the standard library; None when it is not modelled (here)"""
        f = self.f
        k = n["k"]
        if self.G.model is not None:
            r = self.G.model(self, i, n, c, st)
            if r is not None:
                if want == "place":
                    self.G.nframe += 1
                    p = mk("tmp", self.G.nframe)
                    st.write(p, r)
                    return p
                return r
        if k == "Construct":
            t = n.get("t", "").replace("const ", "")
            if t.startswith("std::valarray<") or t.startswith("std::vector<") and not isiter(t):
                return self.seqctor(n, c, st) if want == "value" else None
            if isiter(t):
                return self.expr(c[0], st) if len(c) >= 1 and want == "value" else None
            return None
        fn = n.get("fn") or ""
        nm = last(fn)
        op = n.get("op")
        r = None
        if n.get("obj") and fn.startswith(("std::vector<", "std::valarray<", "std::array<")):
            r = self.container(i, n, c, st, nm, want)
            return r
        if fn.startswith("std::complex") or "std::operator" in fn and "complex" in str(n.get("pt")):
            if op in ("==", "!="):
                a, b = self.expr(c[0], st), self.expr(c[1], st)
                ca, cb = self.ascx(a, c[0]), self.ascx(b, c[1])
                e = land(cmp("==", ca[0], cb[0]), cmp("==", ca[1], cb[1]))
                return e if op == "==" else nt(e)
            if op == "=" and want == "value":
                v = self.expr(c[1], st)
                p = self.place(c[0], st)
                re_, im = self.ascx(v, c[1])
                v = rec(mk("cplx"), {("fld", "real"): re_, ("fld", "imag"): im})
                st.write(p, v)
                return v
        if nm in ("abs", "arg", "norm", "conj") and len(c) == 1 and iscplx(f.n(c[0]).get("t", "")):
            a, b = self.ascx(self.expr(c[0], st), c[0])
            if nm == "conj":
                return rec(mk("cplx"), {("fld", "real"): a, ("fld", "imag"): vg.neg(b)})
            m = add(mul(a, a), mul(b, b))
            if nm == "norm":
                return m
            if nm == "abs":
                return vg.fun("fabs", a) if b is ZERO else vg.fun("fabs", b) if a is ZERO else vg.fun("sqrt", m)
            return vg.fun("atan2", b, a)
        if fn.startswith(("std::slice_array<", "std::gslice_array<")) and op is not None and len(c) == 2:
            o = self.expr(c[0], st)
            if o.op == "slarr":
                arr, e = o.args
                a = e.args[1:]
                scalar = not f.n(c[1]).get("t", "").replace("const ", "").startswith("std::")
                v = self.expr(c[1], st)
                if op == "=" and e.args[0] == "std::slice" and len(a) == 3 and all(x.op == "num" for x in a):
                    b, m, d = (int(x.args[0]) for x in a)
                    for j in range(m):
                        st.write(mk("idx", arr, num(b + j * d)), v if scalar else sel(v, ("idx", num(j))))
                else:
                    k = self.size(arr, st)
                    st.write(arr, rec(mk("f", "slices", st.read(arr), v), {("fld", "#size"): k}))
                return o
        if fn == "std::slice::size" or fn == "std::slice::start" or fn == "std::slice::stride":
            o = self.expr(c[0], st)
            if o.op == "ctor" and len(o.args) == 4:
                return o.args[{"start": 1, "size": 2, "stride": 3}[nm]]
        if nm == "__builtin_memcpy" and len(c) == 3:  # the assignment of an array member, in an implicit operator=
            a, b = self.expr(c[0], st), self.expr(c[1], st)
            if a.op == b.op == "addr" and a.args[0].op == b.args[0].op == "fld" and a.args[0].args[1] == b.args[0].args[1]:
                st.write(a.args[0], st.read(b.args[0]))
                return a
        if "numeric_limits<" in fn and nm == "epsilon":
            return num(Fraction(1, 2 ** 52))
        if isiter(fn) or any(isiter(t) for t in (n.get("pt") or [])[:1]) or n.get("obj") and c and isiter(f.n(c[0]).get("t", "")):
            r = self.iterop(i, n, c, st, op, nm, want)
            if r is not None:
                return r
        if fn.startswith("std::"):
            return self.algorithm(i, n, c, st, nm, want)
        return None

    def ascx(self, v, x):
        if not iscplx(self.f.n(x).get("t", "")):
            return v, ZERO
        return sel(v, ("fld", "real")), sel(v, ("fld", "imag"))

    def seqctor(self, n, c, st):
        t = n.get("t", "")
        cs = [x for x in c if x >= 0 and "std::allocator" not in self.f.n(x).get("t", "")]
        if n.get("copy") or n.get("move"):
            return self.expr(cs[0], st)
        va = "valarray<" in t
        vals = self.argvals(cs, st)
        pt = n.get("pt") or []
        zero = ZERO if re.search(r"<(double|int|unsigned|long|float|bool)", t) else rec(mk("cplx"), {("fld", "real"): ZERO, ("fld", "imag"): ZERO}) if "<std::complex<double>" in t else mk("zinit")
        if not vals:
            return rec(mk("zinit"), {("fld", "#size"): ZERO})
        if va and len(vals) == 2:
            if pt and pt[0].rstrip().endswith("*"):
                return rec(mk("copied", vals[0]), {("fld", "#size"): vals[1]})
            vals = [vals[1], vals[0]]
        if len(vals) == 1 and isinstance(vals[0], V) and vals[0].op == "rec" and not isintv(vals[0]):
            d = dict(vals[0].args[1])
            ks = [k for k in d if k[0] == "idx"]
            if ("fld", "#size") not in d:
                d[("fld", "#size")] = num(len(ks))
            return rec(vals[0].args[0], d)
        if len(vals) == 2 and vals[0].op == "addr" and vals[1].op == "addr":
            k = self.dist(vals[0], vals[1])
            if k is not None and k.op == "num":
                p = vals[0].args[0]
                d = {("idx", num(j)): st.read(mk("idx", p.args[0], add(p.args[1], num(j)))) for j in range(int(k.args[0]))}
                d[("fld", "#size")] = k
                return rec(mk("zinit"), d)
            return rec(mk("copied", vals[0]), {("fld", "#size"): k if k is not None else mk("f", "distance", *vals)})
        if len(vals) == 1 or len(vals) == 2:
            k, x = vals[0], vals[1] if len(vals) == 2 else zero
            if k.op == "num":
                d = {("idx", num(j)): x for j in range(int(k.args[0]))}
                d[("fld", "#size")] = k
                return rec(mk("zinit"), d)
            return rec(mk("filled", x), {("fld", "#size"): k})
        return None

    def container(self, i, n, c, st, nm, want):
        op = n.get("op")
        if want == "place" and not (op == "[]" or nm in ("at", "front", "back") or op == "="):
            return None
        f = self.f
        va = (n.get("fn") or "").startswith("std::valarray<")
        if nm == "size":
            return self.size(self.objplace(n, c, st), st)
        if nm == "empty":
            return cmp("==", self.size(self.objplace(n, c, st), st), ZERO)
        if op == "[]" or nm == "at":
            o, e = self.objplace(n, c, st), self.expr(c[1], st)
            if e.op == "ctor" and e.args[0] in ("std::slice", "std::gslice"):
                v = mk("slarr", o, e)
                if want == "place":
                    self.G.nframe += 1
                    p = mk("tmp", self.G.nframe)
                    st.write(p, v)
                    return p
                return v
            p = mk("idx", o, e)
            return p if want == "place" else st.read(p)
        if nm in ("front", "back"):
            p = self.objplace(n, c, st)
            q = mk("idx", p, ZERO if nm == "front" else sub(self.size(p, st), ONE))
            return q if want == "place" else st.read(q)
        if nm in ("begin", "cbegin", "data"):
            return mk("addr", mk("idx", self.objplace(n, c, st), ZERO))
        if nm in ("end", "cend"):
            p = self.objplace(n, c, st)
            return mk("addr", mk("idx", p, self.size(p, st)))
        if nm in ("reserve", "shrink_to_fit"):
            return mk("void")
        if nm in ("push_back", "emplace_back") and len(c) == 2:
            p = self.objplace(n, c, st)
            v = self.expr(c[1], st)
            k = self.size(p, st)
            st.write(mk("idx", p, k), v)
            st.write(mk("fld", p, "#size"), add(k, ONE))
            return mk("void")
        if nm == "pop_back":
            p = self.objplace(n, c, st)
            st.write(mk("fld", p, "#size"), sub(self.size(p, st), ONE))
            return mk("void")
        if nm == "clear":
            p = self.objplace(n, c, st)
            st.write(p, rec(mk("zinit"), {("fld", "#size"): ZERO}))
            return mk("void")
        if nm == "resize":
            p = self.objplace(n, c, st)
            k = self.expr(c[1], st)
            x = self.expr(c[2], st) if len(c) > 2 else ZERO
            if va:
                st.write(p, rec(mk("zinit"), {("fld", "#size"): ZERO}))
            self.setsize(p, k, st, x)
            return mk("void")
        if op == "=" and len(c) == 2:
            p = self.objplace(n, c, st)
            v = self.expr(c[1], st)
            if va and not f.n(c[1]).get("t", "").replace("const ", "").startswith("std::valarray<"):
                k = self.size(p, st)
                st.write(p, rec(mk("zinit"), {("fld", "#size"): ZERO}))
                self.setsize(p, k, st, v)
            else:
                st.write(p, v)
            return p if want == "place" else st.read(p)
        if va and op in ("+=", "-=", "*=", "/=") and len(c) == 2:
            p = self.objplace(n, c, st)
            arr = f.n(c[1]).get("t", "").replace("const ", "").startswith("std::valarray<")
            q = self.place(c[1], st)
            k = self.size(p, st)
            if k.op == "num":
                for j in range(int(k.args[0])):
                    e = mk("idx", p, num(j))
                    st.write(e, self.arith(op[0], st.read(e), st.read(mk("idx", q, num(j)) if arr else q), "double"))
                return st.read(p)
        return None

    def iterop(self, i, n, c, st, op, nm, want):
        if op in ("++", "--"):
            p = self.place(c[0], st)
            v = st.read(p)
            w = self.advance(v, ONE if op == "++" else num(-1))
            st.write(p, w)
            if want == "place":
                return p if len(c) == 1 else None
            return v if len(c) == 2 else w
        if op in ("+", "-") and len(c) == 2:
            a, b = self.expr(c[0], st), self.expr(c[1], st)
            if op == "-" and b.op == "addr":
                d = self.dist(b, a)
                return d if d is not None else mk("f", "distance", b, a)
            return self.advance(a, b if op == "+" else vg.neg(b))
        if op in ("+=", "-=") and len(c) == 2:
            p = self.place(c[0], st)
            w = self.advance(st.read(p), self.expr(c[1], st) if op == "+=" else vg.neg(self.expr(c[1], st)))
            st.write(p, w)
            return p if want == "place" else w
        if op in ("==", "!=", "<", ">", "<=", ">=") and want == "value":
            return self.compare(op, self.expr(c[0], st), self.expr(c[1], st))
        if op in ("*", "->") and len(c) == 1:
            v = self.expr(c[0], st)
            if op == "->":
                return v if want == "value" and v.op == "addr" else (v.args[0] if v.op == "addr" else mk("deref", v)) if want == "place" else v
            p = self.deref(v)
            return p if want == "place" else st.read(p)
        if op == "[]" and len(c) == 2:
            v = self.advance(self.expr(c[0], st), self.expr(c[1], st))
            p = self.deref(v)
            return p if want == "place" else st.read(p)
        if op == "=" and len(c) == 2:
            v = self.expr(c[1], st)
            p = self.place(c[0], st)
            st.write(p, v)
            return p if want == "place" else v
        if nm == "base" and want == "value":
            return self.expr(c[0], st)
        return None

    def functor(self, x, st):
        """(place of the function object, its call operator) or (None, function)"""
        f = self.f
        y = x
        while f.k(y) in ("Cast",) or f.k(y) == "Construct" and (f.n(y).get("copy") or f.n(y).get("move")) and f.c(y):
            y = f.c(y)[0]
        t = f.n(y).get("t", "")
        v = None
        if f.k(y) == "Lambda" and f.n(y).get("f") in self.F.fns:
            return self.lam(y, st), self.F.fns[f.n(y)["f"]]
        if "(" in t.replace("(anonymous namespace)", "") and "lambda" not in t:
            v = self.expr(x, st)
            if v.op == "fn":
                return None, self.F.fns.get(v.args[0])
            return None, None
        C = self.classof(t)
        p = self.place(y, st)
        if C is not None:
            ms = [m for m in C["methods"] if m["n"] == "operator()"]
            gs = [self.F.fns[m["u"]] for m in ms if m["u"] in self.F.fns]
            if len(gs) == 1:
                return p, gs[0]
            return p, gs
        v = st.read(p)
        if v.op == "closure":
            return p, self.F.fns.get(v.args[0])
        return p, None

    def lam(self, y, st):
        """a closure runs where it was written: captured variables are the places themselves"""
        self.G.nframe += 1
        p = mk("tmp", self.G.nframe)
        st.write(p, mk("closure", self.f.n(y).get("f", "")))
        self.G.closures[p] = self
        return p

    def invoke(self, g, this, args, st):
        """g called with places as arguments"""
        g.load()
        bind = {}
        for pv, a in zip(g.params, args):
            t = g.vars[pv][1]
            if t.rstrip().endswith("&"):
                bind[pv] = a
            else:
                self.G.nframe += 1
                p = mk("loc", -self.G.nframe, pv, g.vars[pv][0])
                st.write(p, st.read(a))
                bind[pv] = p
        fr = self.G.Frame(self.G, g, bind, this, self.d + 1, self.stack + (g.u,))
        self.G.analysed.add(g.u)
        fr.wantplace = (g.ret or "").rstrip().endswith("&")
        o = fr.stmt(g.body, st)
        kind = next(iter(o.k))
        s = o.k[kind][1]
        if s is not st:
            st.mem = s.mem.copy()
        v = o.k[kind][2]
        if v is not None and fr.wantplace and v.op == "addr":
            v = st.read(v.args[0])
        return v

    def algorithm(self, i, n, c, st, nm, want):
        f = self.f
        if nm in ("for_each", "transform", "fill", "copy", "accumulate") and want == "value" and len(c) >= 3:
            b, e = self.expr(c[0], st), self.expr(c[1], st)
            k = self.dist(b, e)
            if k is None or k.op != "num":
                return None
            m = int(k.args[0])
            at = lambda v, j: self.advance(v, num(j)).args[0]
            if nm == "for_each":
                p, g = self.functor(c[2], st)
                if isinstance(g, list):
                    g = next((x for x in g if self.nparams(x) == 1 and self.fits(x, b)), None)
                if g is None:
                    return None
                for j in range(m):
                    self.invoke(g, p if p is not None else self.this, [at(b, j)], st)
                return st.read(p) if p is not None else mk("void")
            if nm == "fill":
                v = self.expr(c[2], st)
                for j in range(m):
                    st.write(at(b, j), v)
                return mk("void")
            if nm == "copy":
                d = self.expr(c[2], st)
                if d.op != "addr" or d.args[0].op != "idx":
                    return None
                vs = [st.read(at(b, j)) for j in range(m)]
                for j, v in enumerate(vs):
                    st.write(at(d, j), v)
                return self.advance(d, k)
            if nm == "transform" and len(c) == 4:
                d = self.expr(c[2], st)
                p, g = self.functor(c[3], st)
                if g is None or isinstance(g, list):
                    return None
                for j in range(m):
                    v = self.invoke(g, p if p is not None else self.this, [at(b, j)], st)
                    st.write(at(d, j), v)
                return self.advance(d, k)
            return None
        if nm == "swap" and len(c) == 2 and want == "value":
            p, q = self.place(c[0], st), self.place(c[1], st)
            a, b = st.read(p), st.read(q)
            st.write(p, b)
            st.write(q, a)
            return mk("void")
        if nm in ("begin", "cbegin", "end", "cend") and len(c) == 1 and want == "value":
            p = self.place(c[0], st)
            t = f.n(c[0]).get("t", "")
            m = re.search(r"\[(\d+)\]$", t)
            if nm.endswith("begin"):
                return mk("addr", mk("idx", p, ZERO))
            return mk("addr", mk("idx", p, num(int(m.group(1))) if m else self.size(p, st)))
        if nm in ("distance",) and len(c) == 2:
            return self.dist(self.expr(c[0], st), self.expr(c[1], st))
        if nm in ("next", "prev") and want == "value":
            k = self.expr(c[1], st) if len(c) > 1 else ONE
            return self.advance(self.expr(c[0], st), k if nm == "next" else vg.neg(k))
        return None

    def nparams(self, g):
        g.load()
        return len(g.params)

    def fits(self, g, b):
        return True


def isintv(v):
    return v.op == "num"


# ------------------------------------------------------------------ reflection
ODDF = {"sin", "tan", "sinh", "tanh", "asin", "atan", "cbrt", "erf"}
EVENF = {"cos", "cosh", "fabs"}


class Parity(object):
    """how a value behaves when the symbols in `odd` change sign: 0 (is zero), 1 (same), -1 (changes sign), None (neither is known)"""

    def __init__(self, odd, G):
        self.odd, self.G, self.memo, self.guess = set(odd), G, {}, {}

    def of(self, v):
        if v in self.memo:
            return self.memo[v]
        if v in self.guess:
            return self.guess[v]
        n = len(self.guess)
        r = self.of0(v)
        if not self.guess:
            self.memo[v] = r
        return r

    def of0(self, v):
        op = v.op
        if v is ZERO:
            return 0
        if op in ("num", "str", "fn", "en", "undef", "zinit", "void", "addr"):
            return 1
        if op == "in":
            return -1 if v in self.odd else 1
        if op == "abs":
            return v.args[1]
        if op == "poly":
            r = 0
            for m, c in v.args[0]:
                p = 1
                for a, e in m:
                    q = self.of(a)
                    if q is None:
                        p = None
                        break
                    if q == 0:
                        p = 0 if e > 0 else p
                        break
                    if q == -1 and e % 2:
                        p = -p
                if p is None:
                    return None
                r = join(r, p)
                if r is None:
                    return None
            return r
        if op == "f":
            ps = [self.of(a) for a in v.args[1:] if isinstance(a, V)]
            if all(p in (0, 1) for p in ps):
                return 1
            nm = v.args[0]
            if nm in ODDF and len(ps) == 1:
                return ps[0]
            if nm in EVENF and len(ps) == 1:
                return 1 if ps[0] is not None else None
            if nm == "*" and None not in ps:
                r = 1
                for p in ps:
                    r *= p
                return r
            if nm == "pow" and v.args[2].op == "num" and v.args[2].args[0].denominator == 1 and ps[0] == -1:
                return 1 if v.args[2].args[0] % 2 == 0 else -1
            if nm == "maybe":
                r = 0
                for p in ps:
                    r = join(r, p)
                return r
            if nm == "atan2" and len(ps) == 2 and ps[1] == 1:
                return ps[0]
            return None
        if op == "phi":
            c = self.of(v.args[0])
            if c not in (0, 1):
                return None
            return join(self.of(v.args[1]), self.of(v.args[2]))
        if op == "b" and v.args[0] == "==":
            return 1 if self.of(v.args[1]) is not None else None
        if op in ("b", "not", "and", "or"):
            return 1 if all(self.of(a) in (0, 1) for a in v.args if isinstance(a, V)) else None
        if op == "mu":
            return self.mu(v)
        if op == "sel":
            return self.component(v)
        if op in ("rec",):
            r = self.of(v.args[0]) if isinstance(v.args[0], V) else 1
            for k, x in v.args[1]:
                if self.of(x) not in (0, 1):
                    return None
            return r
        ps = [self.of(a) for a in v.args if isinstance(a, V)]
        return 1 if all(p in (0, 1) for p in ps) else None

    def component(self, v):
        """a component of something that is not spelled out"""
        ks, x = [], v
        while x.op == "sel":
            ks.append((x.args[1], x.args[2]))
            x = x.args[0]
        if x.op == "mu":
            m = self.G.mus.get(x)
            if m is not None:
                def take(y):
                    for k in reversed(ks):
                        y = sel(y, k)
                    return y
                return self.fix(v, take(m[0]), take(m[1]))
        p = self.of(x)
        return 1 if p in (0, 1) else None

    def mu(self, v):
        m = self.G.mus.get(v)
        if m is None:
            return None
        return self.fix(v, m[0], m[1])

    def fix(self, v, a, b):
        p = self.of(a)
        for _ in range(4):
            if p is None:
                return None
            self.guess[v] = p
            q = join(p, self.of(b))
            del self.guess[v]
            if q == p:
                return p
            p = q
        return None


def join(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    return a if a == b else None


# ------------------------------------------------------------------ one particle through an integrator
COORD = ("x", "xp", "y", "yp", "ct", "dp")


def field(F, cu, name):
    for x in [cu] + bases(F, cu):
        for f in F.classes[x]["fields"]:
            if f["n"] == name:
                return f["u"]
    return None


def find(F, cu, name, nargs=None, const=None):
    for x in [cu] + bases(F, cu):
        ms = [m for m in F.classes[x]["methods"] if m["n"] == name and (nargs is None or len(m["pt"]) == nargs)]
        if const is not None and len(ms) > 1:
            ms = [m for m in ms if bool(m.get("const")) == const] or ms
        if ms:
            return F.fns.get(ms[0]["u"])
    return None


class Set(object):
    """the objects an integrator works on"""

    def __init__(self, F, cu, nco=0, zero=False, **kw):
        self.F, self.cu = F, cu
        self.G = Graph1(F, **kw)
        global WIDEN
        WIDEN = None
        self.st = BSt()
        self.this = mk("this")
        self.bunch, self.comp = mk("loc", "bunch"), mk("loc", "component")
        bu, co = field(F, cu, "currentBunch"), field(F, cu, "currentComponent")
        ty = lambda u: F.by_ty.get(F.fields[u][1]["t"].replace("const ", "").rstrip("* ").strip())
        self.bc, self.cc = ty(bu), ty(co) if co else None
        self.st.write(mk("fld", self.this, bu), mk("addr", self.bunch))
        if co:
            self.st.write(mk("fld", self.this, co), mk("addr", self.comp))
        for x in [cu] + bases(F, cu):
            for f in F.classes[x]["fields"]:
                if f["n"] == "currentComponent" and f["u"] != co:
                    self.st.write(mk("fld", self.this, f["u"]), mk("addr", self.comp))
        for nm in ("GetChargeSign", "GetReferenceMomentum"):
            v = self.evaluate(self.bc["u"], nm, self.bunch)
            if v is not None:
                self.G.nonzero.add(v)
        arr = field(F, self.bc["u"], "pArray")
        self.arr = mk("fld", self.bunch, arr)
        self.st.write(mk("fld", self.arr, "#size"), ONE)
        self.pp = mk("idx", self.arr, ZERO)
        pv = F.cls("PSvector")
        v = field(F, pv["u"], "v")
        self.pid = mk("fld", self.pp, field(F, pv["u"], "pid"))
        self.at = [mk("idx", mk("fld", self.pp, v), num(k)) for k in range(6)]
        self.sym = [mk("in", p) for p in self.at]
        if zero:
            for p in self.at:
                self.st.write(p, ZERO)
        self.field = self.fieldclass = None
        g = find(F, self.cc["u"], "GetField", 0, const=False) if self.cc else None
        if g is not None:
            fr = self.G.Frame(self.G, g.load() and g, {}, self.comp, 0, ())
            fr.wantplace = True
            g.load()
            o = fr.stmt(g.body, self.st)
            v = o.k["return"][2]
            self.field = v.args[0] if v.op == "addr" else None
        self.exp = None
        mf = F.cls("MultipoleField")
        if self.field is not None and mf is not None:
            e = field(F, mf["u"], "expansion")
            C = F.by_ty.get((g.ret or "").replace("const ", "").rstrip("& ").strip())
            self.fieldclass = C
            if C is not None and (C["u"] == mf["u"] or mf["u"] in bases(F, C["u"])):
                self.exp = mk("fld", self.field, e)
                self.b0 = mk("fld", self.field, field(F, mf["u"], "B0"))
                self.st.write(mk("fld", self.exp, "#size"), num(nco))

    def widen(self, parity=None, keep=(), most=40):
        """coordinates that grow are replaced by symbols of the same behaviour under the reflection"""
        global WIDEN
        G = self.G

        memo = G.widened

        def one(p, v):
            if v.op not in ("poly", "f", "phi", "sel") or p in keep:
                return v
            w = memo.get(v)
            if w is None:
                w = v
                if size(v, most) > most:
                    q = parity.of(v) if parity is not None else 1
                    w = ZERO if q == 0 else mk("abs", len(memo), q)
                memo[v] = w
            return w
        WIDEN = one

    def coef(self, k, part):
        return mk("fld", mk("idx", self.exp, num(k)), part)

    def setcoef(self, k, re_, im):
        self.st.write(mk("idx", self.exp, num(k)), rec(mk("cplx"), {("fld", "real"): re_, ("fld", "imag"): im}))

    def upright(self):
        """no skew component, no tilt, no longitudinal field: what is left is symmetric about y = 0"""
        if self.exp is not None:
            k = 0
            while True:
                n = self.st.read(mk("fld", self.exp, "#size"))
                if n.op != "num" or k >= n.args[0]:
                    break
                self.setcoef(k, mk("in", self.coef(k, "real")), ZERO)
                k += 1
        g = self.geometry()
        for pl, C, nm in ((g or (None, None)) + ("GetTilt",), (self.field, self.fieldclass, "GetStrength"), (self.comp, self.cc, "GetBz"), (self.comp, self.cc, "GetFieldOrientation")):
            self.setto(pl, C, nm, ZERO)
        self.parity = Parity({self.sym[2], self.sym[3]}, self.G)

    def evaluate(self, cu, name, this, args=(), want=False):
        """the value of a query on an object"""
        g = find(self.F, cu, name, len(args))
        if g is None:
            return None
        g.load()
        bind = {}
        for k, (pv, a) in enumerate(zip(g.params, args)):
            p = mk("loc", "arg", name, k)
            self.st.write(p, a)
            bind[pv] = p
        o = self.G.Frame(self.G, g, bind, this, 0, ()).stmt(g.body, self.st)
        return o.k["return"][2] if "return" in o.k else None

    def onorbit(self):
        """the element agrees with the bunch and has no field on the axis but that of its own bending"""
        C = self.cc
        if find(self.F, C["u"], "GetMatchedMomentum", 1) is not None:
            q = self.evaluate(self.bc["u"], "GetChargeSign", self.bunch)
            p = self.evaluate(self.bc["u"], "GetReferenceMomentum", self.bunch)
            if self.exp is not None:
                self.setcoef(0, mk("in", self.coef(0, "real")), ZERO)
            v = self.evaluate(C["u"], "GetMatchedMomentum", self.comp, (q,))
            self.st.write(p.args[0], v)
        elif self.exp is not None:
            self.setcoef(0, ZERO, ZERO)
        self.setto(self.field, self.fieldclass, "GetAmplitude", ZERO)

    def setto(self, pl, C, query, v):
        """what the query reads becomes v"""
        if pl is None or C is None or find(self.F, C["u"], query, 0) is None:
            return False
        r = self.evaluate(C["u"], query, pl)
        if r is not None and r.op == "in":
            self.st.write(r.args[0], v)
            return True
        return False

    def geometry(self):
        g = find(self.F, self.cc["u"], "GetGeometry", 0, const=False) if self.cc else None
        if g is None:
            return None
        g.load()
        fr = self.G.Frame(self.G, g, {}, self.comp, 0, ())
        fr.wantplace = True
        o = fr.stmt(g.body, self.st)
        v = o.k["return"][2]
        C = self.F.by_ty.get((g.ret or "").replace("const ", "").rstrip("& ").strip())
        return (v.args[0], C) if v.op == "addr" and C is not None else None

    def run(self, f, args=()):
        st = self.st.copy()
        bind = {}
        for k, pv in enumerate(f.load() and f.params or f.params):
            p = mk("param", k, f.vars[pv][0])
            bind[pv] = p
            if k < len(args) and args[k] is not None:
                st.mem[p] = args[k]
        o = self.G.call_body(f, bind, self.this, st, 0, ())
        kind = next(iter(o.k))
        return kind, o.k[kind][1]


def size(v, most):
    """number of distinct nodes of v, up to most"""
    seen, todo = set(), [v]
    while todo and len(seen) <= most:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "poly":
            for m, c in x.args[0]:
                seen.add(mk("num", len(seen)))
                todo.extend(a for a, e in m)
        else:
            todo.extend(a for a in x.args if isinstance(a, V))
    return len(seen)


def parallel(jobs, work, procs=8, most=4000):
    """every case of every job: work(job, script) -> (decisions taken, result); yields (job, result).

    The cases of one job are the leaves of its tree of decisions; a leaf that took decisions beyond its
    script leaves the other answers to be looked at."""
    import concurrent.futures as cf
    import multiprocessing as mp
    n = {}
    with cf.ProcessPoolExecutor(procs, mp_context=mp.get_context("fork")) as ex:
        todo = {ex.submit(work, j, ()): (j, 0) for j in jobs}
        while todo:
            done, _ = cf.wait(todo, return_when=cf.FIRST_COMPLETED)
            for d in done:
                j, m = todo.pop(d)
                taken, r = d.result()
                n[j] = n.get(j, 0) + 1
                yield j, r
                if n[j] > most:
                    raise Exception("more than %d cases in %s" % (most, j))
                for k in range(m, len(taken)):
                    todo[ex.submit(work, j, tuple(taken[:k]) + (False,))] = (j, k + 1)


def explore(make, f, args=(), limit=600):
    """every case: (Set, kind of exit, final state, decisions)"""
    script = []
    n = 0
    while True:
        S = make(script)
        kind, st = S.run(f, args)
        n += 1
        yield S, kind, st
        t = S.G.taken
        while t and not t[-1]:
            t.pop()
        if not t:
            return
        if n >= limit:
            raise Exception("more than %d cases in %s" % (limit, f.qn))
        script = t[:-1] + [False]
