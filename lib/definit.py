"""Definite assignment: forward must-analysis over the CFG for data members of the object under
construction and for local variables, with summaries of the functions they are handed to. A location that
the must-analysis cannot settle is re-examined path by path with correlated branches (Flow)."""
from flow import Flow, strip, Env
from values import basename


def path_of(f, i):
    """('this', fields...) or (var, fields...) for a member chain on the object or a local; else None.
    second result: True if an array element / subobject in between was indexed"""
    idx = False
    fields = []
    while True:
        i = strip(f, i)
        if i is None or i < 0:
            return None, idx
        n = f.n(i)
        k = n["k"]
        if k == "Member":
            if not n.get("fld"):
                return None, idx
            b = strip(f, f.c(i)[0]) if f.c(i) else -1
            if n.get("arrow") and f.k(b) != "This":
                if f.k(b) == "Ref" and "v" in f.n(b):
                    fields.append(n["fld"])
                    return (("*", f.n(b)["v"]),) + tuple(reversed(fields)), idx
                return None, idx
            fields.append(n["fld"])
            i = b
            continue
        if k == "Unary" and n["op"] == "*" and f.k(strip(f, f.c(i)[0])) == "This":
            return ("this",) + tuple(reversed(fields)), idx
        if k == "Unary" and n["op"] == "*":
            b = strip(f, f.c(i)[0])
            if f.k(b) == "Ref" and "v" in f.n(b):
                return (("*", f.n(b)["v"]),) + tuple(reversed(fields)), idx
            return None, idx
        if k == "This":
            return ("this",) + tuple(reversed(fields)), idx
        if k == "Ref" and "v" in n:
            return (n["v"],) + tuple(reversed(fields)), idx
        if k == "Index":
            idx = True
            i = f.c(i)[0]
            continue
        return None, idx


class Access(object):
    """reads and writes of tracked locations, per node"""

    def __init__(self, F):
        self.F = F
        self._sum = {}
        self._par = {}

    def events(self, f, i):
        """list of ('r'|'w', path, node) caused by node i itself (its operands are separate elements)"""
        n = f.n(i)
        k = n["k"]
        c = n.get("c", ())
        out = []
        if k in ("Member", "Ref") and n.get("r"):
            p, idx = path_of(f, i)
            if p is not None and (len(p) > 1 or p[0] != "this"):
                out.append(("r", p, i))
        elif k == "Index" and n.get("r"):
            p, idx = path_of(f, i)
            if p is not None and (len(p) > 1 or p[0] != "this"):
                out.append(("r", p, i))
        if (k == "Binary" and n["op"] == "=") or (k == "Call" and n.get("op") == "=" and len(c) == 2):
            p, idx = path_of(f, c[0])
            if k == "Call":
                q, _ = path_of(f, c[1])
                if q is not None:
                    out.append(("r", q, i))
            if p is not None:
                out.append(("w", p, i))
        elif k == "CompoundAssign":
            p, idx = path_of(f, c[0])
            if p is not None:
                out.append(("r", p, i))
                out.append(("w", p, i))
        elif k == "Unary" and ("++" in n["op"] or "--" in n["op"]):
            p, idx = path_of(f, c[0])
            if p is not None:
                out.append(("r", p, i))
                out.append(("w", p, i))
        elif k in ("Call", "Construct"):
            off = 1 if n.get("obj") else 0
            pt = n.get("pt", [])
            tg = self.F.fns.get(n.get("f")) if not n.get("virt") else None
            if off and c:
                p, idx = path_of(f, c[0])
                if p == ("this",):
                    out += [(a, q, i) for a, q in self.summary(n, f)]
                elif p is not None and not (k == "Call" and n.get("op") == "="):
                    # a member function of a tracked subobject
                    out += [(a, p + q[1:], i) for a, q in self.summary(n, f)]
                    md = self.F.method_decl.get(n.get("f"))
                    if not (md and md[1].get("const")) and p[0] != "this":
                        out.append(("w", p, i))
            for j, a in enumerate(c[off:]):
                if a < 0:
                    continue
                t = (pt[j] if j < len(pt) else "").strip()
                if n.get("op") == "=" and k == "Call":
                    continue
                a2 = strip(f, a)
                if t.endswith("&") or t.endswith("&&"):
                    p, idx = path_of(f, a2)
                    if p is None or p == ("this",):
                        continue
                    if t.startswith("const ") or t.endswith("&&"):
                        if not (k == "Construct" and (n.get("copy") or n.get("move")) and False):
                            out.append(("r", p, i))
                    else:
                        w = self.param_effect(tg, j) if tg is not None else "w"
                        if w == "r":
                            out.append(("r", p, i))
                            out.append(("w", p, i))
                        elif w == "w":
                            out.append(("w", p, i))
                elif t.endswith("*") or f.k(a2) == "Unary":
                    if f.k(a2) == "Unary" and f.n(a2)["op"] == "&":
                        p, idx = path_of(f, f.c(a2)[0])
                        if p is not None and p != ("this",):
                            out.append(("w", p, i))
                    elif f.n(a2).get("ck") == "ArrayToPointerDecay" or f.n(a).get("ck") == "ArrayToPointerDecay":
                        p, idx = path_of(f, a2)
                        if p is not None and p != ("this",):
                            out.append(("w", p, i))
        elif k == "Decl":
            for v, init, style in n["d"]:
                if v >= 0 and init >= 0 and not self.blank(f, init):
                    out.append(("w", (v,), i))
        elif k == "Unary" and n["op"] == "&":
            p, idx = path_of(f, c[0])
            if p is not None and p != ("this",):
                out.append(("w", p, i))
        elif "Asm" in k:
            for x in f.walk(i):
                if f.k(x) == "Ref" and "v" in f.n(x) and not f.n(x).get("r"):
                    out.append(("w", (f.n(x)["v"],), i))
        elif k == "Lambda":
            for cap in n.get("caps", ()):
                if len(cap) == 3 and cap[1]:
                    out.append(("w", (cap[2],), i))
        return out

    def blank(self, f, init):
        """default construction that leaves scalar members alone"""
        n = f.n(init)
        if n["k"] != "Construct" or n.get("zero") or n.get("c") or n.get("pt"):
            return False
        c = self.F.by_ty.get(basename(n.get("t", "")))
        if c is None:
            return False
        return not user_ctor(c) or c["qn"].split("<")[0] in self.value_types

    value_types = ()

    def summary(self, n, f):
        """effects of a method call on its object: exposed reads then definite writes"""
        u = n.get("f")
        if n.get("virt"):
            # inside a constructor the object's own class is used; elsewhere unknown: no claim
            return ()
        g = self.F.fns.get(u)
        if g is None or g.body < 0 or g.cfg is None:
            return ()
        if u not in self._sum:
            self._sum[u] = ()
            reads, ex = must(self, g, frozenset())
            r = [("r", p) for p in sorted({p for p, _ in reads if p[0] == "this"}, key=str)]
            w = [("w", p) for p in sorted((ex or frozenset()), key=str) if p[0] == "this"] if ex is not None else []
            self._sum[u] = tuple(r + w)
        return self._sum[u]

    def param_effect(self, g, j):
        """what a callee does to its j-th (reference) argument: 'r' reads it first, 'w' may assign it, None neither"""
        if g is None or j >= len(g.params) or g.body < 0 or g.cfg is None:
            return "w"
        key = (g.u, j)
        if key not in self._par:
            self._par[key] = "w"
            v = g.params[j]
            scalar = not any(c["ty"] == basename(g.vars[v][1]) for c in self.F.classes.values()) and "std::" not in g.vars[v][1]
            if not scalar:
                self._par[key] = "w"
            else:
                reads, ex = must(self, g, frozenset())
                if any(p == (v,) for p, _ in reads):
                    self._par[key] = "r"
                else:
                    wr = any(a == "w" and p[0] == v for i in g.walk() for a, p, _ in self.events(g, i))
                    self._par[key] = "w" if wr else None
        return self._par[key]


def covered(p, S):
    """location p is assigned if it or an enclosing object is"""
    return any(p[:k] in S for k in range(1, len(p) + 1))


def init_events(A, f, e):
    """effects of one constructor initialiser: path written"""
    out = []
    if e[0] == "m":
        x = e[2]
        n = f.n(x) if x >= 0 else None
        if n is not None:
            if n["k"] == "Construct" and not n.get("zero") and not n.get("c"):
                # default construction: of a class without user constructor leaves its scalars alone
                c = A.F.by_ty.get(basename(n.get("t", "")))
                if c is not None and not user_ctor(c):
                    return out
            if n["k"] == "InitList" or True:
                out.append(("w", ("this", e[1]), x))
    elif e[0] == "b":
        pass
    elif e[0] == "d":
        out.append(("w", ("this",), -1))
    return out


def user_ctor(c):
    return bool(c.get("uctor"))


def must(A, f, entry, want=None):
    """must-assigned analysis. returns (reads not covered, set assigned at every normal exit or None)"""
    B = f.blocks()
    if B is None:
        return [], None
    g = f.cfg
    key = "_must"
    ent, ex = str(g["entry"]), str(g["exit"])
    preds = f.preds()
    IN = {ent: entry}
    order = sorted(B, key=lambda b: -int(b))
    changed = True
    OUT = {}
    evs = {}
    for b in B:
        l = []
        for el in B[b][0]:
            if isinstance(el, list):
                l.append(("init", el[1]))
            else:
                l.append(("node", el))
        evs[b] = l
    thrown = set()

    def transfer(b, S, reads=None):
        S = set(S)
        dead = False
        for kind, el in evs[b]:
            if kind == "init":
                ee = init_events(A, f, f.inits[el]) if 0 <= el < len(f.inits) else []
            else:
                if f.k(el) == "Throw":
                    dead = True
                ee = A.events(f, el)
            for a, p, nd in ee:
                if a == "r":
                    if reads is not None and not covered(p, S):
                        reads.append((p, nd))
                else:
                    S.add(p)
        return frozenset(S), dead
    it = 0
    while changed and it < 200:
        changed = False
        it += 1
        for b in order:
            if b != ent:
                ps = [p for p in preds.get(b, ()) if p in OUT]
                if not ps:
                    continue
                S = None
                for p in ps:
                    S = OUT[p] if S is None else S & OUT[p]
                IN[b] = S
            o, dead = transfer(b, IN[b])
            if dead or B[b][5]:
                if b in OUT:
                    del OUT[b]
                thrown.add(b)
                continue
            if OUT.get(b) != o:
                OUT[b] = o
                changed = True
    reads = []
    for b in order:
        if b in IN:
            transfer(b, IN[b], reads)
    return reads, IN.get(ex)


class OneLoc(Flow):
    """path-sensitive re-examination of one location: ust = assigned?"""

    def __init__(self, A, f, loc):
        Flow.__init__(self, A.F, f)
        self.A, self.loc = A, loc
        self.badread = None

    def step(self, evs, u):
        for a, p, nd in evs:
            if a == "w" and p == self.loc[:len(p)]:
                u = True
            elif a == "r" and not u and (self.loc == p[:len(self.loc)] or p == self.loc[:len(p)]):
                if self.badread is None:
                    self.badread = nd
        return u

    def init(self, idx, u, e):
        f = self.fn
        if 0 <= idx < len(f.inits):
            u = self.step(init_events(self.A, f, f.inits[idx]), u)
        return [(u, e)]

    def node(self, i, u, e):
        ev = self.A.events(self.fn, i)
        return [(self.step(ev, u), self.effect(i, e))]


class AfterNew(OneLoc):
    """is the location set between a given allocation and the end of the function?"""

    def __init__(self, A, f, loc, new):
        OneLoc.__init__(self, A, f, loc)
        self.new = new

    def node(self, i, u, e):
        if i == self.new:
            return [(False, e)]
        return OneLoc.node(self, i, u, e)


def set_after_new(A, f, loc, new):
    fl = AfterNew(A, f, loc, new).run(True)
    return not any(not u for u, _ in fl.returns) and fl.badread is None


def on_some_path_unset(A, f, loc):
    """(exit reached with loc unset, node reading it unset)"""
    fl = OneLoc(A, f, loc).run(False)
    ex = any(not u for u, _ in fl.returns)
    return ex, fl.badread
