"""C03: copies never share owned storage; polymorphic deletes; no use after delete."""
import facts
from report import Report
from owner import Ownership, local_sources
from flow import Flow, Env, canon, strip, mentions
from values import Values, basename


def field_of_this(f, i):
    i = strip(f, i)
    if i is None or i < 0 or f.k(i) != "Member" or not f.n(i).get("fld"):
        return None
    b = strip(f, f.c(i)[0])
    return f.n(i)["fld"] if f.k(b) == "This" else None


def shares(v, fld):
    """value denotes (part of) a data member fld of the object copied from"""
    if not isinstance(v, tuple):
        return False
    if v and v[0] == "field":
        return v[1] == fld and v[2] != ("this",)
    return False


class Released(Flow):
    """ust: frozenset of ('v',var) / ('f',field) whose pointee has been deleted on this path"""

    def __init__(self, F, fn, O, summ):
        Flow.__init__(self, F, fn)
        self.O, self.summ = O, summ
        self.bad = {}
        self.par = fn.parents
        self.left = {}
        self.thrown = {}        # members left pointing to deleted storage by an error raised here
        self.src = local_sources(fn)

    def leaves(self, n):
        return self.left.get(n.get("f"), frozenset())

    def place(self, i):
        f = self.fn
        i = strip(f, i)
        if i is None or i < 0:
            return None
        n = f.n(i)
        if n["k"] == "Ref" and "v" in n:
            t = f.vars[n["v"]][1]
            return ("v", n["v"]) if t.rstrip().endswith("*") or t.rstrip().endswith("*const") else None
        fl = field_of_this(f, i)
        if fl is not None:
            t = self.F.fields.get(fl)
            if t and t[1]["t"].rstrip().endswith("*"):
                return ("f", fl)
        return None

    def node(self, i, u, e):
        f = self.fn
        n = f.n(i)
        k = n["k"]
        if k == "Throw" and f.kind not in ("ctor", "dtor"):
            # the object lives on after the error (a constructor's object does not)
            for p in u:
                if p[0] == "f":
                    self.thrown.setdefault(p, i)
            return None
        if k == "Delete":
            p = self.place(f.c(i)[0])
            e2 = self.effect(i, e)
            if p is not None:
                if p in u:
                    self.bad.setdefault((p, "again"), i)
                return [(u | {p}, e2)]
            return [(u, e2)]
        if (k == "Binary" and n["op"] == "="):
            p = self.place(f.c(i)[0])
            if p is not None and p in u:
                return [(u - {p}, self.effect(i, e))]
            return None
        if k == "Decl":
            vs = {("v", v) for v, _, _ in n["d"] if v >= 0}
            if vs & u:
                return [(u - vs, self.effect(i, e))]
            return None
        if k == "Call" and (u or (n.get("obj") and f.k(strip(f, f.c(i)[0])) == "This" and self.leaves(n))):
            if not u:
                return [(u | self.leaves(n), self.effect(i, e))]
            args = f.c(i)
            off = 1 if n.get("obj") else 0
            if off and args and f.k(strip(f, args[0])) == "This":
                s = self.summ(n)
                if s:
                    return [((u - s) | self.leaves(n), self.effect(i, e))]
            # handing the pointer itself to a function that takes a reference re-seats it
            pt = n.get("pt", [])
            for j, a in enumerate(args[off:]):
                if j < len(pt) and "*" in pt[j] and pt[j].rstrip().endswith("&") and not pt[j].startswith("const"):
                    p = self.place(a)
                    if p in u:
                        u = u - {p}
            return [(u, self.effect(i, e))]
        if k in ("Ref", "Member") and u and n.get("r"):
            p = self.place(i)
            if p in u and not self.harmless(i):
                self.bad.setdefault((p, "use"), i)
        return None

    def ancestors(self, i):
        out = []
        while i in self.par if isinstance(self.par, dict) else 0 <= i and self.par[i] >= 0:
            i = self.par[i]
            out.append(i)
        return out

    def harmless(self, i):
        """the pointer is only compared or deleted (handled there)"""
        f = self.fn
        p = self.par.get(i)
        while p is not None and f.k(p) == "Cast":
            p = self.par.get(p)
        if p is None:
            return False
        n = f.n(p)
        return n["k"] in ("Delete", "If", "While", "For") or n["k"] == "Binary" and n["op"] in ("==", "!=", "&&", "||") or n["k"] == "Unary" and n["op"] == "!"


def counter_of(F, d, fld):
    """the counter field when a destructor deletes the member only after counting it down to zero"""
    for i in d.walk():
        if d.k(i) == "Delete" and field_of_this(d, d.c(i)[0]) == fld:
            p = d.parents.get(i)
            while p is not None:
                if d.k(p) == "If":
                    for x in d.walk(p):
                        n = d.n(x)
                        if n["k"] == "Unary" and n["op"] == "--":
                            m = strip(d, d.c(x)[0])
                            if d.k(m) == "Member" and field_of_this(d, d.c(m)[0]) == fld:
                                return d.n(m)["fld"]
                p = d.parents.get(p)
    return None


class Counted(Flow):
    """ust = (owner state, increments): state 0 holds old, 1 holds new or fresh, 2 replaced after giving up"""

    def __init__(self, F, fn, fld, cnt):
        Flow.__init__(self, F, fn)
        self.fld, self.cnt, self.badassign = fld, cnt, None

    def node(self, i, u, e):
        f = self.fn
        n = f.n(i)
        st, inc = u
        if n["k"] == "Unary" and ("++" in n["op"] or "--" in n["op"]):
            m = strip(f, f.c(i)[0])
            if f.k(m) == "Member" and n_field(f, m) == self.cnt:
                b = strip(f, f.c(m)[0])
                if "--" in n["op"]:
                    if st == 0 and field_of_this(f, b) == self.fld:
                        st = 3
                    else:
                        st = 9
                else:
                    inc += 1
                return [((st, inc), self.effect(i, e))]
        if n["k"] == "Binary" and n["op"] == "=" and field_of_this(f, f.c(i)[0]) == self.fld:
            if st == 0:
                self.badassign = i
            return [((2 if st in (0, 3) else st, inc), self.effect(i, e))]
        return None


def n_field(f, i):
    return f.n(i).get("fld")


class Assign(Flow):
    """copy assignment: ust = (released?, )"""

    def __init__(self, F, fn, fld, rhs, summ):
        Flow.__init__(self, F, fn)
        self.fld, self.rhs, self.rel = fld, rhs, summ
        self.leak = self.selfuse = None

    def node(self, i, u, e):
        f = self.fn
        n = f.n(i)
        k = n["k"]
        mine = ("m", self.fld, ("this",))
        if k == "Delete" and field_of_this(f, f.c(i)[0]) == self.fld:
            if self.may_self(e):
                return [("gone-self", self.effect(i, e))]
            return [("gone", self.effect(i, e))]
        if k == "Call":
            off = 1 if n.get("obj") else 0
            if off and f.k(strip(f, f.c(i)[0])) == "This" and n.get("f") and self.fld in self.rel(n["f"]):
                return [("gone-self" if self.may_self(e) else "gone", self.effect(i, e))]
            if u == "gone-self" and self.reads_in_callee(n, off, i):
                self.selfuse = i
            if (n.get("fn") or "").split("::")[-1] in ("swap", "move"):
                return [("gone", self.effect(i, e))]
        if k == "Member" and n.get("fld") == self.fld and field_of_this(f, i) is None and u == "gone-self":
            b = canon(f, f.c(i)[0])
            if b == ("v", self.rhs) or b == ("*", ("v", self.rhs)):
                self.selfuse = i
        if k == "Binary" and n["op"] == "=" and field_of_this(f, f.c(i)[0]) == self.fld:
            known = self.known(mine, e)
            if u == "held" and known is not False:
                self.leak = i
            return [("held" if u == "held" else u, self.effect(i, e))]
        return None

    def reads_in_callee(self, n, off, i):
        g = self.F.fns.get(n.get("f"))
        if g is None or g.body < 0:
            return False
        for p, a in zip(g.params, self.fn.c(i)[off:]):
            if canon(self.fn, a) == ("v", self.rhs):
                for x in g.walk():
                    if g.k(x) == "Member" and g.n(x).get("fld") == self.fld and canon(g, g.c(x)[0]) in (("v", p), ("*", ("v", p))):
                        return True
        return False

    def may_self(self, e):
        for (a, v) in e.m:
            if not v and a[0] == "b==" and ("this",) in a and any(x[0] == "&" for x in a[1:] if isinstance(x, tuple)):
                return False
        return True

    @staticmethod
    def known(atom, e):
        return e.get(atom)


def run():
    F = facts.load()
    R = Report("C03", "Ownership from destructors (every data member a destructor releases, through helpers, loops, containers and function objects). For each "
               "owning class, copy construction and copy assignment are refused, or user-written so that the copy's member is never the other object's pointer; "
               "assignment releases what it replaces and reads nothing it has released when assigned to itself. Every delete expression and owning smart pointer "
               "of a class with derived classes has a virtual destructor. Path-sensitive typestate over every function that deletes: no second delete, no use of a "
               "deleted pointer, no data member left pointing to deleted storage.")
    O = Ownership(F)
    V = Values(F)
    R.extra["owning_classes"] = []
    for cu, c in sorted(F.classes.items(), key=lambda x: x[1]["qn"]):
        own = O.owned(cu)
        if not own:
            continue
        R.extra["owning_classes"].append(c["qn"] + ": " + ", ".join(F.fields[x][1]["n"] for x in sorted(own)))
        loc = "%s:%d" % (c["file"].split("/")[-1], c["line"])
        for which, word in (("cc", "copy constructor"), ("ca", "copy assignment")):
            st = O.copy_state(cu, which)
            key = "%s %s" % (c["qn"], word)
            if st == "refused":
                R.ok("copy", loc + " " + key)
                continue
            if st == "memberwise":
                R.bad("copy", key, loc, "%s releases %s when destroyed, yet its implicit %s gives the copy the same pointers" % (c["qn"], ", ".join(F.fields[x][1]["n"] for x in sorted(own)), word))
                continue
            m = O.special(cu, which)
            f = F.fns[m["u"]]
            for fld in sorted(own):
                nm = F.fields[fld][1]["n"]
                k2 = key + " member " + nm
                cnt = counter_of(F, F.fns[O.dtor(cu)], fld)
                if cnt is not None:
                    for g in F.fns.values():
                        if g.cls == cu and g.body >= 0 and g.kind == "ctor" and not g.load().get("delegating") and which == "cc":
                            c2 = Counted(F, g, fld, cnt)
                            c2.run((1, 0))
                            R.check(all(s == (1, 1) for s, rv in c2.returns), "counted", "%s%s shares %s" % (c["qn"], g.load().get("pt", "") or [g.vars[p][1] for p in g.params], nm), g.loc(), "a constructor of %s does not count its share of %s exactly once" % (c["qn"], nm))
                    if which == "ca":
                        c2 = Counted(F, f, fld, cnt)
                        c2.run((0, 0))
                        R.check(all(s in ((0, 0), (2, 1)) for s, rv in c2.returns) and not c2.badassign, "counted", key + " shares " + nm, f.loc(),
                                "assignment of %s does not give up the old share of %s before and count the new one once after replacing it" % (c["qn"], nm))
                    continue
                bad = None
                for g, v in given(F, f, fld):
                    if any(shares(x, o) for x in V.of(g, v) for o in own) or any(shares_container(g, v, o) for o in own):
                        bad = g.loc(v)
                R.check(bad is None, "copy", k2, bad or f.loc(), "%s of %s takes over the other object's %s" % (word, c["qn"], nm))
                if which == "ca" and f.params and F.fields[fld][1]["t"].rstrip().endswith("*"):
                    a = Assign(F, f, fld, f.params[0], O.releases)
                    a.run("held")
                    R.check(a.leak is None, "assign", k2 + " leaks", f.loc(a.leak) if a.leak is not None else f.loc(), "assignment to %s replaces %s without releasing it" % (c["qn"], nm))
                    R.check(a.selfuse is None, "assign", k2 + " self", f.loc(a.selfuse) if a.selfuse is not None else f.loc(), "assigning a %s to itself uses %s after releasing it" % (c["qn"], nm))
    # polymorphic deletes
    def needs(t):
        t = basename(t)
        c = F.by_ty.get(t)
        if c is None or len(F.all_subs(c["u"])) < 2:
            return None
        return c

    def has_vdtor(c):
        return any(F.classes[b].get("vdtor") for b in F.all_bases(c["u"]))
    for f in sorted(F.all(), key=lambda f: (f.file, f.line)):
        if f.body < 0:
            continue
        for i in f.walk():
            n = f.n(i)
            if n["k"] == "Delete":
                c = needs(f.n(f.c(i)[0]).get("t", ""))
                if c is not None:
                    R.check(has_vdtor(c), "virtual-destructor", "%s deletes %s" % (f.qn, c["qn"]), f.loc(i), "%s is deleted through a base pointer but its destructor is not virtual" % c["qn"])
    seen = set()
    def smart(t, where):
        for pre in ("std::unique_ptr<", "std::shared_ptr<"):
            j = t.find(pre)
            if j >= 0:
                inner = t[j + len(pre):].split(",")[0].rstrip("> ")
                c = needs(inner)
                if c is not None and (c["qn"], where) not in seen:
                    seen.add((c["qn"], where))
                    R.check(has_vdtor(c), "virtual-destructor", "%s owns %s" % (where, c["qn"]), where, "%s is owned through a base pointer but its destructor is not virtual" % c["qn"])
    for c in F.classes.values():
        for fl in c["fields"]:
            smart(fl["t"], c["qn"] + "::" + fl["n"])
    for f in F.all():
        for nm, t, kind, l in f.vars:
            if kind == "local":
                smart(t, f.qn)
    # typestate
    from definit import Access
    A = Access(F)
    memo = {}

    def summ(n):
        u = n.get("f")
        if u in memo:
            return memo[u]
        memo[u] = frozenset()
        g = F.fns.get(u)
        out = set()
        if g is not None and g.body >= 0:
            for i in g.walk():
                if g.k(i) == "Binary" and g.n(i)["op"] == "=":
                    fl = field_of_this(g, g.c(i)[0])
                    if fl:
                        out.add(("f", fl))
                elif g.k(i) == "Call" and g.n(i).get("obj") and g.k(strip(g, g.c(i)[0])) == "This":
                    out |= summ(g.n(i))
        memo[u] = frozenset(out)
        return memo[u]
    todo = [f for f in sorted(F.all(), key=lambda f: (f.file, f.line)) if f.body >= 0 and f.cfg is not None]
    left = {}
    work = [f for f in todo if any(f.k(i) == "Delete" for i in f.walk())]
    done = set()
    runs = {}
    while work:
        f = work.pop()
        if f.u in done:
            continue
        done.add(f.u)
        fl = Released(F, f, O, summ)
        fl.left = left
        fl.run(frozenset())
        runs[f.u] = (f, fl)
        if f.kind == "dtor":
            continue
        lf = frozenset(p for u, rv in fl.returns for p in u if p[0] == "f")
        if lf and helper(F, f):
            left[f.u] = lf            # an internal helper: its callers have to give the members new values
            for g in todo:
                if any(g.k(i) == "Call" and g.n(i).get("f") == f.u for i in g.walk()):
                    done.discard(g.u)
                    work.append(g)
    for u in sorted(runs, key=lambda u: (runs[u][0].file, runs[u][0].line, u)):
        f, fl = runs[u]
        for (p, what), i in sorted(fl.bad.items(), key=str):
            nm = f.vars[p[1]][0] if p[0] == "v" else F.fields[p[1]][1]["n"]
            R.bad("released", "%s %s %s" % (f.qn, nm, what), f.loc(i), "%s %s %s after it has been deleted" % (f.qn, "deletes" if what == "again" else "uses", nm))
        for p, i in sorted(fl.thrown.items(), key=str):
            if not any(f.k(a) == "CXXTryStmt" for a in fl.ancestors(i)):
                nm = F.fields[p[1]][1]["n"]
                R.bad("dangling", "%s throws with %s" % (f.qn, nm), f.loc(i), "%s raises an error while member %s points to storage it has deleted" % (f.qn, nm))
        for i in f.walk():
            if f.k(i) == "Delete":
                R.ok("released", f.loc(i) + " " + f.qn)
        if f.kind != "dtor" and u not in left:
            for p in sorted({p for s, rv in fl.returns for p in s if p[0] == "f"}):
                nm = F.fields[p[1]][1]["n"]
                R.bad("dangling", "%s leaves %s" % (f.qn, nm), f.loc(), "%s can return with member %s pointing to storage it has deleted" % (f.qn, nm))
            R.ok("dangling", f.loc() + " " + f.qn)
    R.floor("copy", 30)
    R.floor("released", 60)
    R.floor("virtual-destructor", 15)
    return R.finish(F)


def given(F, f, fld, depth=0):
    """(function, expression) pairs a data member is set from in f and in the member functions f calls on the object"""
    out = [(f, e[2]) for e in f.inits if e[0] == "m" and e[1] == fld]
    if f.body < 0:
        return out
    for i in f.walk(f.body):
        n = f.n(i)
        if ((n["k"] == "Binary" and n["op"] == "=") or (n["k"] == "Call" and n.get("op") == "=" and len(f.c(i)) == 2)) and field_of_this(f, f.c(i)[0]) == fld:
            out.append((f, f.c(i)[1]))
        elif n["k"] == "Call" and n.get("obj") and f.k(strip(f, f.c(i)[0])) == "This" and depth < 3 and n.get("f") in F.fns:
            out += given(F, F.fns[n["f"]], fld, depth + 1)
    return out


def helper(F, f):
    """not callable from outside the class, and called from within it"""
    m = F.method_decl.get(f.u)
    if m is None or m[1].get("virt") or m[1].get("acc") == 0:
        return False
    return any(g.u != f.u and any(g.k(i) == "Call" and g.n(i).get("f") == f.u for i in g.walk()) for g in F.fns.values() if g.cls == f.cls)


def shares_container(f, i, fld):
    """copying a container of owned pointers"""
    i = strip(f, i)
    while f.k(i) == "Construct" and (f.n(i).get("copy") or f.n(i).get("move")) and f.c(i):
        i = strip(f, f.c(i)[0])
    return f.k(i) == "Member" and f.n(i).get("fld") == fld and field_of_this(f, i) is None
