"""Ownership facts: which data members a class's destructor releases, and how the class may be copied."""
from flow import strip


def local_sources(f):
    """var -> nodes it is given a value from (initialiser, assignment, range of a range-for)"""
    m = {}
    for i in f.walk():
        n = f.n(i)
        k = n["k"]
        if k == "Decl":
            for v, init, _ in n["d"]:
                if v >= 0 and init >= 0:
                    m.setdefault(v, []).append(init)
        elif (k == "Binary" and n["op"] == "=") or (k == "Call" and n.get("op") == "=" and len(f.c(i)) == 2):
            l = strip(f, f.c(i)[0])
            if f.k(l) == "Ref" and "v" in f.n(l):
                m.setdefault(f.n(l)["v"], []).append(f.c(i)[1])
        elif k == "RangeFor":
            vs = [v for x in f.walk(i) if f.k(x) == "Decl" for v, _, _ in f.n(x)["d"] if v >= 0]
            kids = [x for x in f.c(i) if x >= 0]
            # the loop variable is the declared variable of the first declaration below the loop
            for x in kids:
                if f.k(x) == "Decl":
                    for v, _, _ in f.n(x)["d"]:
                        if v >= 0:
                            m.setdefault(v, []).extend(y for y in kids if y != x and f.k(y) not in ("Block", "Decl"))
    return m


def fields_of(f, i, src=None, seen=None):
    """own data members an expression is computed from (through locals)"""
    if src is None:
        src = local_sources(f)
    seen = set() if seen is None else seen
    out = set()
    for x in f.walk(i):
        n = f.n(x)
        if n["k"] == "Member" and n.get("fld") and f.c(x) and f.k(strip(f, f.c(x)[0])) == "This":
            out.add(n["fld"])
        elif n["k"] == "Ref" and "v" in n and n["v"] not in seen:
            seen.add(n["v"])
            for y in src.get(n["v"], ()):
                out |= fields_of(f, y, src, seen)
    return out


class Ownership(object):
    def __init__(self, F):
        self.F = F
        self._rel = {}
        self._del_param = {}

    def deletes_param(self, u):
        """indices of parameters a function deletes"""
        if u in self._del_param:
            return self._del_param[u]
        self._del_param[u] = set()
        g = self.F.fns.get(u)
        out = set()
        if g is not None and g.body >= 0:
            src = local_sources(g)
            def params(i, seen):
                r = set()
                for x in g.walk(i):
                    n = g.n(x)
                    if n["k"] == "Ref" and "v" in n and n["v"] not in seen:
                        seen.add(n["v"])
                        if n["v"] in g.params:
                            r.add(g.params.index(n["v"]))
                        for y in src.get(n["v"], ()):
                            r |= params(y, seen)
                return r
            for i in g.walk():
                n = g.n(i)
                if n["k"] == "Delete":
                    out |= params(g.c(i)[0], set())
                elif n["k"] == "Call" and n.get("f"):
                    off = 1 if n.get("obj") else 0
                    for j in self.deletes_param(n["f"]):
                        if j + off < len(g.c(i)):
                            out |= params(g.c(i)[j + off], set())
        self._del_param[u] = out
        return out

    def functor_deletes(self, f, i):
        """an argument that is a function object or lambda or function whose call deletes its argument"""
        for x in f.walk(i):
            n = f.n(x)
            if n["k"] == "Lambda" and n.get("f") and self.deletes_param(n["f"]):
                return True
            if n["k"] == "Ref" and n.get("f") and self.deletes_param(n["f"]):
                return True
            c = self.F.by_ty.get((n.get("t") or "").replace("const ", "").strip()) if n["k"] in ("Construct", "InitList", "Ref") else None
            if c is not None:
                for m in c["methods"]:
                    if m["n"] == "operator()" and self.deletes_param(m["u"]):
                        return True
        return False

    def releases(self, u, depth=0):
        """own data members whose contents a member function releases: {field: location}"""
        if u in self._rel:
            return self._rel[u]
        self._rel[u] = {}
        f = self.F.fns.get(u)
        out = {}
        if f is not None and f.body >= 0 and depth < 6:
            for i in f.walk():
                n = f.n(i)
                if n["k"] == "Delete":
                    for fl in fields_of(f, f.c(i)[0]):
                        out.setdefault(fl, f.loc(i))
                elif n["k"] == "Call":
                    c = f.c(i)
                    off = 1 if n.get("obj") else 0
                    if off and c and f.k(strip(f, c[0])) == "This" and n.get("f"):
                        for t in ([n["f"]] if not n.get("virt") else self.F.overriders(n["f"])):
                            for fl, l in self.releases(t, depth + 1).items():
                                out.setdefault(fl, l)
                    if n.get("f"):
                        for j in self.deletes_param(n["f"]):
                            if j + off < len(c):
                                for fl in fields_of(f, c[j + off]):
                                    out.setdefault(fl, f.loc(i))
                    if (n.get("fn") or "").startswith("std::") and any(self.functor_deletes(f, a) for a in c[off:]):
                        for a in c[off:]:
                            for fl in fields_of(f, a):
                                out.setdefault(fl, f.loc(i))
        self._rel[u] = out
        return out

    def dtor(self, cu):
        for m in self.F.classes[cu]["methods"]:
            if m.get("dtor"):
                return m["u"]
        return None

    def owned(self, cu):
        d = self.dtor(cu)
        if d is None:
            return {}
        mine = {fl["u"]: fl for fl in self.F.classes[cu]["fields"]}
        return {fl: l for fl, l in self.releases(d).items() if fl in mine}

    # ---- copying
    def special(self, cu, which):
        for m in self.F.classes[cu]["methods"]:
            if m.get(which) and not m.get("impl"):
                return m
        return None

    def copy_state(self, cu, which, seen=()):
        """'refused' | 'user' | 'memberwise' for which in ('cc','ca')"""
        F = self.F
        if cu in seen or cu not in F.classes:
            return "memberwise"
        c = F.classes[cu]
        m = self.special(cu, which)
        if m is not None:
            if m.get("del"):
                return "refused"
            if m.get("dflt"):
                return self.implicit(cu, which, seen)
            if m["u"] not in F.fns:
                return "refused"         # declared and never defined: cannot be linked
            return "user"
        return self.implicit(cu, which, seen)

    def implicit(self, cu, which, seen):
        F = self.F
        c = F.classes[cu]
        if c.get("umc") or c.get("uma"):
            return "refused"
        for b in c["bases"]:
            if b["u"] in F.classes and self.copy_state(b["u"], which, seen + (cu,)) == "refused":
                return "refused"
        for fl in c["fields"]:
            t = fl["t"].replace("const ", "", 1) if which == "cc" else fl["t"]
            if which == "ca" and (fl.get("ref") or t.startswith("const ") and not t.rstrip().endswith("*")):
                return "refused"
            if t.startswith(("std::unique_ptr", "std::basic_ofstream", "std::basic_ifstream", "std::basic_ostream", "std::basic_fstream", "std::mutex")) and not t.rstrip().endswith(("*", "&")):
                return "refused"
            if fl.get("rec") in F.classes and self.copy_state(fl["rec"], which, seen + (cu,)) == "refused":
                return "refused"
        return "memberwise"
