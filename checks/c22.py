"""C22: tables never return a cell as the wrong type; columns, names and types stay in step."""
import facts, seq, loops
from report import Report
from values import Values
from flow import strip, canon

KIND = {"data_d": ("d", 0), "data_i": ("i", 0), "data_s": ("s", 0), "hdata_d": ("d", 1), "hdata_i": ("i", 1), "hdata_s": ("s", 1)}
GROW = ("push_back", "emplace_back", "resize", "insert", "emplace", "erase", "clear", "pop_back", "assign", "swap")
ADDERS = ("AddColumn", "HeaderAddColumn", "AddRow")


def last(n):
    """last component of a qualified name, template arguments dropped"""
    d, out = 0, ""
    for ch in n or "":
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out.split("::")[-1]


def tyname(t):
    return t.replace("const ", "").replace("&", "").strip()


def tkind(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return "s" if "basic_string" in t else "i" if t == "int" else "d" if t == "double" else None


def run():
    F = facts.load()
    R = Report("C22", "Every access to a table cell is reached only after the recorded type of that very column was compared with the type of the storage "
               "accessed, at the position recorded for that column and the row given; adding columns and rows extends exactly the matching storage, name "
               "list and type record together; row objects and text conversions forward to the accessor of the same type; the TFS reader and writer pair "
               "names, types and values in the same order.")
    K = Check(F, R)
    K.cells()
    K.columns()
    K.rows()
    K.confined()
    K.forwarding()
    K.copies()
    K.literals()
    K.tfs()
    R.floor("typed", 20)
    R.floor("value", 12)
    R.floor("columns", 10)
    R.floor("rows", 6)
    R.floor("confined", 12)
    R.floor("forward", 16)
    R.floor("names", 10)
    R.floor("tfs", 8)
    return R.finish(F)


class Check(object):
    def __init__(self, F, R):
        self.F, self.R, self.V = F, R, Values(F)
        self.C = F.cls("DataTable")
        self.fld = {x["n"]: x["u"] for x in self.C["fields"]}
        for need in list(KIND) + ["col_names", "lookup", "length", "hcol_names", "hlookup"]:
            if need not in self.fld:
                raise facts.Broken("anchor vanished: DataTable::" + need)
        self.name = {u: n for n, u in self.fld.items()}
        loc = F.cls("DataTable::location")
        self.pos = next(x["u"] for x in loc["fields"] if x["n"] == "pos")
        self.type = next(x["u"] for x in loc["fields"] if x["n"] == "type")
        self.fns = [F.fns[m["u"]] for m in self.C["methods"] if m["u"] in F.fns and F.fns[m["u"]].load()["body"] >= 0 and F.fns[m["u"]].cfg is not None]

    # ---- value shapes
    def member(self, vals):
        """name of the DataTable member that every value is"""
        out = {self.name.get(v[1]) for v in vals if v[0] == "field"} if all(v[0] == "field" and v[1] in self.name for v in vals) else {None}
        return next(iter(out)) if len(out) == 1 else None

    def bare(self, v):
        for _ in range(5):
            if v[0] == "ctor" and len(v[3]) == 1 and len(v[3][0]) == 1:
                v = next(iter(v[3][0]))
            elif v[0] == "call" and last(v[2]) == "move" and v[3] and len(v[3][0]) == 1:
                v = next(iter(v[3][0]))
            else:
                break
        return v

    def place(self, vals):
        """(map, key) : every value is the record kept for key in lookup / hlookup"""
        out = set()
        for v in vals:
            v = self.bare(v)
            if v[0] == "field" and (v[1].endswith("@second") or v[1].endswith("FI@second")):        # find(key)->second
                w = self.bare(v[2][1]) if v[2][0] == "deref" else self.bare(v[2])
                if w[0] == "call" and last(w[2]) == "find" and len(w[3]) == 2:
                    out.add((self.member(w[3][0]), self.keys(w[3][1])))
                    continue
                return None
            if v[0] == "call" and last(v[2]) in ("at", "operator[]") and len(v[3]) == 2:
                out.add((self.member(v[3][0]), self.keys(v[3][1])))
            else:
                return None
        return next(iter(out)) if len(out) == 1 and None not in next(iter(out)) else None

    def keys(self, vals):
        return frozenset(self.bare(v) for v in vals)

    def index(self, vals, fld):
        """place whose recorded position/type every value is"""
        out = set()
        for v in vals:
            v = self.bare(v)
            if v[0] == "field" and v[1] == fld:
                out.add(self.place([v[2]]))
            else:
                return None
        return next(iter(out)) if len(out) == 1 else None

    def cell(self, fl, i):
        """(kind, header, place, row values) when node i selects one cell of the storage"""
        f = fl.fn
        i = strip(f, i)
        n = f.n(i)
        if not (n["k"] == "Index" or n["k"] == "Call" and (n.get("op") == "[]" or last(n.get("fn")) in ("at", "operator[]"))) or len(f.c(i)) != 2:
            return None
        base = fl.value(f.c(i)[0])
        m = self.member(base)
        if m in KIND and KIND[m][1]:
            return KIND[m] + (self.index(fl.value(f.c(i)[1]), self.pos), None)
        col = set()
        for v in base:
            v = self.bare(v)
            if v[0] == "call" and last(v[2]) in ("at", "operator[]") and len(v[3]) == 2:
                col.add((self.member(v[3][0]), self.index(v[3][1], self.pos)))
            else:
                return None
        if len(col) != 1:
            return None
        m, pl = next(iter(col))
        if m not in KIND or KIND[m][1]:
            return None
        return KIND[m] + (pl, frozenset(fl.value(f.c(i)[1])))

    # ---- events
    def classify(self, fl, i):
        f = fl.fn
        n = f.n(i)
        k = n["k"]
        if k == "Call" and (n.get("op") == "[]" or last(n.get("fn")) in ("at", "operator[]")) or k == "Index":
            c = self.cell(fl, i)
            if c is not None:
                return ("cell",) + c
            if self.member(fl.value(f.c(i)[0])) in KIND:
                if f.k(f.parents.get(i, -1)) in ("Call", "Index"):
                    return None
        if (k == "Binary" and n["op"] == "=") or (k == "Call" and n.get("op") == "=" and len(f.c(i)) == 2):
            c = self.cell(fl, f.c(i)[0])
            if c is not None:
                return ("write",) + c + (self.source(fl, f.c(i)[1]),)
        return None

    def source(self, fl, i):
        """what a cell is given: ("param", k) possibly through a conversion"""
        vals = fl.value(i)
        out = set()
        for v in vals:
            v = self.bare(v)
            conv = ""
            if v[0] == "call" and last(v[2]) in ("stod", "stoi", "stof", "stol") and v[3]:
                conv, v = last(v[2]), self.bare(next(iter(v[3][0])))
            out.add((conv, v[2] if v[0] == "param" else None))
        return next(iter(out)) if len(out) == 1 else None

    def edge(self, fl, cond, pol, env):
        f = fl.fn
        c = strip(f, cond)
        while f.k(c) == "Unary" and f.n(c)["op"] == "!":
            c, pol = strip(f, f.c(c)[0]), not pol
        n = f.n(c)
        if n.get("op") in ("==", "!=") and len(f.c(c)) == 2:
            for a, b in (f.c(c), f.c(c)[::-1]):
                pl, lit = self.index(fl.value(a), self.type), fl.value(b)
                if pl is not None and len(lit) == 1 and next(iter(lit))[0] == "int":
                    return ("is", chr(int(next(iter(lit))[1])), pol == (n["op"] == "=="), pl)
        return None

    def case(self, fl, cond, lab):
        pl, lit = self.index(fl.value(cond), self.type), canon(fl.fn, lab)
        return ("is", chr(lit[1]), True, pl) if pl is not None and lit and lit[0] == "int" else None

    def paths(self, f, classify=None, edge=None, maxlen=14, case=None):
        return seq.paths(self.F, f, self.V, classify or self.classify, maxlen=maxlen, follow=lambda g: g.cls == self.C["u"] or g.cls is None and g.loc().split(":")[0].split("/")[-1].startswith("DataTable"), edge=edge or self.edge, case=case or self.case)

    # ---- every cell access is guarded by its type
    def cells(self):
        R, F = self.R, self.F
        for f in self.fns:
            touched = any(f.k(i) == "Member" and self.name.get(f.n(i).get("fld")) in KIND for i in f.walk())
            closure = touched or f.name.startswith(("Get", "Set", "HeaderGet", "HeaderSet"))
            if not closure or f.name in ADDERS:
                continue
            ps, fl = self.paths(f)
            key = "%s(%s)" % (f.qn, ", ".join(f.vars[p][0] for p in f.params))
            nc = 0
            for kind, ev, _ in ps:
                known = set()
                for e in ev:
                    if e == "...":
                        R.bad("typed", key + " long", f.loc(), "%s: too many cell accesses to follow" % f.qn)
                        break
                    if e[0] == "is":
                        if e[2]:
                            known.add((e[1], e[3]))
                        else:
                            known.discard((e[1], e[3]))
                    elif e[0] in ("cell", "write"):
                        nc += 1
                        knd, hdr, pl = e[1], e[2], e[3]
                        R.check(pl is not None, "typed", key + " place", f.loc(), "%s: a cell is not selected by the position recorded for its column" % f.qn)
                        if pl is None:
                            continue
                        R.check(pl[0] == ("hlookup" if hdr else "lookup"), "typed", key + " map", f.loc(),
                                "%s: a %s cell is looked up in %s" % (f.qn, "header" if hdr else "body", pl[0]))
                        R.check((knd, pl) in known, "typed", "%s type %s" % (key, knd), f.loc(),
                                "%s: a %s cell is reached without its column having been found to be of that type" % (f.qn, {"d": "double", "i": "integer", "s": "string"}[knd]))
                        R.check(seq.is_param(pl[1], 0), "typed", key + " column", f.loc(), "%s: the cell is not in the column named" % f.qn)
                        if not hdr:
                            R.check(seq.is_param(e[4], 1), "typed", key + " row", f.loc(), "%s: the cell is not in the row given" % f.qn)
            # what the function is for
            self.purpose(f, ps, key, nc)

    def purpose(self, f, ps, key, nc):
        R = self.R
        hdr = f.name.startswith("Header")
        nm = f.name[6:] if hdr else f.name
        if nm.startswith("Get_") or nm in ("GetAsStr", "SetWithStr", "Set", "Set_d", "Set_i", "Set_s"):
            served = set()       # column types that get an answer
            for kind, ev, _ in ps:
                yes = {(e[1], e[3]) for e in ev if e[0] == "is" and e[2]}
                no = {(e[1], e[3]) for e in ev if e[0] == "is" and not e[2]}
                if kind == "return" and not yes & no and len({t for t, _ in yes}) == 1:
                    served |= {t for t, _ in yes}
            want = {"d", "i", "s"} if nm in ("GetAsStr", "SetWithStr") else {tkind((f.ret or "") if nm.startswith("Get_") else f.vars[f.params[-1]][1])}
            R.check(served == want, "value", key + " types", f.loc(), "%s: columns of type %s are served instead of %s" % (f.qn, "/".join(sorted(served)) or "none", "/".join(sorted(x or "?" for x in want))))
        if nm.startswith("Get_") or nm == "GetAsStr":
            want = tkind(f.ret or "") if nm != "GetAsStr" else None
            for kind, ev, rv in ps:
                if kind != "return":
                    continue
                cs = [e for e in ev if e[0] == "cell"]
                R.check(len(cs) == 1 and cs[0][2] == int(hdr) and (want is None or cs[0][1] == want), "value", key + " read", f.loc(),
                        "%s: can return something other than the %s cell asked for" % (f.qn, "header" if hdr else "table"))
            if nm != "GetAsStr":
                vals = set()
                for r in self.V.returns(f):
                    vals |= set(self.V.of(f, r))
                R.check(bool(vals) and all(self.is_cell(v) for v in vals), "value", key + " result", f.loc(), "%s: what is returned is not the cell itself" % f.qn)
                if nm[4:] in ("d", "i", "s"):
                    R.check(want == nm[4:], "value", key + " kind", f.loc(), "%s: returns another type than its name says" % f.qn)
        elif nm in ("Set", "Set_d", "Set_i", "Set_s", "SetWithStr"):
            vp = 1 if hdr else 2
            want = tkind(f.vars[f.params[-1]][1]) if nm != "SetWithStr" else None
            for kind, ev, rv in ps:
                if kind != "return":
                    continue
                ws = [e for e in ev if e[0] == "write"]
                R.check(len(ws) == 1 and ws[0][2] == int(hdr), "value", key + " write", f.loc(), "%s: can return without having set exactly the one %s cell" % (f.qn, "header" if hdr else "table"))
                for e in ws:
                    ok = e[5] is not None and e[5][1] == vp
                    if nm == "SetWithStr":
                        ok = ok and e[5][0] == {"d": "stod", "i": "stoi", "s": ""}[e[1]]
                    else:
                        ok = ok and e[5][0] == "" and e[1] == want
                    R.check(ok, "value", key + " given", f.loc(), "%s: the cell is set to something other than the value given" % f.qn)
            if nm[-2:] in ("_d", "_i", "_s"):
                R.check(want == nm[-1], "value", key + " kind", f.loc(), "%s: takes another type than its name says" % f.qn)

    def is_cell(self, v):
        v = self.bare(v)
        return v[0] == "call" and last(v[2]) in ("at", "operator[]")

    # ---- adding columns
    def columns(self):
        R, F = self.R, self.F
        for fn, hdr in (("AddColumn", 0), ("HeaderAddColumn", 1)):
            f = seq.body(F, self.C, fn)
            names, look = ("hcol_names", "hlookup") if hdr else ("col_names", "lookup")

            def ev(fl, i):
                g = fl.fn
                n = g.n(i)
                if n["k"] == "Call" and n.get("obj"):
                    m, nm = self.member(fl.value(g.c(i)[0])), last(n.get("fn"))
                    a = [frozenset(self.bare(v) for v in fl.value(x)) for x in g.c(i)[1:]]
                    if m in KIND and nm in GROW:
                        return ("grow", m, nm, tuple(a))
                    if m in KIND and nm == "size":
                        return ("size", m)
                    if m in ("col_names", "hcol_names") and nm in GROW:
                        return ("name", m, nm, tuple(a))
                    if m in ("lookup", "hlookup") and nm in GROW:
                        return ("entry", m, nm, tuple(a))
                if (n["k"] == "Binary" and n["op"] == "=") or (n["k"] == "Call" and n.get("op") == "=" and len(g.c(i)) == 2):
                    l = strip(g, g.c(i)[0])
                    lv = fl.value(l)
                    pt = self.index(lv, self.type), self.index(lv, self.pos)
                    if pt[0] is not None:
                        return ("settype", pt[0], frozenset(self.bare(v) for v in fl.value(g.c(i)[1])))
                    if pt[1] is not None:
                        return ("setpos", pt[1], frozenset(self.bare(v) for v in fl.value(g.c(i)[1])))
                    p2 = self.place(lv)
                    if p2 is not None and p2[0] in ("lookup", "hlookup"):
                        return ("setboth", p2, frozenset(fl.value(g.c(i)[1])))
                return None

            def edge(fl, cond, pol, env):
                g = fl.fn
                c = strip(g, cond)
                while g.k(c) == "Unary" and g.n(c)["op"] == "!":
                    c, pol = strip(g, g.c(c)[0]), not pol
                n = g.n(c)
                for x in g.walk(c):
                    if g.k(x) == "Call" and last(g.n(x).get("fn")) in ("count", "find") and g.n(x).get("obj") and self.member(fl.value(g.c(x)[0])) == look:
                        if last(g.n(x)["fn"]) == "find":
                            dup = pol if n.get("op") == "!=" else not pol
                        else:
                            dup = pol if n.get("op") not in ("==",) else not pol
                            if n.get("op") == "==" and canon(g, g.c(c)[1]) == ("int", 1):
                                dup = pol
                        return ("dup", dup)
                if n.get("op") in ("==", "!=") and len(g.c(c)) == 2:
                    for a, b in (g.c(c), g.c(c)[::-1]):
                        lit = fl.value(b)
                        if seq.is_param(fl.value(a), 1) and len(lit) == 1 and next(iter(lit))[0] == "int":
                            return ("is", chr(int(next(iter(lit))[1])), pol == (n["op"] == "=="))
                return None

            def case(fl, cond, lab):
                lit = canon(fl.fn, lab)
                return ("is", chr(lit[1]), True) if lit and lit[0] == "int" and seq.is_param(fl.value(cond), 1) else None
            ps, fl = self.paths(f, ev, edge, case=case)
            kinds = set()
            for kind, es, _ in ps:
                muts = [e for e in es if e[0] in ("grow", "name", "entry", "settype", "setpos", "setboth")]
                if kind == "throw":
                    R.check(not muts, "columns", fn + " refused", f.loc(), "%s: a refused column leaves the table changed" % f.qn)
                    continue
                R.check(("dup", False) in es, "columns", fn + " twice", f.loc(), "%s: a column can be added under a name that exists" % f.qn)
                grows = [e for e in es if e[0] == "grow"]
                isk = {e[1] for e in es if e[0] == "is" and e[2]}
                kinds |= isk
                ok = len(grows) == 1 and len(isk) == 1 and KIND[grows[0][1]] == (next(iter(isk)), hdr) and grows[0][2] in ("push_back", "emplace_back")
                R.check(ok, "columns", fn + " storage", f.loc(), "%s: adding a column does not extend exactly the storage of its type" % f.qn)
                if ok and not hdr:
                    R.check(self.sized(grows[0][3]), "columns", fn + " length", f.loc(), "%s: a new column does not start with as many rows as the table has" % f.qn)
                if ok:
                    sz = [e for e in es if e[0] == "size"]
                    R.check(sz == [("size", grows[0][1])] and es.index(sz[0]) < es.index(grows[0]), "columns", fn + " position", f.loc(),
                            "%s: the position recorded is not that of the new column in the storage of its type" % f.qn)
                nms = [e for e in es if e[0] == "name"]
                R.check(len(nms) == 1 and nms[0][1] == names and nms[0][2] in ("push_back", "emplace_back") and seq.is_param(nms[0][3][0], 0), "columns", fn + " name", f.loc(),
                        "%s: the name of a new column is not added exactly once" % f.qn)
                ty = [e for e in es if e[0] == "settype"]
                po = [e for e in es if e[0] == "setpos"]
                bo = [e for e in es if e[0] in ("setboth", "entry")]
                if bo:
                    R.check(len(bo) == 1 and not ty and not po, "columns", fn + " record", f.loc(), "%s: type and position of a new column are not recorded exactly once" % f.qn)
                else:
                    R.check(len(ty) == 1 and len(po) == 1 and all(x[1][0] == look and seq.is_param(x[1][1], 0) for x in ty + po) and seq.is_param(ty[0][2], 1),
                            "columns", fn + " record", f.loc(), "%s: type and position of a new column are not recorded under its name" % f.qn)
            R.check(kinds == {"d", "i", "s"}, "columns", fn + " kinds", f.loc(), "%s: does not accept exactly the three column types" % f.qn)

    def sized(self, args):
        """length, or a column constructed with length elements"""
        if len(args) < 1:
            return False
        a = args[0]
        for v in a:
            if v[0] == "ctor" and v[3]:
                v = self.bare(next(iter(v[3][0])))
            if not (v[0] == "field" and v[1] == self.fld["length"]):
                return False
        return bool(a)

    # ---- adding a row
    def rows(self):
        R, F = self.R, self.F
        f = seq.body(F, self.C, "AddRow", 0)
        its = loops.iterations(F, f, self.V, {})
        done = {}
        for it in its:
            m = self.member(it.cont)
            if m not in KIND or KIND[m][1]:
                continue
            R.check(not it.problems and not it.early, "rows", "AddRow over " + m, it.loc(), "DataTable::AddRow: not every column gets a new cell (%s)" % ", ".join(it.problems or ["can stop early"]))

            def ev(fl, i):
                n = fl.fn.n(i)
                if n["k"] == "Call" and n.get("obj") and last(n.get("fn")) in GROW:
                    return (last(n["fn"]), len(fl.fn.c(i)) - 1)
                return None
            rounds, leaves, _ = seq.each(F, self.V, it, ev)
            ok = bool(rounds) and all(len(r) == 1 and r[0] in (("emplace_back", 0), ("push_back", 1), ("emplace_back", 1)) for r in rounds)
            R.check(ok, "rows", "AddRow cell " + m, it.loc(), "DataTable::AddRow: a column does not get exactly one new cell")
            done[m] = done.get(m, 0) + 1
        for m in KIND:
            if not KIND[m][1]:
                R.check(done.get(m) == 1, "rows", "AddRow all " + m, f.loc(), "DataTable::AddRow: the columns in %s do not get one new cell each" % m)

        def ev(fl, i):
            n = fl.fn.n(i)
            if n["k"] in ("Unary", "CompoundAssign", "Binary") and n.get("op") not in (None,):
                l = strip(fl.fn, fl.fn.c(i)[0])
                if fl.fn.k(l) == "Member" and fl.fn.n(l).get("fld") == self.fld["length"] and ("++" in n["op"] or "--" in n["op"] or n["op"] in ("=", "+=", "-=")):
                    one = n["op"] in ("++", "post++", "pre++") or "++" in n["op"] or n["op"] == "+=" and canon(fl.fn, fl.fn.c(i)[1]) == ("int", 1)
                    if n["op"] == "=":
                        one = canon(fl.fn, fl.fn.c(i)[1]) in (("b+", ("m", self.fld["length"], ("this",)), ("int", 1)), ("b+", ("int", 1), ("m", self.fld["length"], ("this",))))
                    return ("more", one)
            return None
        ps, fl = self.paths(f, ev, lambda *a: None)
        for kind, es, rv in ps:
            if kind == "return":
                R.check(es == (("more", True),), "rows", "AddRow length", f.loc(), "DataTable::AddRow: the length does not grow by one")
        R.check(self.new_index(f), "rows", "AddRow index", f.loc(), "DataTable::AddRow: does not return the index of the new row")
        # queries about shape
        for nm, hdr, want in (("ColumnNames", 0, "col_names"), ("HeaderNames", 1, "hcol_names"), ("Length", 0, "length")):
            g = seq.body(F, self.C, nm)
            vals = set()
            for r in self.V.returns(g):
                vals |= set(self.V.of(g, r))
            R.check(self.member(vals) == want, "rows", nm, g.loc(), "%s: does not return %s" % (g.qn, want))
        for nm, want in (("GetColumnType", "lookup"), ("GetHeaderType", "hlookup")):
            g = seq.body(F, self.C, nm)
            vals = set()
            for r in self.V.returns(g):
                vals |= set(self.V.of(g, r))
            pl = self.index(vals, self.type) if vals else None
            R.check(pl is not None and pl[0] == want and seq.is_param(pl[1], 0), "rows", nm, g.loc(), "%s: does not return the type recorded for the name" % g.qn)
        for g in self.fns:
            if g.name in ("begin", "end"):
                ok = False
                for r in self.V.returns(g):
                    for v in self.V.of(g, r):
                        v = self.bare(v)
                        if v[0] == "ctor" and len(v[3]) == 2:
                            p = v[3][1]
                            ok = all(x in (("this",), ("addr", ("deref", ("this",)))) for x in v[3][0]) and \
                                (p == frozenset({("int", "0")}) if g.name == "begin" else self.member(p) == "length")
                R.check(ok, "rows", "%s %s" % (g.name, g.ret), g.loc(), "%s: rows are not walked from the first to the last" % g.qn)
        for cn in ("DataTableRowIterator", "ConstDataTableRowIterator"):
            C = F.cls(cn)
            for m in C["methods"]:
                g = F.fns.get(m["u"])
                if g is None or m["n"] not in ("operator++", "operator--") or g.load()["body"] < 0:
                    continue

                def ev(fl, i):
                    n = fl.fn.n(i)
                    if n["k"] == "Unary" and ("++" in n["op"] or "--" in n["op"]) or n["k"] == "CompoundAssign":
                        return n["op"].replace("post", "").replace("pre", "")
                    if n["k"] == "Decl" and len(n["d"]) == 1 and n["d"][0][0] >= 0 and cn in fl.fn.vars[n["d"][0][0]][1] and not fl.fn.vars[n["d"][0][0]][1].rstrip().endswith(("&", "*")):
                        return "copy"
                    return None
                ps, fl = seq.paths(F, g, self.V, ev, follow=lambda h: h.cls == C["u"])
                want = m["n"][-2:]
                step = [(want,), (want[0] + "=",)]
                if len(m["pt"]) == 1:        # the old position is returned
                    step = [("copy",) + x for x in step]
                ok = all(e in step for kind, e, _ in ps)
                if len(m["pt"]) == 1:
                    rets = [strip(g, r) for r in self.V.returns(g)]
                    for r in rets:
                        while g.k(r) == "Construct" and g.c(r):
                            r = strip(g, g.c(r)[0])
                        ok = ok and g.k(r) == "Ref" and "v" in g.n(r)
                R.check(ok, "rows", "%s::%s/%d" % (cn, m["n"], len(m["pt"])), g.loc(), "%s: does not move by one row" % g.qn)
        for g in F.fns.values():
            if g.name not in ("operator+", "operator-", "operator+=", "operator-=") or g.load()["body"] < 0:
                continue
            C = F.classes.get(g.cls)
            if (C["qn"] if C else tyname(g.vars[g.params[-1]][1]) if g.params else "") not in ("DataTableRowIterator", "ConstDataTableRowIterator"):
                continue
            if "RowIterator" not in (g.ret or "") and not (g.params and "RowIterator" in g.vars[g.params[0]][1]):
                continue
            used = [g.n(i)["op"].rstrip("=") for i in g.walk() if g.n(i).get("op") in ("+", "-", "+=", "-=")]
            ok = bool(used) and (used.count("-") % 2 == 1) == (g.name[8] == "-")
            R.check(ok, "rows", "%s(%s)" % (g.qn, ",".join(g.vars[p][1][:30] for p in g.params)), g.loc(), "%s: moves the row position the wrong way or not at all" % g.qn)

    def new_index(self, f):
        L = ("m", self.fld["length"], ("this",))
        rets = self.V.returns(f)
        for r in rets:
            i = strip(f, r)
            if canon(f, i) == ("b-", L, ("int", 1)):
                continue
            if f.k(i) == "Unary" and f.n(i)["op"].startswith("post") and canon(f, f.c(i)[0]) == L:
                continue
            v = loops.base_var(f, i)
            x = loops.only_init(f, v) if v is not None else None
            if x is not None and (canon(f, x) == L and x < next((j for j in f.walk() if f.k(j) == "Unary" and canon(f, f.c(j)[0]) == L), 10**9) or
                                  f.k(strip(f, x)) == "Unary" and f.n(strip(f, x))["op"].startswith("post") and canon(f, f.c(strip(f, x))[0]) == L):
                continue
            return False
        return bool(rets)

    # ---- nobody else touches the shape
    def confined(self):
        R, F = self.R, self.F
        shape = {self.fld[x] for x in list(KIND) + ["col_names", "lookup", "length", "hcol_names", "hlookup"]}
        allowed = {seq.body(F, self.C, "AddColumn").u, seq.body(F, self.C, "HeaderAddColumn").u, seq.body(F, self.C, "AddRow", 0).u}
        helpers = self.only_from(allowed)
        for f in F.fns.values():
            if f.load()["body"] < 0 or f.name == "operator=" and f.cls == self.C["u"] and self.impl(f):
                continue
            for i in f.walk():
                if f.k(i) != "Member" or f.n(i).get("fld") not in shape:
                    continue
                bad = self.changes(f, i)
                R.check(not bad or f.u in allowed or f.u in helpers or f.kind in ("ctor", "dtor"), "confined", "%s %s" % (f.qn, f.n(i)["n"]), f.loc(i),
                        "%s: changes %s outside the operations that keep columns, names and types in step" % (f.qn, f.n(i)["n"]))
                hdr = f.n(i)["n"].startswith("h")
                if f.cls == self.C["u"] and f.kind not in ("ctor", "dtor") and f.name != "OutputAscii" and f.u not in helpers:
                    isH = f.name.startswith("Header") or f.name in ("get_hlocation", "GetHeaderType")
                    R.check(hdr == isH, "confined", "%s uses %s" % (f.qn, f.n(i)["n"]), f.loc(i), "%s: uses %s (%s data)" % (f.qn, f.n(i)["n"], "header" if hdr else "body"))

    def impl(self, f):
        md = self.F.method_decl.get(f.u)
        return md is not None and (md[1].get("impl") or md[1].get("dflt"))

    def only_from(self, allowed):
        """private helpers called by the allowed functions only"""
        out = set()
        callers = {}
        for f in self.F.fns.values():
            if f.load()["body"] < 0:
                continue
            for i in f.walk():
                if f.k(i) == "Call" and f.n(i).get("f") in self.F.fns:
                    callers.setdefault(f.n(i)["f"], set()).add(f.u)
        for m in self.C["methods"]:
            c = callers.get(m["u"], set())
            if c and c <= allowed and m.get("acc") in ("private", "protected", 2, 1):
                out.add(m["u"])
        return out

    def changes(self, f, i):
        """the member's own shape changes here (not the content of a cell)"""
        p = f.parents.get(i, -1)
        ch = i
        while p >= 0 and f.k(p) == "Cast":
            ch, p = p, f.parents.get(p, -1)
        if p < 0:
            return False
        n = f.n(p)
        if n["k"] == "Call" and n.get("obj") and f.c(p)[0] == ch:
            nm = last(n.get("fn"))
            if nm in GROW or n.get("op") == "=":
                return True
            if nm == "operator[]" and f.n(i)["n"] in ("lookup", "hlookup"):
                return True
        if n["k"] == "Unary" and ("++" in n["op"] or "--" in n["op"]):
            return True
        if n["k"] in ("Binary", "CompoundAssign") and f.c(p)[0] == ch and n["op"] in ("=", "+=", "-="):
            return True
        return False

    # ---- row objects forward to the table
    def forwarding(self):
        R, F = self.R, self.F
        for cn in ("DataTableRow", "ConstDataTableRow"):
            C = F.cls(cn)
            fl_dt = next(x["u"] for x in C["fields"] if x["n"] == "dt")
            fl_pos = next(x["u"] for x in C["fields"] if x["n"] == "pos")
            for m in C["methods"]:
                g = F.fns.get(m["u"])
                if g is None or g.load()["body"] < 0 or not (m["n"].startswith("Get") or m["n"].startswith("Set")):
                    continue

                def ev(fl, i):
                    n = fl.fn.n(i)
                    md = F.method_decl.get(n.get("f")) if n["k"] == "Call" else None
                    if md is not None and md[0] == self.C["u"]:
                        c = fl.fn.c(i)
                        return (md[1]["n"], tuple(md[1]["pt"]), tuple(frozenset(self.bare(x) for x in fl.value(y)) for y in c))
                    return None
                ps, fl = seq.paths(F, g, self.V, ev, follow=lambda h: h.cls == C["u"])
                key = "%s::%s(%s)" % (cn, m["n"], ",".join(tkind(t) or "?" for t in m["pt"]))
                for kind, es, _ in ps:
                    if kind != "return":
                        continue
                    ok = len(es) == 1
                    if ok:
                        nm, pt, args = es[0]
                        ok = nm.rstrip("_dis").rstrip("_") == m["n"].rstrip("_dis").rstrip("_") and tkind(pt[-1]) == tkind(m["pt"][-1]) if m["n"].startswith("Set") else nm == m["n"]
                        ok = ok and seq.is_field(args[0], fl_dt) or ok and all(v[0] == "deref" and seq.is_field([v[1]], fl_dt) for v in args[0])
                        ok = ok and seq.is_param(args[1], 0) and seq.is_field(args[2], fl_pos) and (len(args) < 4 or seq.is_param(args[3], 1))
                    R.check(ok, "forward", key, g.loc(), "%s: does not forward to the table's accessor of the same type with its own row" % key)
        # AddRow(values...): instances in tool/instances.cpp
        for f in F.fns_named("^DataTable::AddRowN"):
            if f.load()["body"] < 0 or len(f.params) < 3:
                continue

            def ev(fl, i):
                n = fl.fn.n(i)
                md = last(n.get("fn")) if n["k"] == "Call" else None
                if md in ("Set", "Set_d", "Set_i", "Set_s", "AddRowN"):
                    c = fl.fn.c(i)
                    return (md, n["pt"][-1] if n.get("pt") else "", tuple(canon(fl.fn, y) for y in c[1:3]), tuple(frozenset(self.bare(x) for x in fl.value(y)) for y in c[1:]))
                return None
            ps, fl = seq.paths(F, f, self.V, ev, follow=lambda h: False)
            key = "AddRowN(%s)" % ",".join(tkind(f.vars[p][1]) or "?" for p in f.params[2:])
            P = [("v", p) for p in f.params]
            for kind, es, _ in ps:
                sets = [e for e in es if e[0] != "AddRowN"]
                rec = [e for e in es if e[0] == "AddRowN"]
                ok = len(sets) == 1 and len(rec) == 1
                if ok:
                    s, r = sets[0], rec[0]
                    v = next(iter(s[3][0]))
                    ok = v[0] == "call" and last(v[2]) in ("at", "operator[]") and self.member(v[3][0]) == "col_names" and seq.is_param(v[3][1], 0) \
                        and seq.is_param(s[3][1], 1) and seq.is_param(s[3][2], 2) and tkind(s[1]) == tkind(f.vars[f.params[2]][1])
                    ok = ok and r[2][0] in (("b+", P[0], ("int", 1)), ("b+", ("int", 1), P[0])) and r[2][1] == P[1]
                R.check(ok, "forward", key, f.loc(), "DataTable::AddRow(values...): the values do not go to the columns in order")

    # ---- copying rows by name
    def copies(self):
        R, F = self.R, self.F
        for nm in ("ApertureFromRow", "AddRowFromRow"):
            fs = [f for f in self.fns if f.name == nm]
            for f in fs:
                n = 0
                for i in f.walk():
                    nd = f.n(i)
                    if nd["k"] != "Call" or not last(nd.get("fn")).startswith("Set"):
                        continue
                    c = f.c(i)
                    if len(c) != 4:
                        continue
                    src = self.V.of(f, c[3]) if False else None
                    x = strip(f, c[3])
                    while f.k(x) == "Construct" and f.c(x):
                        x = strip(f, f.c(x)[0])
                    if f.k(x) != "Call" or not last(f.n(x).get("fn")).startswith("Get"):
                        continue
                    a = frozenset(self.bare(v) for v in self.V.of(f, c[1]))
                    b = frozenset(self.bare(v) for v in self.V.of(f, f.c(x)[1]))
                    n += 1
                    R.check(a == b, "names", "%s %s" % (f.qn, f.show(c[1])[:30]), f.loc(i), "%s: a cell is copied from another column" % f.qn)
                    rows = self.V.of(f, c[2])
                    dst = loops.base_var(f, c[2])
                    init = loops.only_init(f, dst) if dst is not None else c[2]
                    j = strip(f, init) if init is not None else None
                    R.check(j is not None and f.k(j) == "Call" and last(f.n(j).get("fn")) == "AddRow", "names", "%s row %s" % (f.qn, f.show(c[1])[:30]), f.loc(i), "%s: the cells of a copied row do not go to the new row" % f.qn)
                if nm == "AddRowFromRow":
                    over = [it for it in loops.iterations(F, f, self.V, {}) if self.member(it.cont) == "col_names"]
                    R.check(len(over) == 1 and not over[0].problems and not over[0].early, "names", f.qn + " all", f.loc(), "%s: not every column is copied" % f.qn)
                R.check(n > 0, "names", f.qn, f.loc(), "%s: copies nothing of the row it is given" % f.qn)

    # ---- one name, one type
    def literals(self):
        R, F = self.R, self.F
        rowc = {F.cls(x)["u"] for x in ("DataTable", "DataTableRow", "ConstDataTableRow")}
        uses = {}
        for f in F.fns.values():
            if f.load()["body"] < 0:
                continue
            for i in f.walk():
                n = f.n(i)
                if n["k"] != "Call":
                    continue
                md = F.method_decl.get(n.get("f"))
                if md is None or md[0] not in rowc or len(f.c(i)) < 2:
                    continue
                nm = md[1]["n"]
                hdr = "Header" in nm
                nm = nm.replace("Header", "")
                lit = {self.bare(v) for v in self.V.of(f, f.c(i)[1])}
                if len(lit) != 1 or next(iter(lit))[0] != "str":
                    continue
                if nm == "AddColumn":
                    tv = canon(f, f.c(i)[2])
                    t = chr(tv[1]) if tv and tv[0] == "int" else None
                elif nm in ("Get_d", "Get_i", "Get_s", "Set_d", "Set_i", "Set_s"):
                    t = nm[-1]
                elif nm == "Set":
                    t = tkind(md[1]["pt"][-1])
                else:
                    t = None
                if t is not None:
                    uses.setdefault((hdr, next(iter(lit))[1]), {}).setdefault(t, []).append((f, i))
        for (hdr, name), ts in uses.items():
            allu = [u for x in ts.values() for u in x]
            if len(ts) == 1:
                R.check(True, "names", name, "", "")
                continue
            few = min(ts.values(), key=len)
            for f, i in few:
                R.bad("names", "%s in %s" % (name, f.qn), f.loc(i), "%s: column %s is used here as another type than elsewhere (%s)" % (f.qn, name, ", ".join(sorted(ts))))

    # ---- TFS files
    def tfs(self):
        R, F = self.R, self.F
        rd = seq.body(F, F.cls("DataTableReaderTFS"), "Read")
        wr = seq.body(F, F.cls("DataTableWriterTFS"), "Write")
        tc = F.fns_named("(^|::)type_conv$")
        conv = self.conversion(tc[0]) if tc else None
        R.check(bool(conv), "tfs", "type_conv", tc[0].loc() if tc else rd.loc(), "the TFS reader no longer maps format names to column types")
        # reader
        nb = loops.node_blocks(rd)
        its = [it for it in loops.iterations(F, rd, self.V, {}) if it.kind == "loop"]
        for i in rd.walk():
            n = rd.n(i)
            if n["k"] != "Call" or last(n.get("fn")) not in ("AddColumn", "SetWithStr", "HeaderAddColumn", "HeaderSetWithStr"):
                continue
            nm = last(n["fn"])
            c = rd.c(i)
            if nm.startswith("Header"):
                a = self.pick(rd, c[1])
                R.check(a is not None and a[1] == ("int", 1), "tfs", nm + " name", rd.loc(i), "%s: the header entry is not named by the second word" % rd.qn)
                if nm == "HeaderAddColumn":
                    t = self.pick(rd, self.unconv(rd, c[2], tc))
                    R.check(t is not None and t[0] == a[0] and t[1] == ("int", 2), "tfs", nm + " type", rd.loc(i), "%s: the header entry's type is not taken from the third word" % rd.qn)
                else:
                    t = self.pick(rd, c[2])
                    R.check(t is not None and t[0] == a[0] and t[1] == ("int", 3), "tfs", nm + " value", rd.loc(i), "%s: the header entry's value is not the fourth word" % rd.qn)
                continue
            it = next((x for x in its if nb.get(i) in x.blocks and not any(y is not x and nb.get(i) in y.blocks and y.blocks < x.blocks for y in its)), None)
            a = self.pick(rd, c[1])
            b = self.pick(rd, c[2] if nm == "AddColumn" else c[3])
            ok = it is not None and not it.problems and not it.early and a is not None and b is not None
            R.check(ok, "tfs", nm + " loop", rd.loc(i), "%s: not every column of the file is taken" % rd.qn)
            if not ok:
                continue
            R.check(self.lockstep(rd, it, nb, a, b), "tfs", nm + " pairs", rd.loc(i), "%s: names and %s are not taken pairwise" % (rd.qn, "types" if nm == "AddColumn" else "values"))
            R.check(self.same_size(rd, a[0], b[0]), "tfs", nm + " sizes", rd.loc(i), "%s: lists of different length are not refused" % rd.qn)
            if nm == "SetWithStr":
                v = loops.base_var(rd, c[2])
                x = loops.only_init(rd, v) if v is not None else None
                R.check(x is not None and last(rd.n(strip(rd, x)).get("fn")) == "AddRow", "tfs", nm + " row", rd.loc(i), "%s: the values of a line do not go to a new row" % rd.qn)
        self.pushes(rd, tc)
        # writer
        wits = [it for it in loops.iterations(F, wr, self.V, {})]
        ncol = {}
        for it in wits:
            if it.kind != "loop":
                continue
            if any(x is not it and x.kind == "loop" and x.blocks < it.blocks for x in wits):
                R.check(not it.problems and not it.early, "tfs", "Write over %s" % wr.show(it.contnode)[:30], it.loc(), "%s: not everything is written (%s)" % (wr.qn, ", ".join(it.problems or ["can stop early"])))
                continue
            R.check(not it.problems and not it.early, "tfs", "Write over %s" % wr.show(it.contnode)[:30], it.loc(), "%s: not everything is written (%s)" % (wr.qn, ", ".join(it.problems or ["can stop early"])))

            def ev(fl, i):
                n = fl.fn.n(i)
                if n["k"] == "Call" and n.get("fn"):
                    nm = last(n["fn"])
                    if nm.replace("Header", "") in ("Get_d", "Get_i", "Get_s", "GetAsStr"):
                        return ("get", nm)
                    if n.get("op") == "<<" and len(fl.fn.c(i)) == 2:
                        v = fl.value(fl.fn.c(i)[1])
                        if len(v) == 1 and next(iter(v))[0] == "str" and "%" in next(iter(v))[1]:
                            return ("fmt", next(iter(v))[1])
                return None

            def edge(fl, cond, pol, env):
                g = fl.fn
                c = strip(g, cond)
                n = g.n(c)
                if n.get("op") in ("==", "!=") and len(g.c(c)) == 2:
                    for a, b in (g.c(c), g.c(c)[::-1]):
                        lit = canon(g, b)
                        if lit and lit[0] == "int" and g.n(strip(g, b))["k"] == "Char":
                            return ("is", chr(lit[1]), pol == (n["op"] == "=="))
                return None

            def case(fl, cond, lab):
                lit = canon(fl.fn, lab)
                return ("is", chr(lit[1]), True) if lit and lit[0] == "int" else None
            sp = seq.Spec(F, ev, 8, lambda g: False, (), edge, True, case)
            from events import EventFlow
            fl = EventFlow(F, wr, sp, self.V, {it.var: frozenset({("iter", it.cont)})} if it.var is not None else {})
            fl.region = (it.header, it.blocks)
            fl.run(())
            for r in fl.rounds:
                isk = {e[1] for e in r if e[0] == "is" and e[2]}
                for e in r:
                    if e[0] == "get" and e[1][-2:] in ("_d", "_i", "_s"):
                        R.check(isk == {e[1][-1]}, "tfs", "Write %s" % e[1], it.loc(), "%s: a column is written with %s under another type" % (wr.qn, e[1]))
                    if e[0] == "fmt" and isk:
                        w = e[1].strip()
                        got = conv.get(w) if conv else None
                        if got is None and w == "%":
                            got = "s"        # %<length>s
                        R.check(isk == {got}, "tfs", "Write format %s" % w, it.loc(), "%s: the format %s written for a column does not read back as its type" % (wr.qn, w))
        R.extra["formats"] = str(conv)

    def conversion(self, f):
        """format name -> type, from the comparisons of the conversion function"""
        def ev(fl, i):
            return None

        def edge(fl, cond, pol, env):
            g = fl.fn
            c = strip(g, cond)
            n = g.n(c)
            if n.get("op") in ("==", "!=") and len(g.c(c)) == 2:
                for a, b in (g.c(c), g.c(c)[::-1]):
                    lit = fl.value(b)
                    if len(lit) == 1 and next(iter(lit))[0] == "str" and seq.is_param(fl.value(a), 0) and pol == (n["op"] == "=="):
                        return ("eq", next(iter(lit))[1])
            return None
        ps, fl = seq.paths(self.F, f, self.V, ev, edge=edge)
        out = {}
        for kind, es, rv in ps:
            if kind == "return" and rv is not None and rv[0] == "int":
                for e in es:
                    out[e[1]] = chr(rv[1])
        return out

    def unconv(self, f, i, tc):
        i = strip(f, i)
        if f.k(i) == "Call" and tc and f.n(i).get("f") == tc[0].u:
            return f.c(i)[0]
        return None

    def pick(self, f, i):
        """(container canon, selector) of one element taken out of a list: *it, v[i], v.at(i)"""
        if i is None:
            return None
        i = loops.strip_copy(f, i)
        for _ in range(3):
            if f.k(i) == "Construct" and len(f.c(i)) == 1:
                i = loops.strip_copy(f, f.c(i)[0])
        n = f.n(i)
        if n.get("op") == "*" and len(f.c(i)) == 1:
            v = loops.base_var(f, f.c(i)[0])
            if v is None:
                return None
            for nd, val in loops.var_defs(f, v):
                e = loops.calls_end(f, val, ("begin", "cbegin")) if val is not None else None
                if e is not None:
                    return canon(f, e), ("it", v)
            return None
        if n["k"] == "Ref" and "v" in n:
            x = loops.only_init(f, n["v"])
            return self.pick(f, x) if x is not None else None
        if (n.get("op") == "[]" or last(n.get("fn")) == "at") and len(f.c(i)) == 2:
            return canon(f, f.c(i)[0]), canon(f, f.c(i)[1])
        return None

    def lockstep(self, f, it, nb, a, b):
        if a[1] == b[1]:
            return True
        if a[1][0] != "it" or b[1][0] != "it":
            return False
        B = f.blocks()
        latches = {x for x in it.blocks if any(str(s) == it.header for s in B[x][3] if s is not None)}
        for v in (a[1][1], b[1][1]):
            steps = [(n, x) for n, x in loops.var_defs(f, v) if nb.get(n) in it.blocks]
            starts = [(n, x) for n, x in loops.var_defs(f, v) if nb.get(n) not in it.blocks]
            if len(starts) != 1 or loops.calls_end(f, starts[0][1], ("begin", "cbegin")) is None or not all(x is None and loops.is_inc(f, n) for n, x in steps):
                return False
            if loops.rounds(f, B, it.header, it.blocks, latches, v, steps) != (1, 1):
                return False
        return True

    def same_size(self, f, a, b, depth=0):
        """a comparison of the two sizes leads to an error when they differ (directly or through a third list)"""
        B = f.blocks()
        pairs = []
        for x in B:
            c = loops.conditions(f, B[x])
            if c is None:
                continue
            n = f.n(strip(f, c))
            if n.get("op") not in ("!=", "==") or len(f.c(strip(f, c))) != 2:
                continue
            es = [loops.calls_end(f, y, ("size",)) for y in f.c(strip(f, c))]
            if None in es:
                continue
            s = B[x][3][0 if n["op"] == "!=" else 1]
            if s is not None and loops.leads_to_throw(B, str(s)):
                pairs.append({canon(f, es[0]), canon(f, es[1])})
        reach, grew = {a}, True
        while grew:
            grew = False
            for p in pairs:
                if p & reach and not p <= reach:
                    reach |= p
                    grew = True
        return b in reach

    def pushes(self, f, tc):
        """names and types are collected from the words of their lines, first to last, the marker left out"""
        R = self.R
        nb = loops.node_blocks(f)
        for h, blocks, latches in loops.natural(f):
            for i in f.walk():
                n = f.n(i)
                if nb.get(i) in blocks and n["k"] == "Call" and last(n.get("fn")) == "push_back" and len(f.c(i)) == 2:
                    inner = [b for hh, b, _ in loops.natural(f) if nb.get(i) in b and b < blocks]
                    if inner:
                        continue
                    x = f.c(i)[1]
                    y = self.unconv(f, x, tc)
                    p = self.pick2(f, y if y is not None else x)
                    if p is None:
                        continue
                    v = p
                    steps = [(nd, val) for nd, val in loops.var_defs(f, v) if nb.get(nd) in blocks]
                    starts = [val for nd, val in loops.var_defs(f, v) if val is not None and nb.get(nd) not in blocks]
                    lo_hi = loops.rounds(f, f.blocks(), h, blocks, latches, v, steps)
                    ok = lo_hi == (1, 1) and len(starts) == 1 and self.second_word(f, starts[0])
                    R.check(ok, "tfs", "words %s" % f.show(f.c(i)[0])[:20], f.loc(i), "%s: the words of a line are not all taken in order after its marker" % f.qn)

    def pick2(self, f, i):
        i = loops.strip_copy(f, i)
        for _ in range(3):
            if f.k(i) == "Construct" and len(f.c(i)) == 1:
                i = loops.strip_copy(f, f.c(i)[0])
        n = f.n(i)
        if n.get("op") == "*" and len(f.c(i)) == 1:
            return loops.base_var(f, f.c(i)[0])
        if (n.get("op") == "[]" or last(n.get("fn")) == "at") and len(f.c(i)) == 2:
            return loops.base_var(f, f.c(i)[1])
        return None

    def second_word(self, f, i):
        i = loops.strip_copy(f, i)
        if canon(f, i) == ("int", 1):
            return True
        n = f.n(i)
        if n.get("op") == "+" and len(f.c(i)) == 2:
            return loops.calls_end(f, f.c(i)[0], ("begin", "cbegin")) is not None and canon(f, f.c(i)[1]) == ("int", 1)
        return n["k"] == "Call" and last(n.get("fn")) == "next" and bool(f.c(i)) and loops.calls_end(f, f.c(i)[0], ("begin", "cbegin")) is not None
