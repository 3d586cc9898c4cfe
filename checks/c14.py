"""C14: files are checked to be open, and values read from text are used only after the read was seen to succeed."""
import facts
from flow import Flow, strip, canon
from report import Report

IN = ("basic_istream<", "basic_ifstream<", "basic_istringstream<", "basic_stringstream<", "basic_fstream<", "basic_iostream<")
FILES = ("basic_ifstream<", "basic_ofstream<", "basic_fstream<")
PASS = {}       # functions that read for their caller
OPENERS = set() # those of them that opened it
REPORTS = {}    # functions whose bool says whether the stream they were handed is in good order: usr -> (parameter, also about opening)
TESTS = {"operator bool": True, "operator!": False, "good": True, "fail": False, "is_open": True}


def base(t):
    return (t or "").replace("const ", "").rstrip("&* ").strip()


def is_stream(t, kinds=IN):
    t = base(t)
    return t.startswith("std::") and any(t[5:].startswith(k) for k in kinds)


def root(f, i):
    """what an expression denotes: ('v', variable), ('f', field) or ('e', node)"""
    while i is not None and i >= 0:
        i = strip(f, i)
        n = f.n(i)
        k = n["k"]
        c = f.c(i)
        if k == "Ref":
            return ("v", n["v"]) if "v" in n else ("g", n.get("g") or n.get("n"))
        if k == "Member":
            return ("f", n.get("m") or n.get("fl") or n.get("n"))
        if k == "Call" and n.get("f") in PASS and PASS[n["f"]] < len(c) - (1 if n.get("obj") else 0) and is_stream(n.get("t")):
            i = c[PASS[n["f"]] + (1 if n.get("obj") else 0)]
        elif k == "Call" and (n.get("obj") or n.get("op") or "getline" in (n.get("fn") or "") or "operator>>" in (n.get("fn") or "")) and c:
            i = c[0]
        elif k in ("Unary", "Index", "Cast", "Paren", "Binary") and c:
            i = c[0]
        else:
            return ("e", i)
    return ("e", -1)


def target(f, i):
    """the place an extracted value goes to: a local variable, or somewhere that outlives the function"""
    j, through = i, False
    while True:
        j = strip(f, j)
        n = f.n(j)
        k = n["k"]
        if k == "Ref" and "v" in n:
            nm, t, kind = f.vars[n["v"]][:3]
            t = t.rstrip()
            if kind == "local" and not t.endswith("&") and not (through and t.endswith("*")):
                return ("v", n["v"]), j
            return ("x", nm), j
        if k == "Unary" and n.get("op") == "*" or n.get("arrow"):
            through = True
        c = f.c(j)
        if k == "This" or not c:
            return ("x", "a member"), j
        if k == "Member" and f.k(strip(f, c[0])) == "This":
            return ("x", n.get("n") or "a member"), j
        j = c[0]


def extraction(f, i):
    """(stream expression, target expressions) when node i takes values from a stream with >>"""
    n = f.n(i)
    if n["k"] != "Call" or not (n.get("op") == ">>" or (n.get("fn") or "").endswith("operator>>") or "::operator>><" in (n.get("fn") or "")):
        return None
    c = f.c(i)
    if len(c) < 2 or not (is_stream(f.n(c[0]).get("t")) or is_stream(f.n(strip(f, c[0])).get("t"))):
        return None
    return c[0], [c[1]]


class Reads(Flow):
    def __init__(self, F, fn, D, opened=None):
        Flow.__init__(self, F, fn)
        self.D, self.bad, self.n_open, self.n_read = D, {}, set(), set()
        self.opened, self._given = opened, None
        self.ntest = set()

    # ---- events
    def open(self, i):
        """node i opens a file whose name is not fixed in the code"""
        f = self.fn
        n = f.n(i)
        c = f.c(i)
        fn = n.get("fn") or ""
        if n["k"] == "Construct" and is_stream(n.get("t"), FILES) and n.get("pt") and ("string" in n["pt"][0] or "char" in n["pt"][0]):
            name = c[0] if c else -1
        elif n["k"] == "Call" and fn.split("<")[0].split("::")[-1] in ("make_unique", "make_shared") and any(k in (n.get("t") or "") for k in FILES) and c:
            name = c[0]
        elif n["k"] == "Call" and n.get("obj") and fn.endswith("::open") and is_stream(f.n(strip(f, c[0])).get("t"), FILES):
            name = c[1] if len(c) > 1 else -1
        elif n["k"] == "Call" and n.get("f") in REPORTS and n["f"] in OPENERS:
            return True
        else:
            return False
        return not self.literal(name)

    def literal(self, i):
        f = self.fn
        kinds = [f.k(j) for j in f.walk(i)] if i >= 0 else []
        return "Str" in kinds and not any(k in ("Ref", "Member", "Call") for k in kinds)

    def delegates(self, i):
        f = self.fn
        n = f.n(i)
        g = n.get("f")
        if n["k"] != "Call" or g not in self.D or extraction(f, i) is not None:
            return None
        c = f.c(i)
        off = 1 if n.get("obj") else 0
        args = c[off:]
        k = self.D[g]
        if k >= len(args):
            return None
        out = [a for j, a in enumerate(args) if j != k and j < len(n.get("pt", [])) and n["pt"][j].rstrip().endswith(("&", "*")) and not n["pt"][j].startswith("const")]
        if off:
            out.append(c[0])
        return args[k], out

    def test(self, i, d=0):
        """(stream expression, truth that means it is in good order) of a condition"""
        f = self.fn
        i = strip(f, i)
        n = f.n(i)
        if n["k"] == "Unary" and n.get("op") == "!":
            r = self.test(f.c(i)[0], d)
            return r and (r[0], not r[1], r[2])
        if n["k"] == "Call" and f.c(i):
            nm = (n.get("fn") or "").split("::")[-1]
            if nm in TESTS and ("basic_ios<" in n["fn"] or "stream<" in n["fn"]):
                return f.c(i)[0], TESTS[nm], nm != "is_open"
        if n["k"] == "Call" and n.get("f") in REPORTS:
            k = REPORTS[n["f"]] + (1 if n.get("obj") else 0)
            if k < len(f.c(i)):
                return f.c(i)[k], True, True
        if n["k"] == "Construct" and len(f.c(i)) == 1:
            return self.test(f.c(i)[0], d)
        if n["k"] == "Binary" and n.get("op") == ",":
            return self.test(f.c(i)[1], d)
        if n["k"] == "Binary" and n.get("op") in ("==", "!="):
            for a, b in (f.c(i), f.c(i)[::-1]):
                if f.k(strip(f, b)) == "Bool":
                    r = self.test(a, d)
                    same = (str(f.n(strip(f, b))["v"]).lower() in ("true", "1")) == (n["op"] == "==")
                    return r and (r[0], r[1] == same, r[2])
        if n["k"] == "Ref" and "v" in n and d < 4 and f.vars[n["v"]][2] == "local" and "bool" in f.vars[n["v"]][1]:
            g = self.given().get(n["v"])
            return self.test(g, d + 1) if g is not None else None
        return None

    def given(self):
        """local -> its only value"""
        f = self.fn
        if self._given is None:
            m = {}
            for i in f.walk():
                n = f.n(i)
                if n["k"] == "Decl":
                    for v, x, _ in n["d"]:
                        if v >= 0 and x is not None and x >= 0:
                            m[v] = x
            for i in f.walk():
                n = f.n(i)
                if n["k"] in ("Binary", "CompoundAssign") and n.get("op", "").endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                    l = strip(f, f.c(i)[0])
                    if f.k(l) == "Ref" and "v" in f.n(l):
                        m.pop(f.n(l)["v"], None)
            self._given = m
        return self._given

    def own(self, s):
        """the stream is one this function only passes on for its caller"""
        f = self.fn
        return f.u in self.D and s[0] == "v" and s[1] in f.params and f.params.index(s[1]) == self.D[f.u]

    def node(self, i, u, e):
        f = self.fn
        n = f.n(i)
        k = n["k"]
        if k in ("Construct", "Call") and self.open(i):
            self.n_open.add(i)
            return [(u | {("open", i)}, self.effect(i, e))]
        x = extraction(f, i) or self.delegates(i)
        if x is not None:
            s = root(f, x[0])
            st = f.n(strip(f, x[0])).get("t")
            o = [a for a in u if a[0] == "open"]
            if o and is_stream(st, FILES):
                self.bad.setdefault(("open", o[0][1]), ("reads from the file before looking whether it could be opened", i))
            if self.own(s) or ("armed", s) in u:
                return [(u, self.effect(i, e))]
            self.n_read.add(i)
            add = set()
            for t in x[1]:
                p, _ = target(f, t)
                add.add(("val", p if p[0] == "v" else p + (i,), s, i))
            u = frozenset(a for a in u if not (a[0] == "val" and a[1] in {b[1] for b in add})) | add
            return [(u, self.effect(i, e))]
        if k == "Call" and n.get("obj") and (n.get("fn") or "").endswith("::exceptions") and len(f.c(i)) == 2:
            if any("failbit" in (f.n(j).get("n") or "") + str(f.n(j).get("g") or "") for j in f.walk(f.c(i)[1])):
                s = root(f, f.c(i)[0])
                self.ntest.add(i)
                return [(frozenset(a for a in u if not (a[0] == "open" or a[0] == "val" and a[2] == s)) | {("armed", s)}, self.effect(i, e))]
        if k == "Call" and any(a[0] == "open" for a in u) and self.clears(n):
            return [(frozenset(a for a in u if a[0] != "open"), self.effect(i, e))]
        if k == "Decl":
            vs = {("v", v) for v, _, _ in n["d"] if v >= 0}
            if any(a[0] == "val" and a[1] in vs for a in u):
                return [(frozenset(a for a in u if not (a[0] == "val" and a[1] in vs)), self.effect(i, e))]
            return None
        if k == "Binary" and n.get("op") == "=":
            l = strip(f, f.c(i)[0])
            if f.k(l) == "Ref" and "v" in f.n(l):
                p = ("v", f.n(l)["v"])
                if any(a[0] == "val" and a[1] == p for a in u):
                    return [(frozenset(a for a in u if not (a[0] == "val" and a[1] == p)), self.effect(i, e))]
            return None
        if k == "Ref" and "v" in n:
            for a in u:
                if a[0] == "val" and a[1] == ("v", n["v"]) and not self.harmless(i):
                    self.bad.setdefault(("val", f.vars[n["v"]][0]), ("uses %s, read at %s, without having seen whether that succeeded" % (f.vars[n["v"]][0], f.loc(a[3])), i))
        return None

    def harmless(self, i):
        """the variable is only named to be read into, assigned to, or to say what failed"""
        f = self.fn
        j = i
        while j in f.parents:
            q = f.parents[j]
            n = f.n(q)
            x = extraction(f, q) or self.delegates(q)
            if x is not None and any(j == t or strip(f, t) == j for t in x[1]):
                return target(f, j)[1] == i
            if n["k"] == "Throw":
                return True
            if n["k"] == "Binary" and n.get("op") == "=" and f.c(q)[0] == j:
                return strip(f, j) == i
            if n["k"] == "Call" and (n.get("fn") or "").split("::")[-1] in ("clear", "str") and f.c(q) and strip(f, f.c(q)[0]) == i:
                return True
            if n["k"] in ("Decl", "If", "While", "For", "Do", "Compound", "Return"):
                return False
            j = q
        return False

    def on_edge(self, cond, pol, u, e):
        r = self.test(cond) if cond is not None and cond >= 0 else None
        if r is None:
            return u
        s = root(self.fn, r[0])
        self.ntest.add(cond)
        if pol == r[1]:
            return frozenset(a for a in u if not (a[0] == "open" or a[0] == "val" and a[2] == s and r[2]))
        return u

    def on_return(self, i, u, e):
        if self.fn.u in REPORTS:
            return u            # the caller is told
        for a in u:
            if a[0] == "open" and a[1] >= 0:
                self.bad.setdefault(("open", a[1]), ("opens a file and can go on without an error although it could not be opened", a[1]))
            if a[0] == "val" and a[1][0] == "x":
                self.bad.setdefault(("val", a[1][1]), ("leaves %s behind without having seen whether reading it succeeded" % a[1][1], a[3]))
        return u

    CLEARS = {}

    def clears(self, n):
        """the called function looks whether the file is open on every way back"""
        u = n.get("f")
        if u not in self.CLEARS:
            self.CLEARS[u] = False
            g = self.F.fns.get(u)
            if g is not None and g.body >= 0 and g.load() is not None and g.cfg is not None or g is not None and g.body >= 0 and g.cfg is not None:
                x = Reads(self.F, g, self.D)
                x.run(frozenset({("open", -1)}))
                self.CLEARS[u] = bool(x.ntest) and not any(("open", -1) in s for s, rv in x.returns)
        return self.CLEARS[u]


def delegates(F, fns):
    """functions that read with >> from a stream they are handed: usr -> which parameter; whoever calls them has to look"""
    D = {}
    again = True
    while again:
        again = False
        for f in fns:
            if f.u in D or f.kind in ("ctor", "dtor"):
                continue
            ps = [k for k, v in enumerate(f.params) if f.vars[v][1].rstrip().endswith("&") and is_stream(f.vars[v][1])]
            if not ps:
                continue
            X = Reads(F, f, D)
            for i in f.walk():
                x = extraction(f, i) or X.delegates(i)
                s = root(f, x[0]) if x else None
                if s and s[0] == "v" and s[1] in f.params and f.params.index(s[1]) in ps:
                    D[f.u] = f.params.index(s[1])
                    again = True
                    break
    return D


def reporters(F, fns, D):
    """functions returning bool: true only when the stream they were handed is in good order after they read from it or opened it"""
    for f in fns:
        if f.ret.replace("const ", "").strip() != "bool":
            continue
        ps = [k for k, v in enumerate(f.params) if f.vars[v][1].rstrip().endswith("&") and (is_stream(f.vars[v][1]) or is_stream(f.vars[v][1], FILES))]
        if len(ps) != 1:
            continue
        s = ("v", f.params[ps[0]])
        X = Reads(F, f, {})
        reads = [i for i in f.walk() if (extraction(f, i) is not None or X.delegates(i) is not None) and root(f, (extraction(f, i) or X.delegates(i))[0]) == s]
        opens = [i for i in f.walk() if f.k(i) == "Call" and X.open(i) and root(f, f.c(i)[0]) == s]
        rets = [i for i in f.walk() if f.k(i) == "Return" and f.c(i)]
        if not (reads or opens) or not rets:
            continue
        good = True
        for i in rets:
            r = strip(f, f.c(i)[0])
            t = X.test(r)
            if f.k(r) == "Bool" and f.n(r)["v"] in (False, 0, "false"):
                continue
            if t is not None and t[1] and root(f, t[0]) == s:
                continue
            if f.k(r) == "Bool":
                y = Told(F, f, {})
                y.at = i
                y.run(frozenset())
                if not y.doubt:
                    continue
            good = False
        if good:
            REPORTS[f.u] = ps[0]
            if opens:
                OPENERS.add(f.u)


class Told(Reads):
    """whether `return true` can be reached with an untested read or opening"""
    doubt = False

    def on_return(self, i, u, e):
        if i == self.at and any(a[0] in ("open", "val") for a in u):
            self.doubt = True
        return u


def run():
    F = facts.load()
    R = Report("C14", "Forward dataflow over the control-flow graph of every function that opens a file by a name not fixed in the code, or takes values from a text stream with >>: an opened file must pass a test of the stream, whose "
               "failing side never returns normally, before the function returns or reads from it (a test in a called function counts); a value taken from a stream must not be used, nor left behind in an object, before a test of that "
               "stream came out well or exceptions were switched on for it. Functions that read for their caller pass the duty on to every call of theirs.")
    fns = [f for f in sorted(F.all(), key=lambda f: (f.file, f.line)) if f.body >= 0 and f.cfg is not None]
    D = delegates(F, fns)
    PASS.update(D)
    reporters(F, fns, D)
    for f in fns:
        x = Reads(F, f, D)
        if not any(f.k(i) in ("Construct", "Call") and (x.open(i) or extraction(f, i) is not None or x.delegates(i) is not None) for i in f.walk()):
            continue
        x.run(frozenset())
        for i in sorted(x.n_open):
            b = x.bad.get(("open", i))
            R.check(b is None, "open", "%s opens" % f.qn, f.loc(i), "%s %s" % (f.qn, b and b[0]))
        bad = {k: v for k, v in x.bad.items() if k[0] == "val"}
        for k, (why, i) in sorted(bad.items()):
            R.bad("read", "%s %s" % (f.qn, k[1]), f.loc(i), "%s %s" % (f.qn, why))
        for i in x.n_read:
            R.ok("read", f.loc(i) + " " + f.qn)
    R.extra["reads_for_their_caller"] = sorted(F.fns[u].qn for u in D)
    R.floor("open", 10)
    R.floor("read", 15)
    return R.finish(F)
