"""Follows one arbitrary element of a container through code that sorts, moves, removes and records elements.

An abstract interpreter.  Containers are known by whether (and how often) they hold the element that is followed; every other element
is one anonymous "other".  A walk over a container is taken apart into rounds for others, the round(s) for the followed element, and again
others: nothing is assumed about their numbers.  Decisions that depend on coordinates go both ways; decisions on options and on the absence
of an object are remembered along a path.  Values: ("c", n) constant; ("null",); ("obj", id); ("el", tok) an element (tok "O": any other);
("it", cid, tok, moved); ("end", cid); ("begin", cid); ("idx", tok, moved) position of an element; ("size", cid); ("cnt", k) a count, by how
often the followed element is in it; ("sym", key); None: anything."""
import re
from facts import Broken

CONT = re.compile(r"^(const )?std::(__cxx11::)?(vector|list|deque)<")
LIM = 4000


def lastname(fn):
    """the name of a function without scopes and template arguments"""
    out, d = [], 0
    for ch in fn:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    return "".join(out).split("::")[-1]


class S(object):
    __slots__ = ("v", "c", "k", "e")

    def __init__(self):
        self.v, self.c, self.k, self.e = {}, {}, {}, {}

    def copy(self):
        s = S()
        s.v, s.c, s.k, s.e = dict(self.v), dict(self.c), dict(self.k), dict(self.e)
        return s

    def key(self):
        return (frozenset(self.v.items()), frozenset(self.c.items()), frozenset(self.k.items()), frozenset(self.e.items()))


def uniq(l):
    seen, out = set(), []
    for s, x in l:
        k = (s.key(), x)
        if k not in seen:
            seen.add(k)
            out.append((s, x))
    if len(out) > LIM:
        raise Broken("too many cases")
    return out


INT = re.compile(r"^(const )?(unsigned|int|long|short|size_t|std::size_t|unsigned (long|int|char)|long long)\b[^*&]*$")


class Interp(object):
    def __init__(self, F, cls, follow, special=None):
        self.F, self.cls, self.follow, self.special = F, cls, follow, special
        self.err = []              # (key, loc, message)
        self.frames = 0
        self.focus = [None]
        self.rounds = 0

    # ---- storage
    def container(self, t):
        t = (t or "").replace("const ", "").rstrip("&* ").strip()
        if CONT.match(t):
            return True
        r = self.F.by_ty.get(t)
        r = self.F.classes.get(r) if isinstance(r, str) else r
        return r is not None and r["u"] in self.bunches()

    def bunches(self):
        if not hasattr(self, "_b"):
            b = self.F.cls("ParticleTracking::ParticleBunch")
            self._b = {b["u"]} | set(self.F.all_subs(b["u"], True)) | {x for x in self.F.all_bases(b["u"], True)}
        return self._b

    def toks(self, s, cid):
        return s.c.get(cid, ())

    def put(self, s, cid, tok, by=1):
        l = list(self.toks(s, cid))
        if by > 0:
            l.append(tok)
        elif tok in l:
            l.remove(tok)
        s.c[cid] = tuple(sorted(l))

    def note(self, key, loc, msg):
        if not any(k == key for k, _, _ in self.err):
            self.err.append((key, loc, msg))

    # ---- functions
    def run(self, f, args, this, s, d=0):
        """[(state, value or ("throw", type))]"""
        f.load()
        if f.body is None or f.body < 0:
            return [(s, None)]
        self.frames += 1
        fr = "%s#%d" % (f.qn, d)
        s = s.copy()
        for v, a in zip(f.params, args):
            s.v[(fr, v)] = a
        s.v[(fr, "this")] = this
        out = []
        for t, fl in self.st(f, fr, f.body, s, d):
            for k in [k for k in t.v if k[0] == fr]:
                del t.v[k]
            if fl and fl[0] == "throw":
                out.append((t, fl))
            else:
                out.append((t, fl[1] if fl and fl[0] == "return" else None))
        return uniq(out)

    # ---- statements -> [(state, flow)]
    def seq(self, f, fr, xs, s, d):
        cur, done = [(s, None)], []
        for x in xs:
            nxt = []
            for t, _ in cur:
                for u, fl in self.st(f, fr, x, t, d):
                    (nxt if fl is None else done).append((u, fl))
            cur = uniq(nxt)
        return uniq(done + cur)

    def st(self, f, fr, i, s, d):
        if i is None or i < 0:
            return [(s, None)]
        n, c = f.n(i), f.c(i)
        k = n["k"]
        if k == "Block":
            return self.seq(f, fr, c, s, d)
        if k == "Decl":
            cur = [(s, None)]
            for v, x, style in n["d"]:
                nxt = []
                for t, _ in cur:
                    nxt += [(u, None) for u in self.decl(f, fr, v, x, t, d)] if not (isinstance(v, int) and v < 0) else [(t, None)]
                cur = [(u, fl) for u, fl in nxt]
            return [(u, u.e.pop("thrown", None) and ("throw", "?")) for u, _ in cur]
        if k == "Return":
            if not c:
                return [(s, ("return", None))]
            if f.ret == "bool":
                return [(t, fl or ("return", ("c", int(b)))) for t, b, fl in self.tru(f, fr, c[0], s, d)]
            return [(t, fl or ("return", v)) for t, v, fl in self.ex(f, fr, c[0], s, d)]
        if k == "Throw":
            return [(s, ("throw", n.get("tt", "?")))]
        if k == "BreakStmt":
            return [(s, ("break",))]
        if k == "ContinueStmt":
            return [(s, ("continue",))]
        if k == "If":
            init, var, cond, then, els = (list(c) + [-1] * 5)[:5]
            out = []
            pre = self.seq(f, fr, [x for x in (init, var) if x >= 0], s, d)
            for s0, fl0 in pre:
                if fl0 is not None:
                    out.append((s0, fl0))
                    continue
                for t, b, fl in self.tru(f, fr, cond, s0, d):
                    if fl:
                        out.append((t, fl))
                    else:
                        out += self.st(f, fr, then if b else els, t, d)
            return uniq(out)
        if k == "Switch":
            return self.switch(f, fr, n, c, s, d)
        if k in ("For", "While", "Do", "RangeFor"):
            return self.loop(f, fr, i, n, c, s, d)
        if k == "CXXTryStmt":
            out = []
            for t, fl in self.st(f, fr, c[0], s, d):
                out.append((t, fl))
            return out
        if k in ("Case", "Default", "CaseStmt", "DefaultStmt", "Label"):
            return self.st(f, fr, c[-1], s, d)
        if k == "NullStmt":
            return [(s, None)]
        return [(t, fl) for t, v, fl in self.ex(f, fr, i, s, d)]

    def switch(self, f, fr, n, c, s, d):
        out = []
        body = c[-1]
        ks = f.c(body) if f.k(body) == "Block" else [body]
        flat = []
        for x in ks:
            labs = []
            while f.k(x) in ("Case", "Default", "CaseStmt", "DefaultStmt"):
                labs.append(x)
                x = f.c(x)[-1]
            flat.append((labs, x))
        hasdef = any(f.k(l).startswith("Default") for labs, x in flat for l in labs)
        for t, v, fl in self.ex(f, fr, c[-2], s, d):
            if fl:
                out.append((t, fl))
                continue
            starts = [j for j, (labs, x) in enumerate(flat) if labs]
            for j in starts:
                for u, fl2 in self.seq(f, fr, [x for _, x in flat[j:]], t.copy(), d):
                    out.append((u, None if fl2 == ("break",) else fl2))
            if not hasdef:
                out.append((t, None))
        return uniq(out)

    def decl(self, f, fr, v, x, s, d):
        name, t = f.vars[v][0], f.vars[v][1]
        if x is None or x < 0:
            s = s.copy()
            if self.container(t) and not t.rstrip().endswith("*"):
                cid = "%s %s" % (fr, name)
                s.c[cid] = ()
                s.v[(fr, v)] = ("obj", cid)
            else:
                s.v[(fr, v)] = None
            return [s]
        ref = t.rstrip().endswith(("&", "*"))
        if t == "bool" or t == "const bool":
            out = []
            for u, b, fl in self.tru(f, fr, x, s, d):
                u = u.copy()
                u.v[(fr, v)] = ("c", int(b))
                if fl:
                    u.e["thrown"] = True
                out.append(u)
            return out
        out = []
        for u, val, fl in self.ex(f, fr, x, s, d):
            u = u.copy()
            if fl:
                u.e["thrown"] = True
            if self.container(t) and not ref:
                cid = "%s %s" % (fr, name)
                u.c[cid] = self.toks(u, val[1]) if val and val[0] == "obj" and val[1] in u.c else ()
                val = ("obj", cid)
            u.v[(fr, v)] = val
            out.append(u)
        return out

    # ---- conditions -> [(state, bool, flow)]
    def tru(self, f, fr, i, s, d):
        n, c = f.n(i), f.c(i)
        k = n["k"]
        if k == "Cast" and c or k == "Paren":
            return self.tru(f, fr, c[0], s, d)
        if k == "Unary" and n["op"] == "!":
            return [(t, not b, fl) for t, b, fl in self.tru(f, fr, c[0], s, d)]
        if k == "Binary" and n["op"] in ("&&", "||"):
            stop = n["op"] == "||"
            out = []
            for t, b, fl in self.tru(f, fr, c[0], s, d):
                if fl or b == stop:
                    out.append((t, b, fl))
                else:
                    out += self.tru(f, fr, c[1], t, d)
            return out
        op = n.get("op")
        if k in ("Binary", "Call") and op in ("==", "!=", "<", ">", "<=", ">=") and len(c) == 2:
            out = []
            for t, a, fl in self.ex(f, fr, c[0], s, d):
                if fl:
                    out.append((t, False, fl))
                    continue
                for u, b, fl2 in self.ex(f, fr, c[1], t, d):
                    if fl2:
                        out.append((u, False, fl2))
                        continue
                    out += self.compare(u, a, b, op, self.text(f, i))
            return out
        out = []
        for t, v, fl in self.ex(f, fr, i, s, d):
            if fl:
                out.append((t, False, fl))
            elif v and v[0] == "c":
                out.append((t, bool(v[1]), None))
            elif v and v[0] == "null":
                out.append((t, False, None))
            elif v and v[0] in ("obj", "el"):
                out.append((t, True, None))
            elif v and v[0] == "bool":
                out += self.decide(t, v[1])
            elif v and v[0] == "sym":
                out += self.decide(t, ("T", v[1]))
            else:
                out += [(t.copy(), True, None), (t.copy(), False, None)]
        return out

    def text(self, f, i):
        return f.show(i) if hasattr(f, "show") else str(i)

    def decide(self, s, key):
        if key in s.k:
            return [(s, s.k[key], None)]
        out = []
        for b in (True, False):
            t = s.copy()
            t.k[key] = b
            out.append((t, b, None))
        return out

    def compare(self, s, a, b, op, txt):
        def res(x):
            return [(s, x, None)]
        neg = op == "!="
        if a and b:
            if a[0] == "c" and b[0] == "c":
                x, y = a[1], b[1]
                return res({"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op])
            if op in ("==", "!="):
                nul = lambda v: v == ("null",) or v == ("c", 0)
                for x, y in ((a, b), (b, a)):
                    if nul(y) and x[0] in ("obj", "el"):
                        return res(neg)
                    if nul(y) and x == ("null",):
                        return res(not neg)
                    if nul(y) and x[0] == "sym":
                        return [(t, (not v) != neg, fl) for t, v, fl in self.decide(s, ("T", x[1]))]
                    if x[0] == "it" and y[0] == "end" and x[1] == y[1] and x[3] == 0:
                        return res(neg)
                    if x[0] == "begin" and y[0] == "end" and self.toks(s, x[1]):
                        return res(neg)
                if a == b and a[0] in ("end", "begin", "obj"):
                    return res(not neg)
            for x, y, o in ((a, b, op), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op))):
                if x[0] == "size" and y == ("c", 0) and self.toks(s, x[1]):
                    return res({"==": False, "!=": True, "<": False, ">": True, "<=": False, ">=": True}[o])
                if x[0] == "idx" and y[0] == "size" and x[2] == 0:
                    return res({"==": False, "!=": True, "<": True, ">": False, "<=": True, ">=": False}[o])
                if x[0] == "idx" and y[0] == "idx" and x[1] == y[1] == "P" and x[2] == y[2] and o == op:
                    return res({"==": True, "!=": False, "<": False, ">": False, "<=": True, ">=": True}[o])
            st = [v for v in (a, b) if v[0] == "sym"]
            if st and all(v[0] in ("sym", "c") for v in (a, b)):
                return self.decide(s, ("R", a, op if op not in ("!=",) else "==", b)) if op != "!=" else [(t, not v, fl) for t, v, fl in self.decide(s, ("R", a, "==", b))]
        return [(s.copy(), True, None), (s.copy(), False, None)]

    # ---- expressions -> [(state, value, flow)]
    def ex(self, f, fr, i, s, d):
        if i is None or i < 0:
            return [(s, None, None)]
        n, c = f.n(i), f.c(i)
        k = n["k"]
        if k in ("Int", "Bool"):
            v = n.get("v")
            v = {"true": 1, "false": 0, True: 1, False: 0}.get(v, v)
            try:
                return [(s, ("c", int(v)), None)]
            except (ValueError, TypeError):
                return [(s, None, None)]
        if k == "Float":
            try:
                return [(s, ("c", float(n["v"])), None)]
            except (ValueError, TypeError):
                return [(s, None, None)]
        if k == "Null":
            return [(s, ("null",), None)]
        if k == "This":
            return [(s, s.v.get((fr, "this")), None)]
        if k == "Ref":
            if n.get("ev") is not None:
                return [(s, ("c", int(n["ev"])), None)]
            v = n.get("v", -1)
            if v is not None and v >= 0 and "g" not in n:
                if (fr, v) in s.v:
                    return [(s, s.v[(fr, v)], None)]
                return [(s, None, None)]
            return [(s, ("sym", str(n.get("n") or n.get("g"))), None)]
        if k == "Member":
            out = []
            for t, b, fl in (self.ex(f, fr, c[0], s, d) if c else [(s, s.v.get((fr, "this")), None)]):
                if fl:
                    out.append((t, None, fl))
                    continue
                out.append((t, self.field(t, b, n), None))
            return out
        if k == "Unary":
            return self.unary(f, fr, i, n, c, s, d)
        if k == "Cast":
            return self.ex(f, fr, c[0], s, d) if c else [(s, None, None)]
        if k in ("Binary", "CompoundAssign"):
            return self.binary(f, fr, i, n, c, s, d)
        if k == "Cond":
            out = []
            for t, b, fl in self.tru(f, fr, c[0], s, d):
                if fl:
                    out.append((t, None, fl))
                else:
                    out += self.ex(f, fr, c[1] if b else c[2], t, d)
            return out
        if k == "Index":
            out = []
            for t, b, fl in self.ex(f, fr, c[0], s, d):
                for u, x, fl2 in self.ex(f, fr, c[1], t, d):
                    out.append((u, self.at(u, b, x), fl or fl2))
            return out
        if k == "New":
            t0 = n.get("nt", n.get("t", ""))
            out = []
            for t, vs, fl in self.args(f, fr, c, s, d):
                t = t.copy()
                oid = "new %s" % f.loc(i)
                if self.container(t0):
                    src = [v for v in vs if v and v[0] == "obj" and v[1] in t.c]
                    t.c[oid] = self.toks(t, src[0][1]) if len(vs) == 1 and src else ()
                t.e["new " + oid] = True
                out.append((t, ("obj", oid), fl))
            return out
        if k == "Delete":
            return [(t, None, fl) for t, v, fl in self.ex(f, fr, c[0], s, d)]
        if k in ("Construct", "InitList"):
            return self.construct(f, fr, i, n, c, s, d)
        if k == "Call":
            return self.call(f, fr, i, n, c, s, d)
        if k == "Lambda":
            return [(s, ("lambda", f.qn, i, fr), None)]
        out = []
        for t, vs, fl in self.args(f, fr, c, s, d):
            out.append((t, vs[0] if len(vs) == 1 else None, fl))
        return out

    def args(self, f, fr, xs, s, d):
        cur = [(s, (), None)]
        for x in xs:
            nxt = []
            for t, vs, fl in cur:
                if fl or x is None or x < 0:
                    nxt.append((t, vs, fl))
                    continue
                for u, v, fl2 in self.ex(f, fr, x, t, d):
                    nxt.append((u, vs + (v,), fl2))
            cur = nxt
        return cur

    def field(self, s, b, n):
        if b is None:
            return None
        lab = n.get("fld") or n.get("n")
        if b[0] == "el":
            return ("attr", b[1], n.get("n", "").split("::")[-1])
        if b[0] in ("obj",):
            key = (b[1], lab)
            if key in s.v:
                return s.v[key]
            if self.container(n.get("t")):
                return ("obj", "%s.%s" % (b[1], n.get("n", "").split("::")[-1]))
            return ("sym", "%s.%s" % (b[1], n.get("n", "").split("::")[-1]))
        return None

    def place(self, f, fr, i, s, d):
        """("v", key) of a variable or field, ("cont", cid, idx)…"""
        while f.k(i) in ("Cast", "Paren") and f.c(i):
            i = f.c(i)[0]
        n, c = f.n(i), f.c(i)
        if n["k"] == "Ref" and n.get("v", -1) is not None and n.get("v", -1) >= 0 and "g" not in n:
            return (fr, n["v"])
        if n["k"] == "Member":
            for t, b, fl in (self.ex(f, fr, c[0], s, d) if c else [(s, s.v.get((fr, "this")), None)]):
                if b and b[0] == "obj":
                    return (b[1], n.get("fld") or n.get("n"))
        return None

    def step(self, s, v, by, txt, loc):
        if v is None:
            return None
        if v[0] == "it":
            return ("it", v[1], v[2], v[3] + by)
        if v[0] == "idx":
            return ("idx", v[1], v[2] + by)
        if v[0] == "c":
            return ("c", v[1] + by)
        if v[0] == "cnt":
            return ("cnt", v[1] + (by if self.counts() else 0))
        if v[0] == "begin":
            return None
        return None

    def counts(self):
        """does the round being looked at concern the followed element"""
        return self.focus[-1] in (None, "P")

    def unary(self, f, fr, i, n, c, s, d):
        op = n["op"]
        out = []
        for t, v, fl in self.ex(f, fr, c[0], s, d):
            if fl:
                out.append((t, None, fl))
            elif "++" in op or "--" in op:
                p = self.place(f, fr, c[0], t, d)
                t = t.copy()
                w = self.step(t, v, 1 if "++" in op else -1, op, f.loc(i))
                if p is not None:
                    t.v[p] = w
                out.append((t, v if "post" in op else w, None))
            elif op == "*":
                out.append((t, self.deref(t, v, f.loc(i)), None))
            elif op == "&":
                out.append((t, v, None))
            elif op == "-" and v and v[0] == "c":
                out.append((t, ("c", -v[1]), None))
            elif op == "!":
                for u, b, fl2 in self.tru(f, fr, i, s, d):
                    out.append((u, ("c", int(b)), fl2))
                break
            else:
                out.append((t, None, None))
        return out

    def deref(self, s, v, loc):
        if v is None:
            return None
        if v[0] == "it":
            tok = v[2] if v[3] == 0 else "O"
            return self.value(tok)
        if v[0] == "begin":
            t = self.toks(s, v[1])
            return None if t else self.value("O")
        return v

    def value(self, tok):
        if tok == "i":
            return ("idx", "P", 0)
        return ("el", tok)

    def tok(self, v):
        if v is None:
            return "?"
        if v[0] == "el":
            return v[1]
        if v[0] == "idx":
            return "i" if v[1] == "P" and v[2] == 0 else "O"
        if v[0] == "obj":
            return "O"
        return "O"

    def at(self, s, b, x):
        if b is None or b[0] != "obj" or b[1] not in s.c:
            return None
        if x and x[0] == "idx":
            if x[2] == 0 and x[1] in self.toks(s, b[1]):
                return self.value(x[1])
            if x[2] == 0 and x[1] == "P":
                return ("el", "?")
            return self.value("O")
        if not self.toks(s, b[1]):
            return self.value("O")
        return ("el", "?")

    def binary(self, f, fr, i, n, c, s, d):
        op = n["op"]
        if op in ("&&", "||", "==", "!=", "<", ">", "<=", ">="):
            return [(t, ("c", int(b)), fl) for t, b, fl in self.tru(f, fr, i, s, d)]
        if op == "=":
            out = []
            if f.n(c[0]).get("t") == "bool":
                vals = [(t, ("c", int(b)), fl) for t, b, fl in self.tru(f, fr, c[1], s, d)]
            else:
                vals = self.ex(f, fr, c[1], s, d)
            for t, v, fl in vals:
                p = self.place(f, fr, c[0], t, d)
                t = t.copy()
                if p is not None:
                    t.v[p] = v
                out.append((t, v, fl))
            return out
        if op in ("+=", "-="):
            out = []
            for t, a, fl in self.ex(f, fr, c[0], s, d):
                for u, b, fl2 in self.ex(f, fr, c[1], t, d):
                    p = self.place(f, fr, c[0], u, d)
                    w = None
                    by = 1 if op == "+=" else -1
                    if a and b and a[0] == "cnt":
                        if b[0] == "size":
                            w = ("cnt", a[1] + by * len([x for x in self.toks(u, b[1]) if x == "P"]))
                        elif b[0] == "cnt":
                            w = ("cnt", a[1] + by * b[1])
                        elif b[0] == "c" and self.counts():
                            w = ("cnt", a[1] + by * b[1])
                        else:
                            w = a if b[0] == "c" else None
                    elif a and b and b[0] == "c" and a[0] in ("c", "idx", "it"):
                        w = self.step(u, a, by * b[1], op, f.loc(i))
                    if p is not None:
                        u = u.copy()
                        u.v[p] = w
                    out.append((u, w, fl or fl2))
            return out
        out = []
        for t, a, fl in self.ex(f, fr, c[0], s, d):
            for u, b, fl2 in self.ex(f, fr, c[1], t, d):
                out.append((u, self.arith(u, a, b, op), fl or fl2))
        return out

    def arith(self, s, a, b, op):
        if a and b:
            if a[0] == "c" and b[0] == "c":
                try:
                    return ("c", {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y}[op](a[1], b[1]))
                except KeyError:
                    return None
            if op == "-" and a[0] == "it" and b[0] == "begin" and a[1] == b[1]:
                return ("idx", a[2], a[3])
            if op == "+" and a[0] == "begin" and b[0] == "idx":
                return ("it", a[1], b[1] if b[1] in self.toks(s, a[1]) or b[1] == "O" else "O", b[2])
            if op in ("+", "-") and b[0] == "c" and a[0] in ("idx", "it"):
                return self.step(s, a, b[1] if op == "+" else -b[1], op, "")
            if op == "+" and a[0] == "cnt" and b[0] == "size":
                return ("cnt", a[1] + len([x for x in self.toks(s, b[1]) if x == "P"]))
            if op == "-" and a[0] == "size" and b[0] == "size":
                return ("cnt", len([x for x in self.toks(s, a[1]) if x == "P"]) - len([x for x in self.toks(s, b[1]) if x == "P"]))
        return None

    def construct(self, f, fr, i, n, c, s, d):
        out = []
        t0 = n.get("t", "")
        for t, vs, fl in self.args(f, fr, c, s, d):
            if self.container(t0):
                if len(vs) == 1 and vs[0] and vs[0][0] == "obj" and vs[0][1] in t.c:
                    out.append((t, vs[0], fl))
                else:
                    t = t.copy()
                    cid = "tmp %s" % f.loc(i)
                    t.c[cid] = ()
                    if len(vs) >= 2 and vs[0] and vs[0][0] == "begin" and vs[1] and vs[1][0] == "end":
                        t.c[cid] = self.toks(t, vs[0][1])
                    out.append((t, ("obj", cid), fl))
            elif len(vs) >= 1 and len([v for v in vs if v is not None]) == 1 and vs[0] is not None and (len(vs) == 1 or vs[0][0] in ("it", "begin", "end")):
                out.append((t, vs[0], fl))
            else:
                out.append((t, None, fl))
        return out

    # ---- calls
    def call(self, f, fr, i, n, c, s, d):
        fn = n.get("fn", "")
        last = lastname(fn) if not n.get("op") else ""
        op = n.get("op")
        if op in ("==", "!=", "<", ">", "<=", ">=") and len(c) == 2:
            return [(t, ("c", int(b)), fl) for t, b, fl in self.tru(f, fr, i, s, d)]
        own = self.F.fns.get(n.get("f")) if op in ("++", "--") else None
        if op in ("++", "--") and not (own is not None and n.get("obj") and self.follow(own, None, ()) and own.load()["body"] is not None):
            m = dict(n)
            m["op"] = ("post" if len(c) == 2 else "") + op
            return self.unary(f, fr, i, m, c[:1], s, d)
        out = []
        if op == "=" and len(c) == 2:
            for t, v, fl in self.ex(f, fr, c[1], s, d):
                for u, b, fl2 in self.ex(f, fr, c[0], t, d):
                    u = u.copy()
                    if b and b[0] == "obj" and b[1] in u.c:
                        u.c[b[1]] = self.toks(u, v[1]) if v and v[0] == "obj" else ("?",)
                    else:
                        p = self.place(f, fr, c[0], u, d)
                        if p is not None and not (b and b[0] == "el"):
                            u.v[p] = v
                    out.append((u, v, fl or fl2))
            return out
        for t, vs, fl in self.args(f, fr, c, s, d):
            if fl:
                out.append((t, None, fl))
                continue
            out += self.apply(f, fr, i, n, last, op, c, t, vs, d)
        return uniq3(out)

    def apply(self, f, fr, i, n, last, op, c, s, vs, d):
        loc = f.loc(i)
        if self.special:
            r = self.special(self, f, i, n, last, s, vs)
            if r is not None:
                return r
        obj = vs[0] if n.get("obj") and vs else None
        if op == "*" and len(vs) == 1 or op == "->":
            return [(s, self.deref(s, vs[0], loc), None)]
        if op == "-" and len(vs) == 2 or op == "+" and len(vs) == 2:
            return [(s, self.arith(s, vs[0], vs[1], op), None)]
        if op in ("+=", "-=") and len(vs) == 2 and vs[0] and vs[0][0] == "it" and vs[1] and vs[1][0] == "c":
            s = s.copy()
            p = self.place(f, fr, c[0], s, d)
            w = self.step(s, vs[0], vs[1][1] if op == "+=" else -vs[1][1], op, loc)
            if p is not None:
                s.v[p] = w
            return [(s, w, None)]
        if op == "[]" and len(vs) == 2:
            return [(s, self.at(s, vs[0], vs[1]), None)]
        if obj and obj[0] == "obj" and (obj[1] in s.c or self.container(f.n(c[0]).get("t"))):
            s = s.copy()
            s.c.setdefault(obj[1], ())
            r = self.prim(f, i, last, obj[1], s, vs[1:], loc)
            if r is not None:
                return r
        if last in ("move", "ref", "forward", "addressof", "as_const") and len(vs) == 1:
            return [(s, vs[0], None)]
        if last == "swap" and len(vs) == 2 and all(v and v[0] == "obj" for v in vs):
            s = s.copy()
            a, b = vs[0][1], vs[1][1]
            s.c[a], s.c[b] = self.toks(s, b), self.toks(s, a)
            return [(s, None, None)]
        if last in ("begin", "end", "cbegin", "cend", "size", "empty") and len(vs) == 1 and vs[0] and vs[0][0] == "obj" and vs[0][1] in s.c:
            r = self.prim(f, i, last, vs[0][1], s, (), loc)
            if r is not None:
                return r
        if last in ("next", "prev") and vs and vs[0] and vs[0][0] == "it" and len(vs) <= 2:
            by = vs[1][1] if len(vs) == 2 and vs[1] and vs[1][0] == "c" else 1
            return [(s, self.step(s, vs[0], by if last == "next" else -by, last, loc), None)]
        if last in ("distance",) and len(vs) == 2 and vs[0] and vs[0][0] == "begin" and vs[1] and vs[1][0] == "it":
            return [(s, ("idx", vs[1][2], vs[1][3]), None)]
        if last == "for_each" and len(vs) == 3 and vs[0] and vs[0][0] == "begin" and vs[1] and vs[1][0] == "end" and vs[2] and vs[2][0] == "lambda":
            return [(t, None, fl) for t, fl in self.each(s, vs[0][1], vs[2], d)]
        # calls of lambdas and of the functions that are followed
        if op == "()" and vs and vs[0] and vs[0][0] == "lambda":
            return self.lam(s, vs[0], vs[1:], d)
        gs = self.targets(n, obj, vs)
        if gs and d < 8:
            out = []
            for g in gs:
                args = vs[1:] if n.get("obj") else vs
                for t, v in self.run(g, args, obj, s, d + 1):
                    if v and v[0] == "throw":
                        out.append((t, None, v))
                    else:
                        out.append((t, v, None))
            return out
        # an observer of something fixed gives the same answer on one path
        if n.get("cm") and obj and obj[0] in ("obj", "sym") and len(vs) == 1 and last not in ("size",):
            return [(s, ("sym", "%s.%s()" % (obj[1], last)), None)]
        if any(v and v[0] == "obj" and v[1] in s.c and self.toks(s, v[1]) for v in vs) and self.moves(n):
            self.note("unknown|" + last, loc, None)
        return [(s, None, None)]

    def moves(self, n):
        return n.get("fn", "").startswith("std::") and re.sub(r"<.*", "", n["fn"]).split("::")[-1] in ("remove_if", "remove", "partition", "stable_partition", "copy_if", "remove_copy_if", "transform",
                                                                                                "copy", "partition_copy", "erase_if", "sort", "stable_sort", "reverse", "rotate", "unique")

    def targets(self, n, obj, vs):
        g = self.F.fns.get(n.get("f"))
        if g is None:
            return []
        g.load()
        if n.get("virt") and obj and obj[0] == "obj" and self.cls is not None and g.cls is not None and (g.cls == self.cls or g.cls in self.F.all_bases(self.cls, True)):
            h = self.final(g)
            if h is not None:
                g = h
        if g.load()["body"] is None or g.body < 0 or not self.follow(g, obj, vs):
            return []
        return [g]

    def final(self, g):
        """the overrider of g in the class that is looked at"""
        F = self.F
        cand = [h for h in [g] + [F.fns[x] for x in all_over(F, g.u) if x in F.fns] if h.cls == self.cls or h.cls in F.all_bases(self.cls, True)]
        cand = [h for h in cand if not any(h2.cls != h.cls and h.cls in F.all_bases(h2.cls, True) for h2 in cand)]
        return cand[0] if cand else None

    def lam(self, s, l, vs, d):
        f = next(g for g in self.F.fns.values() if g.qn == l[1] and g.load() and len(g.nodes) > l[2] and g.k(l[2]) == "Lambda") if 0 else None
        return [(s, None, None)]

    def prim(self, f, i, last, cid, s, vs, loc):
        """an operation of a container; s is ours to change"""
        T = self.toks(s, cid)
        if last in ("begin", "cbegin", "rbegin"):
            return [(s, ("begin", cid), None)]
        if last in ("end", "cend", "rend"):
            return [(s, ("end", cid), None)]
        if last == "size":
            return [(s, ("size", cid), None)]
        if last == "empty":
            if T:
                return [(s, ("c", 0), None)]
            return [(s.copy(), ("c", 0), None), (s.copy(), ("c", 1), None)]
        if last in ("push_back", "AddParticle", "emplace_back", "push_front", "insert") and vs:
            v = vs[-1]
            if last == "insert" and len(vs) == 3:
                if vs[1] and vs[1][0] == "begin" and vs[2] and vs[2][0] == "end":
                    for x in self.toks(s, vs[1][1]):
                        self.put(s, cid, x)
                return [(s, None, None)]
            tk = self.tok(vs[0] if last == "AddParticle" else v)
            if tk != "O":
                self.put(s, cid, tk)
            return [(s, None, None)]
        if last == "erase" and vs:
            v = vs[0]
            if len(vs) == 2:
                if v and v[0] == "begin" and vs[1] and vs[1][0] == "end":
                    s.c[cid] = ()
                elif T:
                    self.put(s, cid, "?")
                return [(s, None, None)]
            if v and v[0] == "it" and v[1] == cid:
                if v[3] == 0:
                    if v[2] != "O":
                        self.put(s, cid, v[2], -1)
                    return [(s, ("it", cid, v[2], 1), None)]
                self.note("erase|" + loc, loc, "removes an element the walk has not reached or has already left")
                return [(s, None, None)]
            if T:
                self.put(s, cid, "?")
            return [(s, None, None)]
        if last == "clear":
            s.c[cid] = ()
            return [(s, None, None)]
        if last in ("swap",) and vs and vs[0] and vs[0][0] == "obj":
            o = vs[0][1]
            s.c[cid], s.c[o] = self.toks(s, o), T
            return [(s, None, None)]
        if last in ("assign",) and len(vs) == 2 and vs[0] and vs[0][0] == "begin" and vs[1] and vs[1][0] == "end":
            s.c[cid] = self.toks(s, vs[0][1])
            return [(s, None, None)]
        if last in ("splice",) and len(vs) >= 2 and vs[1] and vs[1][0] == "obj":
            o = vs[1][1]
            if len(vs) == 2:
                s.c[cid] = tuple(sorted(T + self.toks(s, o)))
                s.c[o] = ()
            elif len(vs) == 3 and vs[2] and vs[2][0] == "it":
                if vs[2][2] != "O":
                    self.put(s, o, vs[2][2], -1)
                    self.put(s, cid, vs[2][2])
            return [(s, None, None)]
        if last in ("GetParticles",):
            return [(s, ("obj", cid), None)]
        if last in ("reserve", "capacity", "shrink_to_fit", "resize"):
            return [(s, None, None)]
        if last in ("at", "operator[]") and vs:
            return [(s, self.at(s, ("obj", cid), vs[0]), None)]
        if last in ("front", "back", "FirstParticle"):
            return [(s, ("el", "?") if T else self.value("O"), None)]
        return None

    # ---- loops
    def loop(self, f, fr, i, n, c, s, d):
        k = n["k"]
        out = []
        if k == "For":
            init, cond, inc, body = c
            start = self.seq(f, fr, [init] if init >= 0 else [], s, d)
            post = False
        elif k == "While":
            cond, body, inc = c[-2], c[-1], -1
            start = self.seq(f, fr, [x for x in c[:-2] if x is not None and x >= 0 and f.k(x) == "Decl"], s, d)
        elif k == "Do":
            body, cond, inc = c[0], c[1], -1
            start = [(s, None)]
        else:
            start = self.seq(f, fr, [x for x in c[:3] if x is not None and x >= 0], s, d)
            cond, inc, body = c[3], c[4], None
        stmts = [c[5], c[6]] if k == "RangeFor" else [body]
        for t, fl in start:
            if fl is not None:
                out.append((t, fl))
                continue
            w = self.walk(f, fr, cond, t, d) if k != "Do" and cond is not None and cond >= 0 else None
            if w:
                out += self.over(f, fr, i, w, cond, inc, stmts, t, d)
            else:
                out += self.fix(f, fr, i, k, cond, inc, stmts, t, d)
        return uniq(out)

    def conj(self, f, i):
        while f.k(i) in ("Cast", "Paren") and f.c(i):
            i = f.c(i)[0]
        if f.k(i) == "Binary" and f.n(i)["op"] == "&&":
            return self.conj(f, f.c(i)[0]) + self.conj(f, f.c(i)[1])
        return [i]

    def walk(self, f, fr, cond, s, d):
        """(place of the cursor, container, kind, the deciding comparison)"""
        for x in self.conj(f, cond):
            n, c = f.n(x), f.c(x)
            if n.get("op") not in ("!=", "<", ">", "<=", ">=") or len(c) != 2:
                continue
            va = self.ex(f, fr, c[0], s, d)
            vb = self.ex(f, fr, c[1], s, d)
            if len(va) != 1 or len(vb) != 1:
                continue
            for (a, ia), (b, ib) in (((va[0][1], c[0]), (vb[0][1], c[1])), ((vb[0][1], c[1]), (va[0][1], c[0]))):
                if a and b and a[0] == "begin" and b == ("end", a[1]):
                    p = self.place(f, fr, ia, s, d)
                    if p:
                        return (p, a[1], "it", x)
                if a and b and a[0] == "c" and b[0] == "size" and n["op"] in ("!=", "<", ">"):
                    p = self.place(f, fr, ia, s, d)
                    if p and a[1] == 0:
                        return (p, b[1], "idx", x)
                    if p and a[1] > 0:
                        return (p, b[1], "late", x)
                if a and b and a[0] == "it" and b == ("end", a[1]):
                    p = self.place(f, fr, ia, s, d)
                    if p:
                        return (p, a[1], "late", x)
        return None

    def over(self, f, fr, i, w, cond, inc, stmts, s, d):
        """a walk over the whole container"""
        self.rounds += 1
        p, cid, kind, cmpx = w
        s = s.copy()
        s.c.setdefault(cid, ())
        if kind == "late":
            if self.toks(s, cid):
                self.note("late|%s|%s" % (f.qn, cid.split(".")[-1]), f.loc(i), "the walk over %s does not begin at the first element" % cid.split(".")[-1])
            kind = "it" if s.v.get(p) and s.v[p][0] == "it" else "idx"
        others = [x for x in self.conj(f, cond) if x != cmpx]
        mk = (lambda tok: ("it", cid, tok, 0)) if kind == "it" else (lambda tok: ("idx", tok, 0))
        cand = {}
        for q, v in s.v.items():
            if q != p and v and q[0] == fr and isinstance(q[1], int):
                if v[0] == "begin" and v[1] != cid:
                    cand[q] = ("it", v[1])
                elif v == ("c", 0) and INT.match(f.vars[q[1]][1]):
                    cand[q] = ("idx", None)

        def enter(t, tok, cand):
            t = t.copy()
            t.v[p] = mk(tok)
            for q, (kk, c2) in cand.items():
                if kk == "it":
                    # the entry beside this element: the followed one's own, if it is there
                    own = [x for x in self.toks(t, c2) if x in ("P", "n", "i")]
                    t.v[q] = ("it", c2, own[0] if tok == "P" and own else "O", 0)
                else:
                    t.v[q] = ("idx", tok, 0)
            return t

        def body(t, tok):
            """(ends of the round, breaks, others)"""
            ends, brk, oth = [], [], []
            self.focus.append("P" if tok == "P" else ("O" if self.focus[-1] != "P" or self.toks(t, cid) else "P"))
            try:
                cur = [(t, None)]
                for x in others:
                    nxt = []
                    for u, _ in cur:
                        for u2, b, fl in self.tru(f, fr, x, u, d):
                            if fl:
                                oth.append((u2, fl))
                            elif b:
                                nxt.append((u2, None))
                            else:
                                brk.append(u2)
                    cur = nxt
                for u, _ in cur:
                    for u2, fl in self.seq(f, fr, [x for x in stmts if x is not None and x >= 0], u, d):
                        if fl is None or fl == ("continue",):
                            if inc is not None and inc >= 0:
                                for u3, v, fl3 in self.ex(f, fr, inc, u2, d):
                                    (ends if not fl3 else oth).append(u3 if not fl3 else (u3, fl3))
                            else:
                                ends.append(u2)
                        elif fl == ("break",):
                            brk.append(u2)
                        else:
                            oth.append((u2, fl))
            finally:
                self.focus.pop()
            return dedupe(ends), dedupe(brk), oth

        # which variables go along with the walk
        while True:
            ends, brk, oth = body(enter(s, "O", cand), "O")
            drop = []
            for q in cand:
                ms = {(e.v.get(q) or (None,))[-1] if e.v.get(q) and e.v[q][0] in ("it", "idx") else None for e in ends}
                if ms != {1}:
                    drop.append(q)
            if not drop:
                break
            for q in drop:
                if cand[q][0] == "it":
                    ms = {e.v.get(q) for e in ends}
                    if len(ms) > 1 and any(x in ("P", "n") for x in self.toks(s, cand[q][1])):
                        self.note("beside|%s|%s" % (f.qn, f.vars[q[1]][0]), f.loc(i), "the entry kept beside each element is not moved on once per element on every path")
                del cand[q]

        def check(es, tok):
            for e in es:
                v = e.v.get(p)
                m = v[-1] if v and v[0] in ("it", "idx") else None
                if m != 1:
                    what = "stays where it is" if m == 0 else ("leaves out the element that follows" if m and m > 1 else "goes on from an unknown place")
                    self.note("step|%s|%s" % (f.qn, cid.split(".")[-1]), f.loc(i), "on one path the walk over %s %s" % (cid.split(".")[-1].split(" ")[-1], what))
        check(ends, "O")

        def leave(t):
            t = t.copy()
            t.v[p] = ("end", cid) if kind == "it" else ("size", cid)
            for q, (kk, c2) in cand.items():
                t.v[q] = ("end", c2) if kk == "it" else ("size", cid)
            return t

        def weaken(t, base):
            """variables the rounds of others have changed, apart from the cursors, are unknown"""
            t = t.copy()
            for q, v in list(t.v.items()):
                if q != p and q not in cand and base.v.get(q) != v and not (v and v[0] in ("cnt", "obj", "c")):
                    t.v[q] = None
                elif q != p and q not in cand and v and v[0] == "c" and base.v.get(q) and base.v[q][0] == "c" and base.v[q] != v and not (f.vars[q[1]][1] == "bool" if q[0] == fr and isinstance(q[1], int) else False):
                    t.v[q] = None
            return t

        out = [(b, None) for b in brk] + list(oth)
        pre = dedupe([s] + [weaken(reset(e, p, cand, s), s) for e in ends])
        mult = [x for x in self.toks(s, cid)]
        after = pre
        for tok in mult:
            nxt = []
            for t in after:
                if tok not in self.toks(t, cid):
                    nxt.append(t)
                    continue
                e2, b2, o2 = body(enter(t, tok, cand), tok)
                check(e2, tok)
                for q in cand:
                    for e in e2:
                        v = e.v.get(q)
                        if not (v and v[0] in ("it", "idx") and v[-1] == 1):
                            self.note("beside|%s|%s" % (f.qn, f.vars[q[1]][0]), f.loc(i), "what is kept beside the elements (%s) does not move on with the walk on one path" % f.vars[q[1]][0])
                out += [(b, None) for b in b2] + list(o2)
                nxt += [reset(e, p, cand, s) for e in e2]
            after = dedupe(nxt)
        if mult:
            fin = []
            for t in after:
                e3, b3, o3 = body(enter(t, "O", cand), "O")
                out += [(b, None) for b in b3] + list(o3)
                fin += [t] + [weaken(reset(e, p, cand, s), t) for e in e3]
            after = dedupe(fin)
        out += [(leave(t), None) for t in after]
        return uniq(out)

    def fix(self, f, fr, i, k, cond, inc, stmts, s, d):
        """any other loop: states until nothing new turns up"""
        seen, work, out = {}, [s], []
        first = k == "Do"
        while work:
            t = work.pop()
            key = (t.key(), first)
            if key in seen:
                continue
            seen[key] = 1
            if len(seen) > LIM:
                raise Broken("too many cases in a loop of %s" % f.qn)
            heads = [(t, True, None)] if first or cond is None or cond < 0 else self.tru(f, fr, cond, t, d)
            first = False
            for u, b, fl in heads:
                if fl:
                    out.append((u, fl))
                elif not b:
                    out.append((u, None))
                else:
                    for u2, fl2 in self.seq(f, fr, [x for x in stmts if x is not None and x >= 0], u, d):
                        if fl2 is None or fl2 == ("continue",):
                            if inc is not None and inc >= 0:
                                nx = [u3 for u3, v, fl3 in self.ex(f, fr, inc, u2, d)]
                            else:
                                nx = [u2]
                            for u3 in nx:
                                if k == "Do":
                                    for u4, b4, fl4 in self.tru(f, fr, cond, u3, d):
                                        if b4:
                                            work.append(widen(u4, s))
                                        else:
                                            out.append((u4, fl4))
                                else:
                                    work.append(widen(u3, s))
                        elif fl2 == ("break",):
                            out.append((u2, None))
                        else:
                            out.append((u2, fl2))
        return uniq(out)


def widen(t, base):
    """numbers changed by a round are anything; what the round decided about things that may have changed is forgotten"""
    t = t.copy()
    for q, v in list(t.v.items()):
        if v and v[0] in ("c",) and base.v.get(q) != v and not isinstance(v[1], bool) and v[1] not in (0, 1):
            t.v[q] = None
    return t


def reset(e, p, cand, s):
    e = e.copy()
    e.v[p] = s.v.get(p)
    for q in cand:
        e.v[q] = s.v.get(q)
    return e


def dedupe(l):
    seen, out = set(), []
    for s in l:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > LIM:
        raise Broken("too many cases")
    return out


def uniq3(l):
    seen, out = set(), []
    for s, v, fl in l:
        k = (s.key(), v, fl)
        if k not in seen:
            seen.add(k)
            out.append((s, v, fl))
    if len(out) > LIM:
        raise Broken("too many cases")
    return out


def all_over(F, u):
    r, todo = [], [u]
    while todo:
        for x in F.overriders(todo.pop()):
            if x not in r:
                r.append(x)
                todo.append(x)
    return r
