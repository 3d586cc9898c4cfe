"""What a function puts into or takes out of a text stream, column by column, on every path.

Small functions are followed statement by statement: loops of a constant number of rounds are unrolled, other loops are followed for one round
(between marks), helpers that get the stream or a value just read are followed. Columns are described by the place the value comes from or goes to."""
import re

LIMIT = 96


class S(object):
    def __init__(self):
        self.env, self.ev, self.n = {}, [], 0

    def copy(self):
        s = S()
        s.env, s.ev, s.n = dict(self.env), list(self.ev), self.n
        return s


def isos(t):
    return "ostream" in (t or "") or "ofstream" in (t or "") or "stringstream" in (t or "") and "istring" not in t


def isis(t):
    return "istream" in (t or "") or "ifstream" in (t or "") or "stringstream" in (t or "") and "ostring" not in t


class Ex(object):
    def __init__(self, F):
        self.F = F
        self.frame = 0

    def follow(self, f):
        """paths of events of a function"""
        s = S()
        return [x.ev for x, fl in self.fn(f, [("path", ("arg", k)) for k in range(len(f.params))], ("path", ("this",)), s, 0)]

    def fn(self, f, args, this, s, d):
        f.load()
        self.frame += 1
        fr = self.frame
        for v, a in zip(f.params, args):
            s.env[(fr, v)] = a
        s.env[(fr, "this")] = this
        out = []
        for t, fl in self.stmt(f, fr, f.body, s, d):
            if fl and fl[0] == "throw":
                continue            # no columns come out of a refusal
            out.append((t, fl[1] if fl and fl[0] == "return" else None))
        return out

    # ---- statements: list of (state, flow); flow None | ("return", value) | ("break",) | ("continue",) | ("throw",)
    def stmt(self, f, fr, i, s, d):
        if i is None or i < 0:
            return [(s, None)]
        n = f.n(i)
        k, c = n["k"], f.c(i)
        if k == "Block":
            cur = [(s, None)]
            for x in c:
                nxt = []
                for t, fl in cur:
                    nxt += self.stmt(f, fr, x, t, d) if fl is None else [(t, fl)]
                cur = nxt[:LIMIT]
            return cur
        if k == "Decl":
            for v, x, style in n["d"]:
                if v >= 0:
                    t = f.vars[v][1]
                    val = self.ev(f, fr, x, s, d) if x is not None and x >= 0 else None
                    if x is not None and x >= 0:
                        val = self.decay(f, x, val, t)
                    if val is None or val[0] == "obj" or val[0] in ("c", "str") and self.record(t):
                        val = ("path", ("local", f.vars[v][0]))
                    s.env[(fr, v)] = val
                    s.env.pop(("path", ("local", f.vars[v][0])), None)
            return [(s, None)]
        if k == "Return":
            v = self.ev(f, fr, c[0], s, d) if c else None
            return [(s, ("return", v))]
        if k == "Throw":
            return [(s, ("throw",))]
        if k == "BreakStmt":
            return [(s, ("break",))]
        if k == "ContinueStmt":
            return [(s, ("continue",))]
        if k == "If":
            init, var, cond, then, els = (list(c) + [-1] * 5)[:5]
            if init >= 0:
                self.stmt(f, fr, init, s, d)
            v = self.truth(f, fr, cond, s, d)
            out = []
            if v is not False:
                out += self.stmt(f, fr, then, s.copy(), d)
            if v is not True and v != "good":
                out += self.stmt(f, fr, els, s.copy(), d)
            return out[:LIMIT]
        if k == "Switch":
            body = c[-1]
            self.ev(f, fr, c[-2], s, d)
            out = []
            ks = f.c(body) if f.k(body) == "Block" else [body]
            starts = [j for j, x in enumerate(ks) if f.k(x) in ("Case", "Default", "CaseStmt", "DefaultStmt")]
            for j in starts:
                cur = [(s.copy(), None)]
                for x in ks[j:]:
                    y = x
                    while f.k(y) in ("Case", "Default", "CaseStmt", "DefaultStmt"):
                        y = f.c(y)[-1]
                    nxt = []
                    for t, fl in cur:
                        nxt += self.stmt(f, fr, y, t, d) if fl is None else [(t, fl)]
                    cur = nxt
                out += [(t, None if fl == ("break",) else fl) for t, fl in cur]
            return out[:LIMIT] or [(s, None)]
        if k in ("For", "While", "Do", "RangeFor"):
            return self.loop(f, fr, i, n, c, s, d)
        if k in ("CXXTryStmt",):
            return self.stmt(f, fr, c[0], s, d)
        if k in ("NullStmt",):
            return [(s, None)]
        self.ev(f, fr, i, s, d)
        return [(s, None)]

    def loop(self, f, fr, i, n, c, s, d):
        k = n["k"]
        if k == "For":
            init, cond, inc, body = c
            self.stmt(f, fr, init, s, d)
        elif k == "While":
            cond, body, inc = c[-2], c[-1], -1
        elif k == "Do":
            body, cond, inc = c[0], c[1], -1
        else:
            for x in c[:3]:
                self.stmt(f, fr, x, s, d)
            cond, inc, body = c[3], c[4], c[6]
        # a constant number of rounds
        if k != "RangeFor" and k != "Do" and cond >= 0 and self.truth(f, fr, cond, s.copy(), d) is True:
            cur, out, rounds = [(s, None)], [], 0
            while cur and rounds < 64:
                rounds += 1
                nxt = []
                for t, fl in cur:
                    v = self.truth(f, fr, cond, t, d)
                    if v is False:
                        out.append((t, None))
                        continue
                    if v is None:
                        cur = None
                        break
                    for t2, f2 in self.stmt(f, fr, body, t, d):
                        if f2 == ("break",):
                            out.append((t2, None))
                        elif f2 is None or f2 == ("continue",):
                            if inc >= 0:
                                self.ev(f, fr, inc, t2, d)
                            nxt.append((t2, None))
                        else:
                            out.append((t2, f2))
                if cur is None:
                    break
                cur = nxt[:LIMIT]
            if cur is not None and rounds < 64:
                return out[:LIMIT]
        # one round
        s.ev.append(("loop", f.loc(i)))
        if cond is not None and cond >= 0 and k != "RangeFor":
            self.ev(f, fr, cond, s, d)
        if k == "RangeFor":
            for x in (c[5],):
                self.stmt(f, fr, x, s, d)
        out = []
        for t, fl in self.stmt(f, fr, body, s, d):
            t.ev.append(("end", f.loc(i)))
            out.append((t, None if fl in (("break",), ("continue",), None) else fl))
        return out[:LIMIT]

    def truth(self, f, fr, i, s, d):
        n = f.n(i)
        k, c = n["k"], f.c(i)
        if k == "Cast" and c:
            return self.truth(f, fr, c[0], s, d)
        if k in ("Binary",) and n["op"] == "&&":
            a, b = self.truth(f, fr, c[0], s, d), self.truth(f, fr, c[1], s, d)
            return False if a is False or b is False else (None if a is None or b is None else ("good" if a == b == "good" else True))
        if k == "Binary" and n["op"] in ("==", "!=", "<", ">", "<=", ">="):
            a, b = self.ev(f, fr, c[0], s, d), self.ev(f, fr, c[1], s, d)
            if a and b and a[0] == b[0] == "c":
                x, y = a[1], b[1]
            elif a and b and a[0] == b[0] == "ptr" and a[1] == b[1]:
                x, y = a[2], b[2]
            else:
                return None
            return {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[n["op"]]
        t = n.get("t", "")
        if isis(t) or n.get("fn", "").endswith("operator bool") or n.get("fn", "").split("::")[-1] in ("good",):
            self.ev(f, fr, i, s, d)
            return "good"
        if k == "Call" and n.get("op") == "!" and len(c) == 1 and isis(f.n(c[0]).get("t", "")) or n.get("fn", "").split("::")[-1] in ("fail", "bad") and c and isis(f.n(c[0]).get("t", "")):
            self.ev(f, fr, c[0], s, d)
            return False
        if k == "Unary" and n["op"] == "!":
            v = self.truth(f, fr, c[0], s, d)
            return v if v is None else not v
        v = self.ev(f, fr, i, s, d)
        if v and v[0] == "c":
            return bool(v[1])
        return None

    # ---- expressions
    def ev(self, f, fr, i, s, d):
        if i is None or i < 0:
            return None
        n = f.n(i)
        k, c = n["k"], f.c(i)
        if k in ("Int", "Float", "Bool", "Char"):
            try:
                v = n["v"]
                return ("c", {"true": 1, "false": 0}.get(v, None) if v in ("true", "false") else (float(v) if k == "Float" else int(v))) if k != "Char" else ("chr", v)
            except (ValueError, TypeError):
                return None
        if k == "Str":
            return ("str", n.get("v", n.get("s", "")))
        if n.get("cv") is not None and k != "Call":
            try:
                return ("c", int(n["cv"]))
            except ValueError:
                pass
        if k == "This":
            return s.env.get((fr, "this"))
        if k == "Ref":
            v = n.get("v", -1)
            if n.get("ev") is not None:
                try:
                    return ("c", int(n["ev"]))
                except ValueError:
                    return None
            if v is not None and v >= 0 and "g" not in n:
                p = s.env.get((fr, v), ("path", ("local", f.vars[v][0])))
                return s.env.get(p, p) if p is not None and p[0] == "path" and p[1][0] == "local" else p
            return ("path", ("global", n.get("n") or n.get("g") or n.get("fn") or "?"))
        if k == "Member":
            b = self.ev(f, fr, c[0], s, d)
            lab = n.get("fld") or n.get("n")
            if b and b[0] == "path":
                p = ("path", b[1] + (lab,))
                return s.env.get(p, p)
            if b and b[0] == "ptr":
                p = ("path", b[1] + ("[%d]" % b[2],) if 0 else b[1] + (lab,))
                return p
            return None
        if k == "Index":
            b, x = self.ev(f, fr, c[0], s, d), self.ev(f, fr, c[1], s, d)
            if b and b[0] in ("path", "ptr"):
                off = (b[2] if b[0] == "ptr" else 0) + (int(x[1]) if x and x[0] == "c" else 0)
                return ("path", b[1] + ("[%d]" % off if x and x[0] == "c" else "[]",))
            return None
        if k == "Unary":
            b = self.ev(f, fr, c[0], s, d)
            op = n["op"]
            if "++" in op or "--" in op:
                st = 1 if "++" in op else -1
                if b and b[0] == "c":
                    self.put(f, fr, c[0], ("c", b[1] + st), s, d)
                elif b and b[0] == "ptr":
                    self.put(f, fr, c[0], ("ptr", b[1], b[2] + st), s, d)
                return b
            if op == "*":
                if b and b[0] == "ptr":
                    return ("path", b[1] + ("[%d]" % b[2],))
                return b
            if op == "&":
                return b
            if op == "-" and b and b[0] == "c":
                return ("c", -b[1])
            return b if op == "+" else None
        if k == "Cast":
            b = self.ev(f, fr, c[0], s, d) if c else None
            if n.get("ck") == "ArrayToPointerDecay" and b and b[0] == "path":
                return ("ptr", b[1], 0)
            return b
        if k in ("Binary", "CompoundAssign"):
            op = n["op"]
            if op == "=":
                b = self.ev(f, fr, c[1], s, d)
                self.put(f, fr, c[0], b, s, d)
                return b
            a, b = self.ev(f, fr, c[0], s, d), self.ev(f, fr, c[1], s, d)
            if n.get("ck") == "ArrayToPointerDecay":
                pass
            if op in ("+=", "-="):
                if a and b and a[0] == "c" and b[0] == "c":
                    self.put(f, fr, c[0], ("c", a[1] + b[1] if op == "+=" else a[1] - b[1]), s, d)
                return None
            if a and b and a[0] == "c" and b[0] == "c" and op in ("+", "-", "*", "/", "%"):
                x, y = a[1], b[1]
                try:
                    return ("c", {"+": x + y, "-": x - y, "*": x * y, "/": x / y if isinstance(x, float) or isinstance(y, float) else x // y, "%": x % y}[op])
                except (ZeroDivisionError, KeyError):
                    return None
            a, b = self.decay(f, c[0], a), self.decay(f, c[1], b)
            if a and a[0] == "ptr" and b and b[0] == "c" and op in ("+", "-"):
                return ("ptr", a[1], a[2] + int(b[1] if op == "+" else -b[1]))
            if op == "*" and a and a == b and a[0] == "in":
                return ("square", a)
            if a and b:
                return ("op", op, a, b)
            return None
        if k == "Cond":
            v = self.truth(f, fr, c[0], s, d)
            return self.ev(f, fr, c[1] if v is not False else c[2], s, d)
        if k in ("Construct", "InitList"):
            t = n.get("t", "")
            if "stringstream" in t:
                for x in c:
                    self.ev(f, fr, x, s, d)
                return None
            m = re.match(r"std::ostream_iterator<([\w:]+)", t)
            if m:
                self.ev(f, fr, c[0], s, d)
                return ("ositer", m.group(1))
            if len(c) == 1:
                return self.ev(f, fr, c[0], s, d)
            vs = [self.ev(f, fr, x, s, d) for x in c if x is not None and x >= 0]
            return ("obj",) + tuple(vs) if False else None
        if k == "Call":
            return self.call(f, fr, i, n, c, s, d)
        if k == "Lambda":
            return None
        r = None
        for x in c:
            r = self.ev(f, fr, x, s, d)
        return r if len(c) == 1 else None

    def record(self, t):
        t = re.sub(r"\b(const|class|struct)\b|[&\s]", "", t)
        c = self.F.by_ty.get(t)
        return c is not None

    def decay(self, f, x, v, t=None):
        if v and v[0] == "path" and (f.n(x).get("ck") == "ArrayToPointerDecay" or (t or "").rstrip().endswith("*") and re.search(r"\[\d+\]$", f.n(x).get("t", ""))):
            return ("ptr", v[1], 0)
        return v

    def put(self, f, fr, x, v, s, d):
        while f.k(x) == "Cast" and f.c(x):
            x = f.c(x)[0]
        n = f.n(x)
        if n["k"] == "Ref" and n.get("v", -1) is not None and n.get("v", -1) >= 0 and "g" not in n:
            t = f.vars[n["v"]][1]
            if not t.rstrip().endswith("&"):
                s.env[(fr, n["v"])] = v
                return
        if n["k"] == "Ref" and n.get("v", -1) is not None and n.get("v", -1) >= 0 and "g" not in n:
            p = s.env.get((fr, n["v"]))
            if p and p[0] == "path" and p[1][0] == "local" and len(p[1]) == 2:
                s.env[p] = v            # a local of the caller, handed down by reference
                return
        p = self.ev(f, fr, x, s, d)
        if p and p[0] == "path" and v is not None and v[0] in ("in", "square", "op"):
            s.ev.append(("sink", v, p[1]))

    def carries(self, v):
        return v is not None and (v[0] in ("in", "square") or v[0] == "stream" or v[0] == "op" and (self.carries(v[2]) or self.carries(v[3])))

    def call(self, f, fr, i, n, c, s, d):
        F = self.F
        fn = n.get("fn", "")
        last = fn.split("::")[-1]
        op = n.get("op")
        g = F.fns.get(n.get("f"))
        if g is not None and g.load()["body"] < 0:
            g = None
        t0 = f.n(c[0]).get("t", "") if c else ""
        if op == "<<" and c and (isos(t0) or isos(n.get("t", ""))):
            self.ev(f, fr, c[0], s, d)
            x = c[1]
            if g is not None and d < 6:
                v = self.ev(f, fr, x, s, d)
                r = self.fn(g, [("stream",), v or ("path", ("value",))], None, s, d + 1)
                self.adopt(s, r)
                return ("stream",)
            self.item(f, fr, x, s, d)
            return ("stream",)
        if op == ">>" and c and (isis(t0) or isis(n.get("t", ""))):
            self.ev(f, fr, c[0], s, d)
            x = c[1]
            if g is not None and d < 6:
                v = self.ev(f, fr, x, s, d)
                r = self.fn(g, [("stream",), v or ("path", ("value",))], None, s, d + 1)
                self.adopt(s, r)
                return ("stream",)
            s.n += 1
            tok = ("in", s.n)
            p = self.place(f, fr, x, s, d)
            s.ev.append(("read", tok, p, f.loc(i), f.n(x).get("t", "")))
            self.put(f, fr, x, tok, s, d)
            return ("stream",)
        if last == "precision" and n.get("obj") and len(c) > 1:
            v = self.ev(f, fr, c[1], s, d)
            if v and v[0] == "c":
                s.ev.append(("precision", v[1]))
            else:
                s.ev.append(("precision", None))
            return None
        if last in ("setf", "flags") and n.get("obj") and len(c) > 1:
            for x in f.walk(i):
                if f.n(x).get("n", "").split("::")[-1] == "scientific" or f.n(x).get("g", "").endswith("scientific"):
                    s.ev.append(("scientific",))
            return None
        if last in ("put",) and n.get("obj"):
            s.ev.append(("gap",))
            return None
        if fn.startswith("std::copy") and len(c) == 3:
            v = self.ev(f, fr, c[2], s, d)
            if v and v[0] == "ositer":
                s.ev.append(("loop", f.loc(i)))
                for h in F.fns.values():
                    if h.name == "operator<<" and len(h.load()["params"]) == 2 and h.body >= 0 and v[1].split("::")[-1] in h.vars[h.params[1]][1]:
                        self.adopt(s, self.fn(h, [("stream",), ("path", ("element",))], None, s, d + 1))
                        break
                s.ev.append(("end", f.loc(i)))
            return None
        if last == "for_each" and len(c) == 3:
            return None
        vals = [self.ev(f, fr, x, s, d) for x in c]
        obj = bool(n.get("obj"))
        if op in ("*", "->") and len(c) == 1:
            return vals[0]
        if op in ("[]", "()") and len(c) == 2 or last == "at" and len(c) == 2:
            if g is None:
                b, x = vals
                if b and b[0] == "path":
                    return ("path", b[1] + ("[%d]" % x[1] if x and x[0] == "c" else "[]",))
                return None
        if op in ("++", "--") or op in ("+", "-") and g is None and vals and vals[0] and vals[0][0] == "path" and len(vals) == 2:
            return vals[0]
        if last in ("begin", "end", "cbegin", "front", "back") and g is None and vals and vals[0] and vals[0][0] == "path":
            return ("path", vals[0][1] + ("[]",))
        if last in ("data", "c_str", "get", "str") and g is None and vals:
            return vals[0]
        if g is not None and d < 6 and g.name not in ("push_back",):
            if obj:
                this, args = vals[0], vals[1:]
                hs = [g]
            else:
                this, args, hs = None, vals, [g]
            streams = any(isos(g.vars[v][1]) or isis(g.vars[v][1]) for v in g.params)
            r = self.fn(g, [a if a is not None else ("path", ("?",)) for a in args], this or ("path", ("?",)), s.copy() if not (streams or any(self.carries(a) for a in args)) else s, d + 1)
            if streams or any(self.carries(a) for a in args):
                self.adopt(s, r)
            rets = {v for _, v in r}
            if len(rets) == 1:
                return rets.pop()
            return ("path", ("call", g.qn))
        if g is None and len(vals) == 1 and last == "sqrt" and vals[0]:
            return ("sqrt", vals[0])
        if fn.startswith("std::") and last in ("move", "ref", "cref", "forward") and vals:
            return vals[0]
        if obj and vals and vals[0] and vals[0][0] == "path" and len(vals) == 1:
            return ("path", vals[0][1] + (last + "()",))
        return None

    def adopt(self, s, r):
        """go on with the first path of a followed helper (helpers of streams are straight)"""
        if r:
            t = max((x for x, _ in r), key=lambda x: len(x.ev))
            s.env, s.ev, s.n = t.env, t.ev, t.n

    def place(self, f, fr, x, s, d):
        while f.k(x) == "Cast" and f.c(x):
            x = f.c(x)[0]
        n = f.n(x)
        if n["k"] == "Ref" and n.get("v", -1) is not None and n.get("v", -1) >= 0 and "g" not in n:
            t = f.vars[n["v"]][1]
            v = s.env.get((fr, n["v"]))
            if t.rstrip().endswith("&") and v and v[0] == "path":
                return v[1]
            return ("local", f.vars[n["v"]][0])
        v = self.ev(f, fr, x, s, d)
        return v[1] if v and v[0] == "path" else None

    def item(self, f, fr, x, s, d):
        n = f.n(x)
        y = x
        while f.k(y) in ("Cast", "Construct") and len(f.c(y)) == 1 and (f.k(y) == "Cast" or "_Set" in f.n(y).get("t", "")):
            y = f.c(y)[0]
        m = f.n(y)
        fn = m.get("fn", "") or m.get("n", "") or m.get("g", "")
        last = fn.split("::")[-1]
        t = m.get("t", "")
        if m["k"] == "Call" and last in ("setw", "setprecision"):
            v = self.ev(f, fr, f.c(y)[0], s, d)
            s.ev.append(("width" if last == "setw" else "precision", v[1] if v and v[0] == "c" else None))
            return
        name = m.get("n") or fn
        if m["k"] == "Ref" and ("(" in t) or last.split("<")[0] in ("endl", "left", "right", "scientific", "fixed", "flush", "ends", "internal", "showpos"):
            nm = str(m.get("n") or m.get("f") or "").split("::")[-1].split("<")[0]
            if "endl" in str(m):
                s.ev.append(("gap",))
            elif nm in ("left", "right", "scientific", "fixed"):
                s.ev.append((nm,))
            return
        v = self.ev(f, fr, x, s, d)
        if v and v[0] in ("str", "chr"):
            s.ev.append(("text", str(v[1])))
            return
        s.ev.append(("write", v, f.loc(x), n.get("t", "")))
