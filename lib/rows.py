"""Follows the sorting of records into the rows of a report: how much each record adds, and to which row.

Built on ledger's interpreter.  The rows are known by their number (exactly, or "one or more") and by their place relative to the last one:
("c", n) a fixed number, ("last", k) the position k after the last row.  In each round one record is entered; what the round adds to all
rows together is kept, as are the comparisons between the record and a row that a path has gone through."""
import ledger
from ledger import dedupe, S
from facts import Broken


class Rows(ledger.Interp):
    def __init__(self, F, cls, follow, recs, rows, amount, special=None):
        ledger.Interp.__init__(self, F, cls, follow, special)
        self.recs, self.rows, self.amount = "this." + recs, "this." + rows, amount
        self.rounds_seen = 0
        self.ends = []          # (state at the beginning of a round, state at its end)

    # ---- rows
    def size(self, s):
        return s.e.get("rows", 0)

    def norm(self, s, x):
        """position of a row, relative to the last one when the number of rows is known"""
        if x and x[0] == "c" and isinstance(self.size(s), int):
            return ("last", x[1] - (self.size(s) - 1))
        return x

    def shift(self, s):
        """a row is added: what was the last one no longer is"""
        n = self.size(s)
        sh = lambda x: ("last", x[1] - 1) if isinstance(x, tuple) and x and x[0] == "last" else x
        for q, v in list(s.v.items()):
            if v and v[0] == "last":
                s.v[q] = sh(v)
            elif v and v[0] in ("row", "rf"):
                s.v[q] = (v[0], sh(v[1])) + tuple(v[2:])
        for q, b in list(s.k.items()):
            if q[0] == "eq":
                del s.k[q]
                s.k[("eq", sh(q[1])) + tuple(q[2:])] = b
        s.e["new"] = tuple((sh(r), v) for r, v in s.e.get("new", ()))
        s.e["rows"] = n + 1 if isinstance(n, int) and n < 2 else "+"

    def prim(self, f, i, last, cid, s, vs, loc):
        if cid != self.rows:
            if cid == self.recs and last in ("front", "back"):
                return [(s, ("el", "?"), None)]
            return ledger.Interp.prim(self, f, i, last, cid, s, vs, loc)
        n = self.size(s)
        if last == "size":
            return [(s, ("c", n) if isinstance(n, int) else ("last", 1), None)]
        if last == "empty":
            return [(s, ("c", int(n == 0)), None)]
        if last == "clear":
            s.e["rows"], s.e["new"] = 0, ()
            s.e.pop("stale", None)
            for q in [q for q in s.k if q[0] == "eq"]:
                del s.k[q]
            return [(s, None, None)]
        if last in ("reserve", "capacity", "shrink_to_fit"):
            return [(s, None, None)]
        if last in ("push_back", "emplace_back") and len(vs) == 1:
            if vs[0] != ("el", "P"):
                if vs[0] == ("el", "?") or vs[0] and vs[0][0] == "row":
                    self.note("other|" + f.qn, loc, "a row is made from another record than the one at hand")
                    return [(s, None, None)]
                raise Broken("%s: a row is made from something this analysis does not know" % loc)
            self.shift(s)
            s.e["new"] = s.e.get("new", ()) + ((("last", 0), 1),)
            s.e["delta"] = min(5, s.e.get("delta", 0) + 1)
            return [(s, None, None)]
        if last in ("back", "front"):
            return [(s, ("row", ("last", 0) if last == "back" else self.norm(s, ("c", 0))), None)]
        if last in ("begin", "end", "rbegin", "rend", "cbegin", "cend"):
            return [(s, (last.lstrip("c") if last[0] == "c" else last, cid), None)]
        if last == "at" and vs:
            return [(s, self.at(s, ("obj", cid), vs[0]), None)]
        raise Broken("%s: %s of the rows is not followed" % (loc, last))

    def deref(self, s, v, loc):
        if v and v[0] in ("rbegin",) and v[1] == self.rows:
            return ("row", ("last", 0))
        if v and v[0] == "riter":
            return ("row", v[1])
        if v and v[0] in ("begin", "end") and v[1] == self.rows:
            if v[0] == "begin":
                return ("row", self.norm(s, ("c", 0)))
            raise Broken("%s: past the rows" % loc)
        if v and v[0] in ("row",):
            return v
        return ledger.Interp.deref(self, s, v, loc)

    def arith(self, s, a, b, op):
        if a and b and op in ("+", "-"):
            if a[0] == "last" and b[0] == "c":
                return ("last", a[1] + (b[1] if op == "+" else -b[1]))
            if a[0] == "end" and a[1] == self.rows and b[0] == "c" and op == "-":
                return ("riter", ("last", 1 - b[1]))
            if a[0] == "begin" and a[1] == self.rows and b[0] in ("c", "last") and op == "+":
                return ("riter", self.norm(s, b))
        return ledger.Interp.arith(self, s, a, b, op)

    def step(self, s, v, by, txt, loc):
        if v and v[0] == "last":
            return ("last", v[1] + by)
        return ledger.Interp.step(self, s, v, by, txt, loc)

    def at(self, s, b, x):
        if b and b[0] == "obj" and b[1] == self.rows:
            x = self.norm(s, x)
            if x is None:
                return ("row", None)
            if x[0] == "last" and x[1] > 0 or self.size(s) == 0:
                self.note("beyond", "", "a row is used that does not exist")
            return ("row", x)
        if b and b[0] == "obj" and b[1] == self.recs:
            return ("el", "P") if x and x[0] == "idx" and x[2] == 0 else ("el", "?")
        return ledger.Interp.at(self, s, b, x)

    def field(self, s, b, n):
        if b and b[0] == "row":
            nm = n.get("n", "").split("::")[-1]
            return ("rf", b[1], nm)
        return ledger.Interp.field(self, s, b, n)

    def compare(self, s, a, b, op, txt):
        if a and b:
            for x, y in ((a, b), (b, a)):
                if x[0] == "last" and y == ("c", 0) and x[1] >= 1:          # the number of rows against none
                    o = op if x is a else {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
                    return [(s, {"==": False, "!=": True, "<": False, ">": True, "<=": False, ">=": True}[o], None)]
            if a[0] == b[0] == "last":
                x, y = a[1], b[1]
                return [(s, {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op], None)]
            for x, y in ((a, b), (b, a)):
                if x[0] == "rf" and y[0] == "attr":
                    if op in ("==", "!=") and x[2] == y[2]:
                        new = [v for r, v in s.e.get("new", ()) if r == x[1] and r is not None]
                        if new:
                            return [(s, (op == "=="), None)]
                        return [(t, v == (op == "=="), fl) for t, v, fl in self.decide(s, ("eq", x[1], x[2]))]
        return ledger.Interp.compare(self, s, a, b, op, txt)

    # ---- what is added
    def rowfield(self, f, fr, i, s, d):
        while f.k(i) in ("Cast", "Paren") and f.c(i):
            i = f.c(i)[0]
        n, c = f.n(i), f.c(i)
        if n["k"] != "Member" or n.get("n", "").split("::")[-1] != self.amount:
            return None
        b = self.ex(f, fr, c[0], s, d)[0][1] if c else s.v.get((fr, "this"))
        if b and b[0] == "row":
            return b
        if b is None:
            raise Broken("%s: %s of something this analysis does not know" % (f.loc(i), self.amount))
        return None

    def adds(self, s, row, by):
        s = s.copy()
        if row[1] is None or (row[1][0] == "c" and self.size(s) == "+"):
            s.e["anyrow"] = True
        s.e["delta"] = max(-5, min(5, s.e.get("delta", 0) + by))
        s.e["new"] = tuple((r, v + by if r == row[1] else v) for r, v in s.e.get("new", ()))
        s.e["to"] = row[1]
        return s

    def sets(self, s, row, val, loc):
        new = [v for r, v in s.e.get("new", ()) if r == row[1] and r is not None]
        s = s.copy()
        if not new:
            self.note("over|" + loc, loc, "what a row has counted so far is written over")
            return s
        s.e["delta"] = max(-5, min(5, s.e.get("delta", 0) + val - new[-1]))
        s.e["new"] = tuple((r, val if r == row[1] else v) for r, v in s.e["new"])
        return s

    def unary(self, f, fr, i, n, c, s, d):
        if "++" in n["op"] or "--" in n["op"]:
            r = self.rowfield(f, fr, c[0], s, d)
            if r:
                return [(self.adds(s, r, 1 if "++" in n["op"] else -1), None, None)]
        return ledger.Interp.unary(self, f, fr, i, n, c, s, d)

    def binary(self, f, fr, i, n, c, s, d):
        op = n["op"]
        if op in ("=", "+=", "-="):
            r = self.rowfield(f, fr, c[0], s, d)
            if r:
                out = []
                for t, v, fl in self.ex(f, fr, c[1], s, d):
                    x = v[1] if v and v[0] == "c" else (1 if v and v[:2] == ("attr", "P") and v[2] == self.amount else None)
                    if op == "=" and x is None:
                        y = c[1]
                        while f.k(y) in ("Cast", "Paren") and f.c(y):
                            y = f.c(y)[0]
                        if f.k(y) == "Binary" and f.n(y)["op"] == "+":
                            for p, q in (f.c(y), f.c(y)[::-1]):
                                if self.rowfield(f, fr, p, t, d) == r:
                                    w = self.ex(f, fr, q, t, d)[0][1]
                                    if w and w[0] == "c":
                                        t = self.adds(t, r, w[1])
                                        x = False
                    if x is False:
                        pass
                    elif x is None:
                        raise Broken("%s: %s gets a value this analysis does not know" % (f.loc(i), self.amount))
                    elif op == "=":
                        t = self.sets(t, r, x, f.loc(i))
                    else:
                        t = self.adds(t, r, x if op == "+=" else -x)
                    out.append((t, None, fl))
                return out
        return ledger.Interp.binary(self, f, fr, i, n, c, s, d)

    def switch(self, f, fr, n, c, s, d):
        body = c[-1]
        ks = f.c(body) if f.k(body) == "Block" else [body]
        flat = []
        for x in ks:
            labs = []
            while f.k(x) in ("Case", "Default", "CaseStmt", "DefaultStmt"):
                labs.append(None if f.k(x).startswith("Default") else f.c(x)[0])
                x = f.c(x)[-1]
            flat.append((labs, x))
        out = []
        for t, v, fl in self.ex(f, fr, c[-2], s, d):
            if fl or not v or v[0] != "c":
                return ledger.Interp.switch(self, f, fr, n, c, s, d)
            at = None
            for j, (labs, x) in enumerate(flat):
                if any(l is not None and self.ex(f, fr, l, t, d)[0][1] == v for l in labs):
                    at = j
                    break
            if at is None:
                at = next((j for j, (labs, x) in enumerate(flat) if None in labs), None)
            if at is None:
                out.append((t, None))
                continue
            for u, fl2 in self.seq(f, fr, [x for _, x in flat[at:]], t, d):
                out.append((u, None if fl2 == ("break",) else fl2))
        return ledger.uniq(out)

    # ---- rounds
    def over(self, f, fr, i, w, cond, inc, stmts, s, d):
        p, cid, kind, cmpx = w
        if cid == self.rows:
            raise Broken("%s: a walk over the rows is not followed" % f.loc(i))
        if cid != self.recs:
            return ledger.Interp.over(self, f, fr, i, w, cond, inc, stmts, s, d)
        self.rounds_seen += 1
        if kind == "late":
            self.note("late|" + f.qn, f.loc(i), "the walk over the losses does not begin at the first one")
            kind = "it" if s.v.get(p) and s.v[p][0] == "it" else "idx"
        others = [x for x in self.conj(f, cond) if x != cmpx]
        out = []

        def body(t):
            t = t.copy()
            t.v[p] = ("it", cid, "P", 0) if kind == "it" else ("idx", "P", 0)
            t.e["delta"], t.e["new"] = 0, ()
            t.e.pop("to", None)
            t.e.pop("anyrow", None)
            for q in [q for q in t.k if q[0] == "eq"]:
                del t.k[q]
            self.focus.append("P")
            ends = []
            try:
                cur = [t]
                for x in others:
                    nxt = []
                    for u in cur:
                        for u2, b, fl in self.tru(f, fr, x, u, d):
                            if b and not fl:
                                nxt.append(u2)
                            else:
                                self.note("stop|" + f.qn, f.loc(i), "the walk over the losses may end before the last one")
                                out.append((u2, fl))
                    cur = nxt
                for u in cur:
                    for u2, fl in self.seq(f, fr, [x for x in stmts if x is not None and x >= 0], u, d):
                        if fl is None or fl == ("continue",):
                            if inc is not None and inc >= 0:
                                for u3, v, fl3 in self.ex(f, fr, inc, u2, d):
                                    ends.append(u3)
                            else:
                                ends.append(u2)
                        else:
                            if fl[0] != "throw":
                                self.note("stop|" + f.qn, f.loc(i), "the walk over the losses may end before the last one")
                            out.append((u2, None if fl == ("break",) else fl))
            finally:
                self.focus.pop()
            ends = dedupe(ends)
            for e in ends:
                v = e.v.get(p)
                if not (v and v[0] in ("it", "idx") and v[-1] == 1):
                    self.note("step|" + f.qn, f.loc(i), "on one path the walk over the losses does not go on to the next one")
                self.ends.append((t, e))
            return ends

        def rel(e, how):
            """the end of a round as the beginning of another, with any number of rows"""
            e = e.copy()
            n = self.size(e)
            for q, v in list(e.v.items()):
                if isinstance(n, int) and v and v[0] == "c" and how.get(q, "last") == "last" and not isinstance(v[1], float):
                    e.v[q] = ("last", v[1] - (n - 1))
                elif how.get(q) == "any":
                    e.v[q] = None
            if n != 0:
                e.e["rows"] = "+"
            for k in ("delta", "new", "to", "anyrow"):
                e.e.pop(k, None)
            for q in [q for q in e.k if q[0] == "eq"]:
                del e.k[q]
            e.v[p] = None
            return e

        if self.size(s) == "+":
            s.e["stale"] = True
            self.note("stale|" + f.qn, f.loc(i), "the rows of an earlier report are still there when the losses are entered")
        first = body(s)
        how = {}
        for x in list(s.v):
            e0 = {e.v.get(x) for e in first}
            if e0 == {s.v.get(x)} and s.v.get(x) and s.v[x][0] == "c":
                how[x] = "last"
        rest, empty = [], [e for e in first if self.size(e) == 0]
        firsts = [e for e in first if self.size(e) != 0]
        for _ in range(12):
            start = dedupe([rel(e, how) for e in firsts])
            if not start:
                break
            if len(start) > 1:
                vals = {}
                for e in start:
                    for q, v in e.v.items():
                        vals.setdefault(q, set()).add(v)
                bad = [q for q, x in vals.items() if len(x) > 1]
                if bad:
                    for q in bad:
                        how[q] = "any" if how.get(q) == "const" else "const"
                    continue
            n0 = len(self.ends)
            rest = [e for t in start for e in body(t)]
            bad = set()
            for t in start:
                for e in rest:
                    e2 = rel(e, {q: ("any" if h == "any" else "const") for q, h in how.items()})
                    for q, v in t.v.items():
                        if e2.v.get(q) != v and q != p:
                            bad.add(q)
            if not bad:
                break
            del self.ends[n0:]
            for q in bad:
                how[q] = "any" if how.get(q) == "const" else "const"
        else:
            raise Broken("%s: the rounds do not settle" % f.loc(i))
        for e in [s] + first + rest:
            e = e.copy()
            e.v[p] = ("end", cid)
            for k in ("delta", "new", "to"):
                e.e.pop(k, None)
            for q in [q for q in e.k if q[0] == "eq"]:
                del e.k[q]
            out.append((e, None))
        return ledger.uniq(out)
