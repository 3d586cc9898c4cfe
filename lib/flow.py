"""Canonical expressions and a disjunctive (path-sensitive) dataflow engine over a function's CFG.

A state is (client state, env): env maps canonical boolean atoms to the truth value known on this path,
so that two branches on the same unchanged condition are correlated. The engine explores the finite set
of reachable (block, state) pairs; when one block collects too many, env is dropped there (which only
adds paths)."""
from facts import Broken

NEG = {"!=": "==", ">=": "<", "<=": ">"}


def strip(f, i):
    """skip value-preserving wrappers"""
    while i is not None and i >= 0 and f.k(i) in ("Cast",) and f.n(i).get("c"):
        i = f.c(i)[0]
    return i


def ref_inits(f):
    """var -> init node for reference-typed locals (they stand for what they are bound to)"""
    r = getattr(f, "_par", None) and f.d.get("_refs")
    if f.load().get("_refs") is None:
        m = {}
        for i in f.walk():
            if f.k(i) == "Decl":
                for v, init, _ in f.n(i)["d"]:
                    if v >= 0 and init >= 0 and f.vars[v][1].rstrip().endswith("&"):
                        m[v] = init
        f.d["_refs"] = m
    return f.d["_refs"]


def canon(f, i, depth=0):
    """structural form of an expression with resolved names; None when it has effects or is too deep"""
    if i is None or i < 0 or depth > 14:
        return None
    n = f.n(i)
    k = n["k"]
    c = n.get("c", ())
    if "iv" in n and k != "Ref":
        return ("int", int(n["iv"]))
    if k == "Ref":
        if "v" in n:
            v = n["v"]
            ri = ref_inits(f).get(v)
            if ri is not None and f.k(ri) in ("Ref", "Member", "Unary", "Index", "Call", "Cast"):
                a = canon(f, ri, depth + 1)
                if a is not None and not (f.k(ri) == "Call" and a[0] == "call"):
                    return a
            return ("v", v)
        if "g" in n:
            return ("g", n["g"])
        if "f" in n:
            return ("fn", n["f"])
        if "en" in n:
            return ("en", n["en"])
        return None
    if k == "This":
        return ("this",)
    if k in ("Int", "Bool", "Char"):
        v = n["v"]
        return ("int", int(v) if not isinstance(v, bool) else int(v))
    if k == "Float":
        return ("flt", n["v"])
    if k == "Str":
        return ("str", n["v"])
    if k == "Null":
        return ("int", 0)
    if k == "Cast":
        return canon(f, c[0], depth + 1) if c else None
    if k == "Member":
        if n.get("fld") is None:
            return None
        b = canon(f, c[0], depth + 1) if c else None
        if b is None:
            return None
        if n.get("arrow"):
            b = ("*", b) if b != ("this",) else b
            if b[0] == "*" and b[1][0] == "&":
                b = b[1][1]
        elif b == ("*", ("this",)):
            b = ("this",)
        return ("m", n["fld"], b)
    if k == "Unary":
        op = n["op"]
        if "++" in op or "--" in op:
            return None
        a = canon(f, c[0], depth + 1)
        if a is None:
            return None
        if op == "*" and a[0] == "&":
            return a[1]
        if op == "*" and a == ("this",):
            return ("this",)
        if op == "&" and a[0] == "*":
            return a[1]
        if op == "+":
            return a
        if op == "-" and a[0] == "int":
            return ("int", -a[1])
        return (op, a)
    if k in ("Binary",):
        if n["op"] in ("=", ","):
            return None
        a, b = canon(f, c[0], depth + 1), canon(f, c[1], depth + 1)
        if a is None or b is None:
            return None
        if n["op"] in ("==", "!=", "+", "*", "&&", "||") and repr(b) < repr(a) and n["op"] not in ("&&", "||"):
            a, b = b, a
        return ("b" + n["op"], a, b)
    if k == "Index":
        a, b = canon(f, c[0], depth + 1), canon(f, c[1], depth + 1)
        return None if a is None or b is None else ("[]", a, b)
    if k == "Call":
        if n.get("indirect"):
            return None
        fn = n.get("f")
        a = [canon(f, x, depth + 1) for x in c]
        if any(x is None for x in a):
            return None
        if n.get("op") in ("==", "!=") and len(a) == 2:
            x, y = a
            if repr(y) < repr(x):
                x, y = y, x
            return ("b" + n["op"], x, y)
        if n.get("op") == "*" and len(a) == 1:
            return ("*", a[0])
        if n.get("op") == "->" and len(a) == 1:
            return ("*", a[0])
        if n.get("op") == "!" and len(a) == 1:
            return ("!", a[0])
        if n.get("op") in ("=", "+=", "-=", "++", "--", "<<", ">>", "*=", "/=", "post++", "post--", "()"):
            return None
        return ("call", fn) + tuple(a)
    if k == "Construct":
        if (n.get("copy") or n.get("move")) and c:
            return canon(f, c[0], depth + 1)
        if len([x for x in c if x >= 0]) == 1:
            return canon(f, c[0], depth + 1)
        return None
    if k == "Cond":
        a = [canon(f, x, depth + 1) for x in c]
        return None if any(x is None for x in a) else ("?",) + tuple(a)
    return None


def atom(f, i):
    """(atom, polarity) of a condition; atom None when it cannot be named"""
    i = strip(f, i)
    if i is None or i < 0:
        return None, True
    n = f.n(i)
    if n["k"] == "Unary" and n["op"] == "!":
        a, p = atom(f, f.c(i)[0])
        return a, not p
    if n["k"] == "Binary" and n["op"] == "=":
        return atom(f, f.c(i)[0])
    if n["k"] == "Call" and n.get("obj") and n.get("fn", "").endswith("::operator bool") and len(f.c(i)) == 1:
        a = canon(f, f.c(i)[0])
        return (a, True) if a else (None, True)
    return catom(canon(f, i))


def catom(a):
    if a is None:
        return None, True
    if a[0] == "!":
        x, p = catom(a[1])
        return x, not p
    if a[0] in ("b==", "b!="):
        pol = a[0] == "b=="
        x, y = a[1], a[2]
        for p, q in ((x, y), (y, x)):
            if q == ("int", 0):
                z, zp = catom(p)
                return z, (not zp) if pol else zp
        return ("b==", x, y), pol
    if a[0] == "b>=":
        return ("b<", a[1], a[2]), False
    if a[0] == "b<=":
        return ("b<", a[2], a[1]), False
    if a[0] == "b>":
        return ("b<", a[2], a[1]), True
    return a, True


def mentions(a, what):
    if a == what:
        return True
    return isinstance(a, tuple) and any(isinstance(x, tuple) and mentions(x, what) for x in a)


def subst(a, old, new):
    if a == old:
        return new
    if isinstance(a, tuple):
        r = tuple(subst(x, old, new) if isinstance(x, tuple) else x for x in a)
        if r[0] == "b==":
            r = ("b==",) + tuple(sorted(r[1:], key=repr))
        return r
    return a


def has_memory(a):
    """depends on memory other than local variables"""
    if not isinstance(a, tuple):
        return False
    if a and a[0] in ("m", "g", "*", "[]", "call"):
        return True
    return any(has_memory(x) for x in a if isinstance(x, tuple))


PURE_STD = ("size", "empty", "begin", "end", "front", "back", "find", "count", "length", "c_str", "at", "operator[]",
            "operator==", "operator!=", "operator<", "good", "eof", "fail", "is_open", "first", "second", "get",
            "rbegin", "rend", "cbegin", "cend", "fabs", "abs", "sqrt", "max", "min", "pow", "sin", "cos", "tan", "exp", "log")


FULL = ("Block", "If", "While", "Do", "For", "RangeFor", "Switch", "Case", "Default", "Label", "Try", "Catch")


def is_sc(a):
    return a[0] == "sc"


class Env(object):
    """immutable map atom -> bool"""
    __slots__ = ("m", "h")

    def __init__(self, m=()):
        self.m = frozenset(m)
        self.h = hash(self.m)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self.m == o.m

    def get(self, a):
        if (a, True) in self.m:
            return True
        if (a, False) in self.m:
            return False
        return None

    def set(self, a, v):
        return Env([x for x in self.m if x[0] != a] + [(a, v)])

    def sc(self):
        return any(is_sc(x[0]) for x in self.m)

    def kill(self, pred):
        r = [x for x in self.m if not pred(x[0])]
        return self if len(r) == len(self.m) else Env(r)


class Flow(object):
    CAP = 400

    def __init__(self, F, fn, client=None, ctx=None):
        self.F, self.fn, self.client, self.ctx = F, fn, client, ctx
        self.returns = set()     # (ust, retkey) ; retkey: ('bool',v) | canonical | None
        self.throws = set()
        self.falls = set()       # states that reach the end of the body without a return statement
        self.where = {}          # exit state -> a sample node
        self.states = 0
        self.taken = address_taken(fn)

    # ---- client hooks
    def node(self, i, ust, env):
        """-> list of (ust, env) or None (default effect on env)"""
        return None

    def on_edge(self, cond, pol, ust, env):
        return ust

    def on_return(self, i, ust, env):
        return ust

    def call_pure(self, n):
        """the call changes nothing an atom may mention"""
        if n.get("f") in self.F.method_decl and self.F.method_decl[n["f"]][1].get("const"):
            return True
        nm = (n.get("fn") or "").split("::")[-1]
        if nm in PURE_STD:
            return True
        fn = n.get("fn") or ""
        return fn.startswith("std::") and ("operator<<" in fn or "endl" in fn or "setw" in fn or "setprecision" in fn)

    def effect(self, i, env):
        """default effect of one node on env"""
        f = self.fn
        n = f.n(i)
        k = n["k"]
        if k == "Decl":
            for v, init, _ in n["d"]:
                if v >= 0:
                    env = self.assign(("v", v), init, env)
            return env
        if (k == "Binary" and n["op"] == "=") or (k == "Call" and n.get("op") == "=" and len(f.c(i)) == 2):
            return self.assign(canon(f, f.c(i)[0]), f.c(i)[1], env)
        if k == "CompoundAssign" or (k == "Unary" and ("++" in n["op"] or "--" in n["op"])) or \
                (k == "Call" and n.get("op") in ("+=", "-=", "*=", "/=", "++", "--", "post++", "post--", ">>")):
            tgt = f.c(i)[1] if n.get("op") == ">>" and len(f.c(i)) == 2 else f.c(i)[0]
            return self.assign(canon(f, tgt), None, env)
        if k == "Delete":
            return env
        if k == "Call" or k == "Construct":
            args = f.c(i)
            pt = n.get("pt", [])
            off = 1 if n.get("obj") else 0
            pure = k == "Construct" or self.call_pure(n)
            for j, a in enumerate(args):
                if a < 0:
                    continue
                if j < off:
                    if not pure:
                        cc = canon(f, a)
                        if cc is not None:
                            env = env.kill(lambda x: mentions(x, cc))
                    continue
                t = pt[j - off] if j - off < len(pt) else ""
                t = t.strip()
                if (t.endswith("&") or t.endswith("*")) and not t.startswith("const "):
                    a2 = strip(f, a)
                    cc = canon(f, a2)
                    if cc is not None and cc[0] == "&":
                        cc = cc[1]
                    if cc is not None and (t.endswith("&") or f.k(a2) == "Unary"):
                        env = env.kill(lambda x: mentions(x, cc))
            if not pure:
                tk = self.taken
                env = env.kill(lambda x: has_memory(x) or any(mentions(x, ("v", v)) for v in tk))
            return env
        return env

    def assign(self, lv, rhs, env):
        f = self.fn
        val = None
        if rhs is not None and rhs >= 0 and lv is not None:
            val = self.truth(rhs, env)
        copies = []
        if lv is None:
            env = env.kill(has_memory)
        else:
            if val is None and rhs is not None and rhs >= 0:
                # copy of a value with known facts: keep the truth value
                a, p = atom(f, rhs)
                if a is not None:
                    v = env.get(a)
                    if v is not None:
                        val = v if p else not v
            env = env.kill(lambda x: mentions(x, lv) or (lv[0] in ("*", "[]", "m") and lv[0] != "m" and has_memory(x) and not isinstance(x, str) and x[0] not in ("m",)))
            if rhs is not None and rhs >= 0:
                src = canon(f, rhs)
                if src is not None and src[0] in ("v", "m", "g") and not mentions(src, lv):
                    for (b, t) in list(env.m):
                        if b[0] in ("b<", "b==") and mentions(b, src):
                            env = env.set(subst(b, src, lv), t)
            if val is not None:
                env = env.set(lv, val)
            if rhs is not None and rhs >= 0:
                r = canon(f, rhs)
                if r is not None and r[0] in ("int", "en", "str"):
                    env = env.set(("b==",) + tuple(sorted((lv, r), key=repr)), True)
        return env

    def truth(self, i, env):
        """statically known truth of a value"""
        f = self.fn
        i = strip(f, i)
        n = f.n(i)
        if "iv" in n:
            return bool(int(n["iv"]))
        k = n["k"]
        if k in ("Bool", "Int"):
            return bool(int(n["v"]))
        if k == "Null":
            return False
        if (("sc", i), True) in env.m:
            return True
        if (("sc", i), False) in env.m:
            return False
        if k == "New" or k == "This":
            return True
        if k == "Unary" and n["op"] == "&":
            return True
        if k == "Unary" and n["op"] == "!":
            t = self.truth(f.c(i)[0], env)
            return None if t is None else not t
        if k == "Binary" and n["op"] in ("&&", "||"):
            l, r = (self.truth(x, env) for x in f.c(i))
            if n["op"] == "&&":
                return False if l is False or r is False else True if l and r else None
            return True if l or r else False if l is False and r is False else None
        a, p = atom(f, i)
        if a is not None:
            v = env.get(a)
            if v is None:
                v = self.derive(a, env)
            if v is not None:
                return v if p else not v
        return None

    @staticmethod
    def derive(a, env):
        """an equality with one literal excludes the others"""
        if a[0] == "int":
            return bool(a[1])
        if a[0] == "b==":
            for x, y in ((a[1], a[2]), (a[2], a[1])):
                if y[0] in ("int", "en", "str"):
                    for (b, v) in env.m:
                        if v and b[0] == "b==":
                            for p, q in ((b[1], b[2]), (b[2], b[1])):
                                if p == x and q[0] == y[0] and q != y:
                                    return False
            if a[1] == a[2]:
                return True
        if a[0] in ("b<", "b=="):
            x, y = Flow.known_int(a[1], env), Flow.known_int(a[2], env)
            if x is not None and y is not None:
                return x < y if a[0] == "b<" else x == y
        return None

    @staticmethod
    def known_int(x, env):
        if x[0] == "int":
            return int(x[1])
        for (b, t) in env.m:
            if t and b[0] == "b==":
                if b[1] == x and b[2][0] == "int":
                    return int(b[2][1])
                if b[2] == x and b[1][0] == "int":
                    return int(b[1][1])
            elif not t and b == x:
                return 0
        return None

    # ---- driver
    def run(self, ust, env=None):
        f = self.fn
        B = f.blocks()
        if B is None:
            raise Broken("no control-flow graph for %s" % f.qn)
        g = f.cfg
        region = getattr(self, "region", None)      # (start block, blocks): one round of a loop only
        if region:
            self.rounds, self.leaves = set(), set()
        start = (region[0] if region else str(g["entry"]), ust, env or Env())
        seen = {start}
        count = {}
        work = [start]
        while work:
            b, u, e = work.pop()
            self.states += 1
            for (nb, u2, e2) in self.block(b, B[b], u, e):
                if region and (nb == region[0] or nb not in region[1]):
                    (self.rounds if nb == region[0] else self.leaves).add(u2)
                    self.where[("leave", u2)] = b
                    continue
                if count.get(nb, 0) > self.CAP:
                    e2 = Env()
                s = (nb, u2, e2)
                if s not in seen:
                    if self.states > 60000:
                        raise Broken("state explosion in %s" % f.qn)
                    seen.add(s)
                    count[nb] = count.get(nb, 0) + 1
                    work.append(s)
        return self

    def block(self, bid, blk, u, e):
        f = self.fn
        g = f.cfg
        elems, term, cond, succs, label, noret = blk
        states = [(u, e)]
        for el in elems:
            nxt = []
            for (u1, e1) in states:
                if isinstance(el, list):
                    r = self.init(el[1], u1, e1)
                else:
                    k = f.k(el)
                    if k == "Return":
                        c = f.c(el)
                        rv = None
                        if c:
                            t = self.truth(c[0], e1) if "bool" in str(f.ret) or "*" in str(f.ret) else None
                            rv = ("bool", t) if t is not None else canon(f, c[0])
                        u1 = self.on_return(el, u1, e1)
                        self.returns.add((u1, rv))
                        self.where[(u1, rv)] = el
                        continue
                    r = self.node(el, u1, e1)
                    if k == "Throw":
                        for (u2, e2) in (r if r is not None else [(u1, e1)]):
                            self.throws.add(u2)
                            self.where[("throw", u2)] = el
                        continue
                    if r is None:
                        r = [(u1, self.effect(el, e1))]
                if not isinstance(el, list) and any(x[1].sc() for x in r) and (f.k(el) == "Decl" or f.k(f.parents.get(el, -1)) in FULL):
                    r = [(x[0], x[1].kill(is_sc)) for x in r]
                nxt.extend(r)
            states = list(dict.fromkeys(nxt))
            if not states:
                break
        out = []
        cond0 = cond
        if noret:
            return out
        for (u1, e1) in states:
            if not succs:
                continue
            if len(succs) == 2 and cond is not None and cond >= 0 and (term < 0 or f.k(term) != "Switch"):
                cond = self.operand(cond0, elems, e1)
                t = self.truth(cond, e1)
                a, p = atom(f, cond)
                for idx, pol in ((0, True), (1, False)):
                    s = succs[idx]
                    if s is None or (t is not None and t != pol):
                        continue
                    e2 = e1
                    if a is not None:
                        e2 = e2.set(a, pol if p else not pol)
                    if term >= 0 and f.k(term) == "Binary":
                        e2 = e2.set(("sc", strip(f, cond)), pol)       # what a short-circuit operand was, until its expression is complete
                    elif e2.sc():
                        e2 = e2.kill(is_sc)
                    u2 = self.on_edge(cond, pol, u1, e2)
                    if u2 is None:
                        continue
                    out.append((str(s), u2, e2))
            elif term is not None and term >= 0 and f.k(term) == "Switch" and cond is not None and cond >= 0:
                ca = canon(f, cond)
                for s in succs:
                    if s is None:
                        continue
                    e2 = e1
                    lab = f.blocks()[str(s)][4]
                    if lab is not None and lab >= 0 and f.k(lab) == "Case" and ca is not None:
                        lv = canon(f, f.c(lab)[0])
                        if lv is not None:
                            at = ("b==",) + tuple(sorted((ca, lv), key=repr))
                            kv = e2.get(at)
                            if kv is None:
                                kv = self.derive(at, e2)
                            if kv is False:
                                continue
                            e2 = e2.set(at, True)
                    u2 = u1
                    if lab is not None and lab >= 0 and f.k(lab) == "Case":
                        u2 = self.on_case(cond, lab, u1, e2)
                    out.append((str(s), u2, e2))
            else:
                for s in succs:
                    if s is not None:
                        out.append((str(s), u1, e1))
        ex = str(g["exit"])
        for x in out:
            if x[0] == ex:
                ub = self.on_return(-1, x[1], x[2])
                self.returns.add((ub, None))
                self.where.setdefault((ub, None), -1)
                self.falls.add(ub)
        return [x for x in out if x[0] != ex]

    def on_case(self, cond, lab, u, env):
        return u

    def operand(self, cond, elems, e):
        """the operand of a short-circuit condition that decides in this block: the right one once the left is known to
        leave it open"""
        f = self.fn
        while True:
            i = strip(f, cond)
            n = f.n(i)
            if n["k"] != "Binary" or n["op"] not in ("&&", "||"):
                return cond
            l, r = f.c(i)
            t = self.truth(l, e)
            if t is (n["op"] == "&&") or t is None and strip(f, r) in elems and strip(f, l) not in elems:
                cond = r
            else:
                return cond

    def init(self, idx, u, e):
        return [(u, e)]


def address_taken(f):
    out = set()
    for i in f.walk():
        n = f.n(i)
        if n["k"] == "Unary" and n["op"] == "&":
            j = strip(f, f.c(i)[0])
            if f.k(j) == "Ref" and "v" in f.n(j):
                out.add(f.n(j)["v"])
        if n["k"] == "Lambda":
            for cap in n.get("caps", ()):
                if isinstance(cap, (list, tuple)) and len(cap) == 3 and cap[1]:
                    out.add(cap[2])
    return out
