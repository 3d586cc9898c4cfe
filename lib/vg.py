"""Value graphs: every result of a function as a gated expression over the values its inputs had on entry.

A function body is translated, statement by statement, into one shared graph (arithmetic in polynomial normal form,
branches as gates, loops as cyclic nodes, small library functions in place). Nothing is executed and no path is
enumerated; clients read properties off the graph by rewriting it (setting an input to zero, changing its sign) and
comparing normal forms, or by collecting what a result depends on."""
from fractions import Fraction
from flow import strip

LIMIT = 1500      # terms in one polynomial
MATH = {"sin", "cos", "tan", "sqrt", "fabs", "abs", "exp", "log", "log10", "pow", "atan", "atan2", "asin", "acos", "sinh", "cosh", "tanh", "min", "max", "floor", "ceil",
        "isnan", "isinf", "isfinite", "hypot", "erf", "erfc", "fmod", "round", "cbrt", "copysign", "fmin", "fmax"}
PURE_METHODS = {"size", "empty", "begin", "end", "cbegin", "cend", "count", "find", "length", "c_str", "get"}


class V(object):
    __slots__ = ("op", "args", "id", "_k")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *args):
    k = (op,) + args
    v = _tab.get(k)
    if v is None:
        v = V()
        v.op, v.args, v.id = op, args, len(_tab)
        _tab[k] = v
    return v


def show(v, d=0):
    if not isinstance(v, V):
        return str(v).split("@FI@")[-1].split("@")[-1]
    if d > 12:
        return "..."
    if v.op == "num":
        return str(float(v.args[0])) if v.args[0].denominator != 1 else str(v.args[0].numerator)
    if v.op == "poly":
        out = []
        for m, c in v.args[0]:
            t = "*".join(show(a, d + 1) + ("" if e == 1 else "^%d" % e) for a, e in m)
            out.append((str(c) + "*" if c != 1 or not t else "") + t)
        return "(" + " + ".join(out) + ")"
    if v.op == "in":
        return show(v.args[0], d + 1)
    if v.op in ("this", "param", "loc", "g"):
        return v.op + ":" + "".join(str(a).split("@")[-1] for a in v.args[-1:]) if v.args else v.op
    if v.op == "fld":
        return show(v.args[0], d + 1) + "." + v.args[1].split("@")[-1]
    if v.op == "rec":
        return show(v.args[0], d + 1) + "{" + ", ".join("%s: %s" % (show(k[1], d + 1), show(x, d + 1)) for k, x in v.args[1]) + "}"
    if v.op == "str":
        return '"%s"' % v.args[0]
    return v.op + "(" + ", ".join(show(a, d + 1) for a in v.args) + ")"


def num(c):
    return mk("num", Fraction(c))


ZERO, ONE = num(0), num(1)
TRUE, FALSE = ONE, ZERO


# ------------------------------------------------------------------ arithmetic
def terms(v):
    if v.op == "num":
        return {(): v.args[0]} if v.args[0] else {}
    if v.op == "poly":
        return dict(v.args[0])
    return {((v, 1),): Fraction(1)}


def mkey(m):
    return tuple((a.id, e) for a, e in m)


def from_terms(t):
    t = {m: c for m, c in t.items() if c}
    if not t:
        return ZERO
    if len(t) == 1:
        m, c = next(iter(t.items()))
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return mk("poly", tuple(sorted(((m, c) for m, c in t.items()), key=lambda x: mkey(x[0]))))


def add(a, b, s=1):
    t = terms(a)
    for m, c in terms(b).items():
        t[m] = t.get(m, 0) + s * c
    return from_terms(t)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return from_terms({m: -c for m, c in terms(a).items()})


def mmul(a, b):
    d = {}
    for x, e in a + b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda p: p[0].id))


def mul(a, b):
    ta, tb = terms(a), terms(b)
    if len(ta) * len(tb) > LIMIT:
        return opaque("*", *sorted((a, b), key=lambda v: v.id))
    t = {}
    for m, c in ta.items():
        for n, d in tb.items():
            k = mmul(m, n)
            t[k] = t.get(k, 0) + c * d
    return from_terms(t)


def opaque(op, *args):
    return mk("f", op, *args)


def inv(a):
    t = terms(a)
    if len(t) == 1:
        m, c = next(iter(t.items()))
        return from_terms({tuple((x, -e) for x, e in m): 1 / c})
    if not t:
        return opaque("inv0")
    s, n = canonsign(a)
    return from_terms({((n, -1),): Fraction(s)}) if n.op == "poly" else None


def canonsign(a):
    """(sign, value) with a == sign * value and value's first coefficient positive"""
    t = terms(a)
    if not t:
        return 1, a
    m = min(t, key=mkey)
    return (1, a) if t[m] > 0 else (-1, neg(a))


def div(a, b):
    if b is ONE:
        return a
    i = inv(b)
    return mul(a, i)


def power(a, n):
    if n < 0:
        return inv(power(a, -n))
    if n > 12:
        return opaque("pow", a, num(n))
    r = ONE
    for _ in range(n):
        r = mul(r, a)
    return r


def fun(name, *a):
    if name in ("abs", "fabs"):
        if a[0].op == "num":
            return num(abs(a[0].args[0]))
        if a[0].op == "f" and a[0].args[0] in ("fabs", "sqrt"):
            return a[0]
        return opaque("fabs", canonsign(a[0])[1])
    if name in ("sin", "tan", "atan", "asin", "sinh", "tanh", "erf", "cbrt"):
        if a[0] is ZERO:
            return ZERO
        s, x = canonsign(a[0])
        r = opaque(name, x)
        return r if s > 0 else neg(r)
    if name in ("cos", "cosh"):
        return ONE if a[0] is ZERO else opaque(name, canonsign(a[0])[1])
    if name == "exp" and a[0] is ZERO:
        return ONE
    if name == "sqrt":
        if a[0] is ZERO or a[0] is ONE:
            return a[0]
        t = terms(a[0])
        if len(t) == 1:
            m, c = next(iter(t.items()))
            if c > 0 and m and all(e % 2 == 0 for _, e in m):
                import math
                rt = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
                if rt * rt == c:
                    return fun("fabs", from_terms({tuple((x, e // 2) for x, e in m): rt}))
    if name == "hypot" and len(a) == 2:
        return fun("sqrt", add(mul(a[0], a[0]), mul(a[1], a[1])))
    if name in ("pow",):
        if a[1].op == "num" and a[1].args[0].denominator == 1 and abs(a[1].args[0]) <= 12:
            return power(a[0], int(a[1].args[0]))
        if a[0] is ONE:
            return ONE
        if a[1].op == "num" and a[1].args[0] == Fraction(1, 2):
            return fun("sqrt", a[0])
    if name in ("min", "fmin", "max", "fmax"):
        name = name[-3:]
        s = set()
        for x in a:
            s |= set(x.args[1:]) if x.op == "f" and x.args[0] == name else {x}
        a = tuple(sorted(s, key=lambda v: v.id))
        if len(a) == 1:
            return a[0]
    if name == "atan2" and a[0] is ZERO and a[1] is ONE:
        return ZERO
    if name == "atan2" and a[0].op == "f" and a[1].op == "f" and (a[0].args[0], a[1].args[0]) == ("sin", "cos") and a[0].args[1] is a[1].args[1]:
        return a[0].args[1]        # an angle, up to whole turns
    return opaque(name, *a)


# ------------------------------------------------------------------ booleans
def cmp(op, a, b):
    """a op b as a sign test on a - b"""
    if op in (">", ">="):
        a, b, op = b, a, {">": "<", ">=": "<="}[op]
    d = sub(a, b)
    if op == "!=":
        return nt(cmp("==", a, b))
    t = terms(d)
    ph = [(m, c) for m, c in t.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "phi"]
    if len(ph) == 1 and not any(x is ph[0][0][0][0] for m, _ in t.items() if m is not ph[0][0] for x, _ in m):
        (m, c) = ph[0]
        q, a1, b1 = m[0][0].args
        rest = from_terms({k: v for k, v in t.items() if k is not m})
        if a1.op == "num" or b1.op == "num":
            return phi(q, cmp(op, add(rest, mul(num(c), a1)), ZERO), cmp(op, add(rest, mul(num(c), b1)), ZERO))
    if d.op == "num":
        x = d.args[0]
        return TRUE if (x < 0 if op == "<" else x <= 0 if op == "<=" else x == 0) else FALSE
    if op == "==":
        return mk("b", "==", canonsign(d)[1])
    if op == "<=":
        return nt(mk("b", "<", neg(d)))
    return mk("b", "<", d)


def truth(v):
    if v.op in ("b", "not", "and", "or"):
        return v
    if v.op == "num":
        return TRUE if v.args[0] else FALSE
    return mk("b", "t", v)


def nt(v):
    v = truth(v)
    if v is TRUE:
        return FALSE
    if v is FALSE:
        return TRUE
    if v.op == "not":
        return v.args[0]
    return mk("not", v)


def land(a, b):
    return lbool("and", a, b)


def lor(a, b):
    return lbool("or", a, b)


def other0(op):
    return "or" if op == "and" else "and"


def lmany(op, xs):
    r = TRUE if op == "and" else FALSE
    for x in sorted(xs, key=lambda v: v.id):
        r = lbool(op, r, x)
    return r


def lbool(op, a, b):
    a, b = truth(a), truth(b)
    unit, absorb = (TRUE, FALSE) if op == "and" else (FALSE, TRUE)
    s = set()
    for x in (a, b):
        if x is absorb:
            return absorb
        if x is unit:
            continue
        y = x
        other = "or" if op == "and" else "and"
        if x.op == "not" and x.args[0].op == other:
            s |= {nt(z) for z in x.args[0].args}
        elif y.op == op:
            s |= set(y.args)
        else:
            s.add(y)
    if not s:
        return unit
    if any(nt(x) in s for x in s):
        return absorb
    # what is decided by the other parts drops out of compound ones
    for x in list(s):
        if x.op == other0(op):
            inner = set(x.args)
        elif x.op == "not" and x.args[0].op == op:
            inner = {nt(y) for y in x.args[0].args}
        else:
            continue
        rest = s - {x}
        if inner & rest:
            s.discard(x)
            return lmany(op, s)
        left = {y for y in inner if nt(y) not in rest}
        if left != inner:
            s.discard(x)
            return lmany(op, s | {lmany(other0(op), left)})
    if len(s) == 1:
        return next(iter(s))
    return mk(op, *sorted(s, key=lambda v: v.id))


def phi(c, a, b):
    c = truth(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return phi(c.args[0], b, a)
    if a.op == "rec" or b.op == "rec":
        ra, rb = dict(rec_of(a)), dict(rec_of(b))
        ba, bb = base_of(a), base_of(b)
        base = phi(c, ba, bb)
        return rec(base, {k: phi(c, ra[k] if k in ra else sel(ba, k), rb[k] if k in rb else sel(bb, k)) for k in set(ra) | set(rb)})
    if a.op == "phi" and a.args[0] is c:
        a = a.args[1]
    if b.op == "phi" and b.args[0] is c:
        b = b.args[2]
    if isbool(a) and isbool(b):
        return lor(land(c, a), land(nt(c), b))
    return a if a is b else mk("phi", c, a, b)


def isbool(v):
    return v.op in ("b", "not", "and", "or") or v is TRUE or v is FALSE


# ------------------------------------------------------------------ objects
def rec_of(v):
    return v.args[1] if v.op == "rec" else ()


def base_of(v):
    return v.args[0] if v.op == "rec" else v


def skey(k):
    return (k[0], k[1].id if isinstance(k[1], V) else str(k[1]))


def rec(base, d):
    if not d:
        return base
    return mk("rec", base, tuple(sorted(d.items(), key=lambda x: skey(x[0]))))


def sel(v, k):
    """selection k = ("fld", usr) | ("idx", V) of an object value"""
    if v.op == "in":
        return mk("in", mk(k[0], v.args[0], k[1]))
    if v.op == "rec":
        for kk, x in v.args[1]:
            if kk == k:
                return x
        if k[0] == "idx" and k[1].op != "num" and any(kk[0] == "idx" for kk, _ in v.args[1]):
            return mk("sel", v, k[0], k[1])
        if k[0] == "idx" and any(kk[0] == "idx" and kk[1].op != "num" for kk, _ in v.args[1]):
            return mk("sel", v, k[0], k[1])
        return sel(v.args[0], k)
    if v.op == "phi":
        return phi(v.args[0], sel(v.args[1], k), sel(v.args[2], k))
    if v.op == "str" and k[0] == "idx" and k[1].op == "num" and 0 <= k[1].args[0] < len(v.args[0]):
        return num(ord(v.args[0][int(k[1].args[0])]))
    if v.op == "resized":
        old, n, fill = v.args
        return phi(cmp("<", k[1], n), sel(old, k), fill) if k[0] == "idx" else mk("sel", v, k[0], k[1])
    if v.op == "zinit":
        return v if k[0] in ("fld", "idx") and False else mk("zinit")
    return mk("sel", v, k[0], k[1])


def parent(p):
    return p.args[0] if p.op in ("fld", "idx") else None


def psel(p):
    return (p.op, p.args[1])


# ------------------------------------------------------------------ rewriting
def subst(v, m, memo=None):
    """v with every value in m replaced; normal forms are rebuilt"""
    if memo is None:
        memo = {}
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return tuple(subst(x, m, memo) for x in v)
        return v
    r = m.get(v)
    if r is not None:
        return r
    r = memo.get(v)
    if r is None:
        r = rebuild(v, lambda x: subst(x, m, memo))
        memo[v] = r
    return r


def rebuild(v, f):
    o, a = v.op, v.args
    if o == "num":
        return v
    if o == "poly":
        out = {}
        acc = ZERO
        for mon, c in a[0]:
            t = num(c)
            for x, e in mon:
                y = f(x)
                t = mul(t, power(y, e) if abs(e) <= 12 else opaque("pow", y, num(e)))
            acc = add(acc, t)
        return acc
    if o == "f":
        args = [f(x) for x in a[1:]]
        if a[0] == "*":
            return mul(*args)
        if a[0] in MATH:
            return fun(a[0], *args)
        return opaque(a[0], *args)
    if o == "b":
        x = f(a[1])
        return truth(x) if a[0] == "t" else cmp(a[0], x, ZERO)
    if o == "not":
        return nt(f(a[0]))
    if o in ("and", "or"):
        r = TRUE if o == "and" else FALSE
        for x in a:
            r = lbool(o, r, f(x))
        return r
    if o == "phi":
        return phi(f(a[0]), f(a[1]), f(a[2]))
    if o == "rec":
        return rec(f(a[0]), {(k[0], f(k[1]) if isinstance(k[1], V) else k[1]): f(x) for k, x in a[1]})
    if o == "sel":
        return sel(f(a[0]), (a[1], f(a[2]) if isinstance(a[2], V) else a[2]))
    if o == "mu":
        return v
    if o == "call" and a[0] == "#size":
        return mk(o, a[0], f(a[1]))
    return mk(o, *[f(x) if isinstance(x, V) else tuple(f(y) if isinstance(y, V) else y for y in x) if isinstance(x, tuple) else x for x in a])


def implied(c, val, d):
    """truth of condition d given that condition c has truth val, or None"""
    if c is d:
        return val
    if c.op != "b" or d.op != "b" or c.args[0] not in ("<", "==") or d.args[0] not in ("<", "=="):
        return None
    for s in (1, -1):
        k = add(d.args[1], c.args[1], -s)      # d's expression = s * c's + k
        if k.op != "num":
            continue
        k = k.args[0]
        if c.args[0] == "<" and d.args[0] == "<":
            if s > 0 and val and k <= 0:
                return True
            if s > 0 and not val and k >= 0:
                return False
            if s < 0 and val and k >= 0:
                return False
            if s < 0 and not val and k < 0:
                return True
        if c.args[0] == "==" and val:
            return k < 0 if d.args[0] == "<" else k == 0
        if c.args[0] == "<" and val and d.args[0] == "==" and k * s <= 0 and s * 1 > 0 and k <= 0:
            return False
    return None


def assume(v, c, val):
    """v where condition c is known to be val (and what follows from that for other conditions)"""
    return assuming(v, [(c, val)])


def facts_of(c, val):
    """a condition of known truth taken apart into simpler ones"""
    if c.op == "not":
        return facts_of(c.args[0], not val)
    if c.op == "and" and val or c.op == "or" and not val:
        return [y for x in c.args for y in facts_of(x, val)]
    return [(c, val)]


def assuming(v, known):
    known = [y for x in known for y in facts_of(*x)]
    for _ in range(6):
        m = {c: TRUE if val else FALSE for c, val in known if c.op in ("and", "or")}
        if m and not any(x in m for x in walk(v)):
            m = {}
        for d in walk(v):
            if d.op == "b":
                for c, val in known:
                    r = implied(c, val, d)
                    if r is not None:
                        m[d] = TRUE if r else FALSE
                        break
        if not m:
            break
        w = subst(v, m)         # rebuilding can bring new conditions about
        if w is v:
            break
        v = w
    return v


def same(a, b, depth=14, known=()):
    """a equals b for every value of the conditions they depend on"""
    if a is b:
        return True
    if a is None or b is None or depth == 0:
        return False
    cs = [x for v in (a, b) for x in walk(v) if x.op == "b"]
    if not cs:
        return False
    # conditions that do not themselves depend on undecided ones first
    c = min(cs, key=lambda x: (any(y.op == "phi" for y in walk(x)), x.id))
    for val in (True, False):
        k = list(known) + [(c, val)]
        if not same(assuming(a, k), assuming(b, k), depth - 1, k):
            return False
    return True


def walk(v, seen=None, mus=None):
    """all values below v (through loops when mus is given)"""
    seen = set() if seen is None else seen
    work = [v]
    while work:
        x = work.pop()
        if isinstance(x, tuple):
            work.extend(x)
            continue
        if not isinstance(x, V) or x in seen:
            continue
        seen.add(x)
        work.extend(x.args)
        if mus is not None and x.op == "mu" and x in mus:
            work.extend(mus[x])
    return seen


def inputs(v, mus=None):
    return {x.args[0] for x in walk(v, None, mus) if x.op == "in"}


# ------------------------------------------------------------------ building the graph
class St(object):
    __slots__ = ("mem",)

    def __init__(self, mem=None):
        self.mem = {} if mem is None else mem

    def copy(self):
        return type(self)(self.mem.copy())

    def write(self, p, v):
        d = [q for q in self.mem if q is not p and below(q, p)]
        for q in d:
            del self.mem[q]
        if p.op == "idx" and p.args[1].op != "num" or True:
            # an element at an unknown position may be any other element of the same sequence
            q = p
            while q.op in ("fld", "idx"):
                if q.op == "idx":
                    par = q.args[0]
                    for o in list(self.mem):
                        e = elem_under(o, par)
                        if e is not None and e is not q and (e.args[1].op != "num" or q.args[1].op != "num") and not apart(e.args[1], q.args[1]):
                            self.mem[o] = mk("f", "maybe", self.mem[o], v)
                q = q.args[0]
        self.mem[p] = v

    def read(self, p):
        if p in self.mem:
            base = self.mem[p]
        else:
            q = parent(p)
            base = sel(self.read1(q), psel(p)) if q is not None and self.covered(q) else mk("in", p)
            base = self.perhaps(p, base)
        d = {}
        for q in self.mem:
            if q is not p and below(q, p):
                path = []
                x = q
                while x is not p:
                    path.append(psel(x))
                    x = x.args[0]
                path.reverse()
                d[tuple(path)] = self.mem[q]
        return overlay(base, d) if d else base

    def siblings(self, par):
        return {e for e in (elem_under(o, par) for o in self.mem) if e is not None}

    def perhaps(self, p, base):
        """a write to an element whose index may be the same may have replaced what p held"""
        x, path = p, []
        while x.op in ("fld", "idx") and x not in self.mem:
            if x.op == "idx":
                for e in sorted(self.siblings(x.args[0]), key=lambda v: v.id):
                    if e is not x and not (e.args[1].op == "num" and x.args[1].op == "num") and not apart(e.args[1], x.args[1]):
                        v = self.read(e)
                        for k in reversed(path):
                            v = sel(v, k)
                        base = opaque("maybe", base, v)
            path.append(psel(x))
            x = x.args[0]
        return base

    def covered(self, q):
        while q is not None:
            if q in self.mem:
                return True
            q = parent(q)
        return False

    def read1(self, q):
        """value at q without looking at entries below (they are handled by the caller)"""
        if q in self.mem:
            return self.mem[q]
        r = parent(q)
        return sel(self.read1(r), psel(q)) if r is not None else mk("in", q)


def apart(i, j):
    d = sub(i, j)
    return d.op == "num" and d is not ZERO


def elem_under(o, par):
    x = o
    while x.op in ("fld", "idx"):
        if x.op == "idx" and x.args[0] is par:
            return x
        x = x.args[0]
    return None


def below(q, p):
    x = q
    while x.op in ("fld", "idx"):
        x = x.args[0]
        if x is p:
            return True
    return False


def overlay(base, d):
    top = {}
    for path, v in d.items():
        top.setdefault(path[0], {})[path[1:]] = v
    out = dict(rec_of(base))
    for k, sub_ in top.items():
        b = sub_.pop((), None)
        if b is None:
            b = sel(base, k)
        out[k] = overlay(b, sub_) if sub_ else b
    return rec(base_of(base), out)


class Out(object):
    """how a statement can be left: kind -> (guard, state, value)"""
    __slots__ = ("k",)

    def __init__(self, k=None):
        self.k = k or {}


def merge(c, a, b, graph):
    """outcome that is a when c holds, b otherwise"""
    out = {}
    for kind in list(a.k) + [x for x in b.k if x not in a.k]:
        x, y = a.k.get(kind), b.k.get(kind)
        if x is None:
            out[kind] = (land(nt(c), y[0]), y[1], y[2])
        elif y is None:
            out[kind] = (land(c, x[0]), x[1], x[2])
        else:
            out[kind] = (phi(c, x[0], y[0]) if x[0] is not y[0] else x[0], mergest(c, x[1], y[1]), phi(c, x[2], y[2]) if x[2] is not None and y[2] is not None else x[2] or y[2])
    return Out(out)


def mergest(c, s, t):
    if c is TRUE:
        return s
    if c is FALSE:
        return t
    m = {}
    for p in set(s.mem) | set(t.mem):
        m[p] = phi(c, s.read(p), t.read(p))
    # keep only the topmost of nested entries consistent: rewrite nested ones after their parents
    r = type(s)()
    for p in sorted(m, key=depth):
        r.mem[p] = m[p]
    return r


def depth(p):
    d = 0
    while p.op in ("fld", "idx"):
        d += 1
        p = p.args[0]
    return d, p.id


def seqout(a, f):
    """what follows a on its normal way"""
    if "fall" not in a.k:
        return a
    g, st, _ = a.k["fall"]
    b = f(st)
    if len(a.k) == 1:
        if g is TRUE:
            return b
        return Out({k: (land(g, x[0]), x[1], x[2]) for k, x in b.k.items()})
    out = {k: x for k, x in a.k.items() if k != "fall"}
    for k, (h, s, v) in b.k.items():
        if k in out:
            h0, s0, v0 = out[k]
            out[k] = (lor(h0, land(g, h)), mergest(h0, s0, s), phi(h0, v0, v) if v0 is not None and v is not None else v0 or v)
        else:
            out[k] = (land(g, h), s, v)
    return Out(out)


class Graph(object):
    def __init__(self, F, opaque=(), depth=10, resolve=None):
        """opaque: predicate on Fn (or set of usrs) of functions kept as calls"""
        self.F, self.maxdepth, self.resolve = F, depth, resolve
        self.opq = opaque if callable(opaque) else (lambda f, s=frozenset(opaque): f.u in s)
        self.mus = {}
        self.noeff = lambda u: False                     # opaque calls that change nothing a client looks at
        self.loops = {}          # (function, node) -> condition to go round, other ways out
        self.watch, self.log = (lambda u: False), []     # calls kept as calls whose arguments and state are recorded
        self.nframe = 0
        self.analysed = set()
        self.Frame, self.closures, self.limit = Frame, {}, 400000
        self.steps = 0

    # ---- entry
    def run(self, f, args=None, this=None, st=None):
        """(return value, final state); args: values (or places ("ref", P)) of the parameters; default: the inputs themselves"""
        st = st if st is not None else St()
        this = this or mk("this")
        bind = {}
        for k, pv in enumerate(f.params):
            a = None if args is None or k >= len(args) else args[k]
            self.bindparam(f, pv, k, a, bind, st)
        o = self.call_body(f, bind, this, st, 0, ())
        r = o.k.get("return")
        return (r[2] if r else None), (r[1] if r else None), o

    def bindparam(self, f, pv, k, a, bind, st):
        t = f.vars[pv][1]
        if isinstance(a, tuple):
            bind[pv] = a[1]
        elif t.rstrip().endswith("&"):
            P = mk("param", k, f.vars[pv][0])
            if a is not None:
                st.mem[P] = a
            bind[pv] = P
        else:
            P = mk("param", k, f.vars[pv][0])
            if a is not None:
                st.mem[P] = a
            bind[pv] = P

    def call_body(self, f, bind, this, st, d, stack):
        fr = self.Frame(self, f, bind, this, d, stack + (f.u,))
        self.analysed.add(f.u)
        if f.inits:
            fr.inits(st)
        o = fr.stmt(f.body, st) if f.body >= 0 else Out({"fall": (TRUE, st, None)})
        out = {}
        if "return" in o.k:
            out["return"] = o.k["return"]
        if "fall" in o.k:
            g, s, _ = o.k["fall"]
            if "return" in out:
                g0, s0, v0 = out["return"]
                out["return"] = (lor(g0, g), mergest(g0, s0, s), v0)
            else:
                out["return"] = (g, s, None)
        if "throw" in o.k:
            out["throw"] = o.k["throw"]
        for k in ("return", "throw"):
            if k in out and d:
                for p in [p for p in out[k][1].mem if root(p).op == "loc" and root(p).args[0] == fr.id]:
                    pass
        return Out(out)


def root(p):
    while p.op in ("fld", "idx"):
        p = p.args[0]
    return p


class Frame(object):
    def __init__(self, G, f, bind, this, d, stack):
        self.G, self.F, self.f, self.bind, self.this, self.d, self.stack = G, G.F, f, dict(bind), this, d, stack
        G.nframe += 1
        self.id = G.nframe
        f.load()

    # ---- places
    def var(self, v):
        p = self.bind.get(v)
        if p is None:
            nm, ty, kind = self.f.vars[v][0], self.f.vars[v][1], self.f.vars[v][2]
            p = mk("g", self.f.u + "#" + nm) if kind == "static" else mk("loc", self.id, v, nm)
            self.bind[v] = p
        return p

    def place(self, i, st):
        """where an lvalue lives; a temporary for anything else"""
        f = self.f
        n = f.n(i)
        k = n["k"]
        c = f.c(i)
        if k == "Cast":
            return self.place(c[0], st) if n.get("lv") else self.temp(i, st)
        if k == "Ref":
            if "v" in n:
                return self.var(n["v"])
            if "g" in n:
                return mk("g", n["g"])
        if k == "Member" and n.get("fld"):
            if not c:
                return mk("fld", self.this, n["fld"])
            b = self.deref(self.expr(c[0], st)) if n.get("arrow") else self.place(c[0], st)
            return mk("fld", b, n["fld"])
        if k == "Member" and n.get("g"):
            return mk("g", n["g"])
        if k == "Unary" and n["op"] == "*":
            return self.deref(self.expr(c[0], st))
        if k == "Unary" and n["op"] in ("++", "--"):
            self.expr(i, st)
            return self.place(c[0], st)
        if k == "Index":
            return self.element(c[0], self.expr(c[1], st), st)
        if k == "Binary" and n["op"] == "=" or k == "CompoundAssign":
            self.expr(i, st)
            return self.place(c[0], st)
        if k == "Cond":
            t = self.expr(c[0], st)
            a, b = self.place(c[1], st), self.place(c[2], st)
            if a is b:
                return a
            return self.temp(i, st)
        if k == "This":
            return self.temp(i, st)
        if k == "Call":
            nm = last(n.get("fn"))
            g = self.target(n, st)
            if g is not None and n.get("lv"):
                p = self.inline(i, g, st, want="place")
                if p is not None:
                    return p
            if n.get("op") in ("*", "->") and len(c) == 1:
                return self.deref(self.expr(c[0], st))
            if (n.get("op") in ("[]", "()") or nm in ("at",)) and len(c) == 2 and n.get("lv"):
                return mk("idx", self.place(c[0], st), self.expr(c[1], st))
            if nm in ("front", "back") and len(c) == 1 and n.get("lv") and not (g is not None and g.load()["body"] >= 0):
                p = self.place(c[0], st)
                return mk("idx", p, ZERO if nm == "front" else sub(st.read(mk("fld", p, "#size")), ONE))
            if n.get("lv") and n.get("op") in ("=", "+=", "-=", "*=", "/=", "<<", ">>"):
                self.expr(i, st)
                return self.place(c[0], st)
        return self.temp(i, st)

    def element(self, b, idx, st):
        f = self.f
        n = f.n(strip(f, b))
        if "[" in n.get("t", "") and n.get("lv"):
            return mk("idx", self.place(strip(f, b), st), idx)
        v = self.expr(b, st)
        if v.op == "addr":
            p = v.args[0]
            if p.op == "idx":
                return mk("idx", p.args[0], add(p.args[1], idx))
            if idx is ZERO:
                return p
        return mk("idx", self.deref(v), idx) if v.op != "addr" else mk("idx", v.args[0], idx)

    def temp(self, i, st):
        v = self.expr(i, st)
        if v.op == "in":
            return v.args[0]
        self.G.nframe += 1
        p = mk("tmp", self.G.nframe)
        st.write(p, v)
        return p

    def deref(self, v):
        if v.op == "addr":
            return v.args[0]
        return mk("deref", v)

    # ---- expressions
    def expr(self, i, st):
        v = self.expr0(i, st)
        ck = self.f.n(i).get("ck")
        if ck == "FloatingToIntegral":
            v = v if v.op == "num" and v.args[0].denominator == 1 else opaque("trunc", v)
        elif ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            v = truth(v)
        elif self.f.n(i).get("t", "") in ("bool", "const bool") and not self.f.n(i).get("lv") and v.op not in ("undef", "void"):
            v = truth(v)
        return v

    def expr0(self, i, st):
        f = self.f
        if i is None or i < 0:
            return mk("undef")
        self.G.steps += 1
        if self.G.steps > self.G.limit:
            raise Exception("value graph too large at " + f.qn)
        n = f.n(i)
        k = n["k"]
        c = f.c(i)
        if "iv" in n and k not in ("Ref",):
            return num(int(n["iv"]))
        if k in ("Int", "Char"):
            return num(int(n["iv"] if "iv" in n else n["v"]))
        if k == "Bool":
            return TRUE if n["v"] in (True, 1, "1", "true") else FALSE
        if k == "Float":
            return num(Fraction(str(n["v"])))
        if k == "Str":
            return mk("str", n["v"])
        if k == "Null":
            return ZERO
        if k == "This":
            return mk("addr", self.this)
        if k == "Cast":
            if not c:
                return mk("undef")
            v = self.expr(c[0], st)
            t = n.get("t", "")
            if n.get("ckind") == "FloatingToIntegral":
                return opaque("trunc", v) if v.op != "num" or v.args[0].denominator != 1 else v
            return v
        if k == "Ref":
            if "f" in n:
                return mk("fn", n["f"])
            if "en" in n:
                return num(int(n["ev"])) if "ev" in n else mk("en", n["en"])
            return st.read(self.place(i, st))
        if k in ("Member", "Index"):
            if k == "Member" and not n.get("fld") and not n.get("g"):
                return mk("fn", n.get("m", ""))
            p = self.place(i, st)
            if "[" in n.get("t", "") and n.get("ck") == "ArrayToPointerDecay":
                return mk("addr", mk("idx", p, ZERO))
            return st.read(p)
        if k == "Unary":
            return self.unary(i, n, c, st)
        if k == "Binary":
            return self.binary(i, n, c, st)
        if k == "CompoundAssign":
            p = self.place(c[0], st)
            r = self.expr(c[1], st)
            v = self.arith(n["op"][:-1], st.read(p), r, f.n(c[0]).get("t", ""))
            st.write(p, v)
            return v
        if k == "Cond":
            t = self.expr(c[0], st)
            s1, s2 = st.copy(), st.copy()
            a, b = self.expr(c[1], s1), self.expr(c[2], s2)
            m = mergest(truth(t), s1, s2)
            st.mem = m.mem
            return phi(truth(t), a, b)
        if k == "Call":
            return self.call(i, n, c, st)
        if k == "Construct":
            return self.construct(i, n, c, st)
        if k == "New":
            self.G.nframe += 1
            x = n.get("init", -1)
            v = mk("undef")
            for y in c:
                if y >= 0 and f.k(y) in ("Construct", "InitList"):
                    v = self.expr(y, st)
            p = mk("heap", f.u, i, self.id)
            st.write(p, v)
            return mk("addr", p)
        if k in ("ImplicitValueInitExpr", "CXXScalarValueInitExpr"):
            return ZERO if "fv" in n else mk("zinit")
        if k == "InitList":
            ks = [self.expr(x, st) for x in c if x >= 0]
            C = self.classof(n.get("t", ""))
            if C is not None and ks and len(ks) <= len(C["fields"]):
                return rec(mk("zinit"), {("fld", x["u"]): v for x, v in zip(C["fields"], ks)})
            if len(ks) == 1 and "[" not in n.get("t", ""):
                return ks[0]
            return rec(mk("zinit"), {("idx", num(j)): v for j, v in enumerate(ks)})
        if k == "ArrayInitLoopExpr":
            return self.expr(c[0], st) if c else mk("undef")
        if k == "Delete":
            if c:
                self.expr(c[0], st)
            return ZERO
        if k == "Throw":
            return mk("undef")
        if k == "Lambda":
            return mk("lambda", f.u, i)
        for x in c:
            if x >= 0:
                self.expr(x, st)
        return mk("f", k, f.u, i) if k not in ("SizeOf",) else mk("f", "sizeof", n.get("t", ""))

    def classof(self, t):
        t = t.replace("const ", "").rstrip("&* ").strip()
        return self.F.by_ty.get(t) if isinstance(self.F.by_ty, dict) else None

    def unary(self, i, n, c, st):
        f = self.f
        op = n["op"]
        if op == "&":
            if f.k(strip(f, c[0])) == "Ref" and "f" in f.n(strip(f, c[0])):
                return mk("fn", f.n(strip(f, c[0]))["f"])
            return mk("addr", self.place(c[0], st))
        if op == "*":
            return st.read(self.place(i, st))
        if "++" in op or "--" in op:
            p = self.place(c[0], st)
            v = st.read(p)
            w = self.arith("+" if "++" in op else "-", v, ONE, f.n(c[0]).get("t", ""))
            st.write(p, w)
            return v if op.startswith("post") else w
        v = self.expr(c[0], st)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return nt(v)
        return opaque(op, v)

    def arith(self, op, a, b, t=""):
        if t.rstrip().endswith("*") and a.op == "addr" and a.args[0].op == "idx" and op in "+-":
            return mk("addr", mk("idx", a.args[0].args[0], add(a.args[0].args[1], b, 1 if op == "+" else -1)))
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if isint(t) and not (b.op == "num" and b is ONE):
                return opaque("idiv", a, b)
            return div(a, b)
        return opaque(op, a, b)

    def binary(self, i, n, c, st):
        f = self.f
        op = n["op"]
        if op == "=":
            r = self.expr(c[1], st)
            p = self.place(c[0], st)
            st.write(p, r)
            return r
        if op == ",":
            self.expr(c[0], st)
            return self.expr(c[1], st)
        if op in ("&&", "||"):
            a = truth(self.expr(c[0], st))
            s2 = st.copy()
            b = truth(self.expr(c[1], s2))
            if s2.mem != st.mem:
                m = mergest(a, s2, st) if op == "&&" else mergest(a, st, s2)
                st.mem = m.mem
            return land(a, b) if op == "&&" else lor(a, b)
        a, b = self.expr(c[0], st), self.expr(c[1], st)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b)
        return self.arith(op, a, b, n.get("t", ""))

    def compare(self, op, a, b):
        if a.op in ("addr", "str") or b.op in ("addr", "str"):
            if a.op == b.op and op in ("==", "!=") and a is b:
                return TRUE if op == "==" else FALSE
            if {a.op, b.op} == {"addr", "num"} and op in ("==", "!="):
                return FALSE if op == "==" else TRUE
            r = mk("b", "t", opaque("==", *sorted((a, b), key=lambda v: v.id)))
            return r if op == "==" else nt(r) if op == "!=" else truth(opaque(op, a, b))
        return cmp(op, a, b)

    # ---- calls
    def target(self, n, st):
        g = self.F.fns.get(n.get("f"))
        if n.get("indirect") or n.get("f") is None:
            return None
        if n.get("virt"):
            g = None
            if self.G.resolve is not None:
                g = self.G.resolve(self, n)
            if g is None:
                g = self.only_impl(n["f"])
        if g is None or g.load()["body"] < 0 or g.u in self.stack or len(self.stack) > self.G.maxdepth or self.G.opq(g):
            return None
        return g

    def only_impl(self, u):
        over = [x for x in self.F.overriders(u)] if hasattr(self.F, "overriders") else None
        g = self.F.fns.get(u)
        if over is None:
            return None
        md = self.F.method_decl.get(u)
        impls = [self.F.fns[x] for x in over if x in self.F.fns]
        if g is not None and not (md and md[1].get("pure")):
            impls.append(g)
        return impls[0] if len({x.u for x in impls}) == 1 else None

    def bindargs(self, g, args, st):
        f = self.f
        bind = {}
        for pv, x in zip(g.params, args):
            t = g.vars[pv][1]
            if t.rstrip().endswith("&"):
                bind[pv] = self.place(x, st)
            else:
                v = self.expr(x, st)
                self.G.nframe += 1
                p = mk("loc", -self.G.nframe, pv, g.vars[pv][0])
                st.write(p, v)
                bind[pv] = p
        return bind

    def inline(self, i, g, st, want="value", this=None):
        f = self.f
        n = f.n(i)
        c = f.c(i)
        off = 1 if n.get("obj") or this is not None else 0
        if this is not None:
            pass
        elif off:
            this = self.deref(self.expr(c[0], st)) if n.get("arrow") else self.place(c[0], st)
        else:
            this = self.this
        bind = self.bindargs(g, c[off:], st)
        fr_ret = g.ret or ""
        isref = fr_ret.rstrip().endswith("&")
        G = self.G
        fr = G.Frame(G, g, bind, this, self.d + 1, self.stack + (g.u,))
        fr.wantplace = isref
        G.analysed.add(g.u)
        if g.inits:
            fr.inits(st)
        o = fr.stmt(g.body, st)
        r, fall = o.k.get("return"), o.k.get("fall")
        if r is not None and fall is not None:
            s = mergest(r[0], r[1], fall[1])
            v = r[2]
        elif r is not None:
            s, v = r[1], r[2]
        elif fall is not None:
            s, v = fall[1], None
        else:
            v, s = mk("undef"), st        # always throws
        if s is not st:
            st.mem = s.mem.copy()
        if isref:
            if v is not None and v.op == "addr":
                return v.args[0] if want == "place" else st.read(v.args[0])
            if want == "place":
                if v is None:
                    return None
                return mk("deref", v)
            return st.read(mk("deref", v)) if v is not None else mk("undef")
        return v if v is not None else mk("void")

    def call(self, i, n, c, st):
        f = self.f
        nm = last(n.get("fn"))
        g = self.target(n, st)
        if g is not None:
            md = self.F.method_decl.get(g.u)
            if md is not None and md[1].get("impl") and nm == "operator=":
                v = self.expr(c[1], st)
                st.write(self.place(c[0], st), v)
                return v
            return self.inline(i, g, st)
        op = n.get("op")
        if n.get("indirect") and f.k(strip(f, c[0])) == "Binary" and f.n(strip(f, c[0]))["op"] in ("->*", ".*"):
            b = strip(f, c[0])
            fv = self.expr(f.c(b)[1], st)
            g = self.F.fns.get(fv.args[0]) if fv.op == "fn" else None
            if g is not None and g.load()["body"] >= 0 and g.u not in self.stack and len(self.stack) <= self.G.maxdepth and not self.G.opq(g):
                this = self.deref(self.expr(f.c(b)[0], st)) if f.n(b)["op"] == "->*" else self.place(f.c(b)[0], st)
                return self.inline(i, g, st, this=this)
        if op == "+" and len(c) == 2 and isstr(n.get("t", "")):
            return concat(self.expr(c[0], st), self.expr(c[1], st))
        if op == "=" and len(c) == 2:
            v = self.expr(c[1], st)
            st.write(self.place(c[0], st), v)
            return v
        md = self.F.method_decl.get(n.get("f"))
        if op in ("+=", "-=", "*=", "/=") and len(c) == 2 and iscplx(f.n(c[0]).get("t", "")):
            p = self.place(c[0], st)
            v = self.cplx(op[0], st.read(p), self.expr(c[1], st), iscplx(f.n(c[0]).get("t", "")), iscplx(f.n(c[1]).get("t", "")))
            st.write(p, v)
            return v
        fn = n.get("fn") or ""
        if op in ("*", "->") and len(c) == 1 or (op in ("[]", "()") or nm == "at") and len(c) == 2 and n.get("lv") or nm in ("front", "back") and len(c) == 1 and n.get("lv") and fn.startswith("std::"):
            return st.read(self.place(i, st))
        if fn.startswith(("std::vector<", "std::vector::")) and n.get("obj"):
            r = self.vector(nm, n, c, st)
            if r is not None:
                return r
        if fn.startswith("std::complex") and nm in ("real", "imag") and len(c) == 1:
            return sel(self.ascplx(self.expr(c[0], st)), ("fld", nm))
        if nm in ("real", "imag") and fn.startswith("std::") and len(c) == 1:
            return sel(self.ascplx(self.expr(c[0], st)), ("fld", nm))
        if op in ("+", "-", "*", "/") and iscplx(n.get("t", "")):
            a = self.expr(c[0], st)
            if len(c) == 1:
                a = self.ascplx(a)
                return rec(mk("cplx"), {("fld", x): neg(sel(a, ("fld", x))) for x in ("real", "imag")}) if op == "-" else a
            return self.cplx(op, a, self.expr(c[1], st), iscplx(f.n(c[0]).get("t", "")), iscplx(f.n(c[1]).get("t", "")))
        args = []
        if nm in MATH and (fn == nm or fn.startswith("std::")) and not n.get("obj"):
            if len(c) == 1 and nm in ("min", "max"):
                x = c[0]
                while f.k(x) != "InitList" and len(f.c(x)) == 1:
                    x = f.c(x)[0]
                if f.k(x) == "InitList" and f.c(x):
                    return fun(nm, *[self.expr(y, st) for y in f.c(x)])
            if len(c) < 3:
                return fun(nm, *[self.expr(x, st) for x in c])
        if nm in ("move", "forward") and fn.startswith("std::") and len(c) == 1:
            return self.expr(c[0], st)
        # opaque: what it is given, and what it may change
        pt = n.get("pt") or []
        off = 1 if n.get("obj") else 0
        vals, eff, obj = [], [], None
        for j, x in enumerate(c):
            if off and j == 0:
                p = obj = self.deref(self.expr(x, st)) if n.get("arrow") else self.place(x, st)
                vals.append(mk("addr", p) if self.bigobj(x) else st.read(p))
                if not n.get("cm") and nm not in PURE_METHODS and not n.get("static"):
                    eff.append(p)
                continue
            t = pt[j - off] if j - off < len(pt) else ""
            if t.rstrip().endswith("&") and "const " not in t:
                p = self.place(x, st)
                vals.append(st.read(p))
                eff.append(p)
            else:
                v = self.expr(x, st)
                vals.append(v)
                if t.rstrip().endswith("*") and not t.startswith("const ") and v.op == "addr":
                    eff.append(v.args[0])
        name = n.get("f") or fn or "?"
        if self.G.watch(name):
            self.G.log.append((f, i, name, tuple(vals), st.copy(), obj))
        r = mk("call", name, *vals)
        for j, p in enumerate(eff if not self.G.noeff(name) else ()):
            st.write(p, mk("eff", name, j, *vals))
        return r

    def vector(self, nm, n, c, st):
        p = self.deref(self.expr(c[0], st)) if n.get("arrow") else self.place(c[0], st)
        sz = mk("fld", p, "#size")
        if nm == "size":
            return st.read(sz)
        if nm == "empty":
            return cmp("==", st.read(sz), ZERO)
        if nm == "resize":
            k = self.expr(c[1], st)
            fill = self.expr(c[2], st) if len(c) > 2 else mk("zinit")
            st.write(p, mk("resized", st.read(p), st.read(sz), fill))
            st.write(sz, k)
            return mk("void")
        if nm == "push_back":
            k = st.read(sz)
            st.write(mk("idx", p, k), self.expr(c[1], st))
            st.write(sz, add(k, ONE))
            return mk("void")
        if nm == "clear":
            st.write(p, mk("undef"))
            st.write(sz, ZERO)
            return mk("void")
        return None

    def bigobj(self, x):
        return False

    def ascplx(self, v):
        if v.op == "num" or v.op in ("poly",):
            return rec(mk("cplx"), {("fld", "real"): v, ("fld", "imag"): ZERO})
        return v

    def cplx(self, op, a, b, ca, cb):
        def parts(v, c):
            if not c:
                return v, ZERO
            v = self.ascplx(v)
            return sel(v, ("fld", "real")), sel(v, ("fld", "imag"))
        (ar, ai), (br, bi) = parts(a, ca), parts(b, cb)
        if op in "+-":
            s = 1 if op == "+" else -1
            r = add(ar, br, s), add(ai, bi, s)
        elif op == "*":
            r = sub(mul(ar, br), mul(ai, bi)), add(mul(ar, bi), mul(ai, br))
        elif bi is ZERO:
            r = div(ar, br), div(ai, br)
        else:
            d = add(mul(br, br), mul(bi, bi))
            r = div(add(mul(ar, br), mul(ai, bi)), d), div(sub(mul(ai, br), mul(ar, bi)), d)
        return rec(mk("cplx"), {("fld", "real"): r[0], ("fld", "imag"): r[1]})

    def construct(self, i, n, c, st):
        f = self.f
        t = n.get("t", "")
        if (n.get("copy") or n.get("move")) and c:
            g = self.F.fns.get(n.get("f"))
            md = self.F.method_decl.get(n.get("f"))
            if g is None or g.load()["body"] < 0 or n.get("elid") or (md and (md[1].get("impl") or md[1].get("dflt"))):
                return self.expr(c[0], st)
        if iscplx(t):
            a = [self.expr(x, st) for x in c]
            if len(a) == 1 and iscplx(f.n(c[0]).get("t", "")):
                return a[0]
            a += [ZERO] * (2 - len(a))
            return rec(mk("cplx"), {("fld", "real"): a[0], ("fld", "imag"): a[1]})
        g = self.F.fns.get(n.get("f"))
        if g is not None and g.load()["body"] >= 0 and g.u not in self.stack and len(self.stack) <= self.G.maxdepth and not self.G.opq(g):
            self.G.nframe += 1
            p = mk("tmp", self.G.nframe)
            st.write(p, mk("zinit") if n.get("zero") else mk("undef"))
            self.ctor(g, c, p, st)
            return st.read(p)
        vals = [self.expr(x, st) for x in c if x >= 0]
        vals = [v for v in vals if not (v.op == "ctor" and v.args[0].startswith("std::allocator<"))]
        if not vals and isstr(t):
            return mk("str", "")
        if len(vals) == 1 and isstr(t):
            return vals[0]
        if len(vals) == 2 and isstr(t) and vals[0] is ONE and vals[1].op == "num":
            return mk("str", chr(int(vals[1].args[0])))
        if n.get("zero") and not vals:
            return mk("zinit")
        return mk("ctor", t, *vals)

    def ctor(self, g, args, p, st):
        bind = self.bindargs(g, args, st)
        fr = self.G.Frame(self.G, g, bind, p, self.d + 1, self.stack + (g.u,))
        self.G.analysed.add(g.u)
        fr.inits(st)
        o = fr.stmt(g.body, st)
        r, fall = o.k.get("return"), o.k.get("fall")
        s = mergest(r[0], r[1], fall[1]) if r and fall else (r or fall or (0, st))[1]
        if s is not st:
            st.mem = s.mem.copy()

    def inits(self, st):
        f = self.f
        for e in f.inits:
            kind, what, x = e[0], e[1], e[2]
            if x < 0:
                continue
            if kind == "m":
                v = self.expr(x, st)
                st.write(mk("fld", self.this, what), v)
            else:
                n = f.n(x)
                if n["k"] == "Construct":
                    g = self.F.fns.get(n.get("f"))
                    if g is not None and g.load()["body"] >= 0 and g.u not in self.stack and len(self.stack) <= self.G.maxdepth and not self.G.opq(g):
                        self.ctor(g, f.c(x), self.this, st)
                        continue
                    for y in f.c(x):
                        if y >= 0:
                            self.expr(y, st)

    # ---- statements
    def stmt(self, i, st):
        f = self.f
        if i is None or i < 0:
            return Out({"fall": (TRUE, st, None)})
        n = f.n(i)
        k = n["k"]
        c = f.c(i)
        if k == "Block":
            return self.stmts(c, st)
        if k == "Decl":
            for v, x, style in n["d"]:
                if v < 0:
                    continue
                t = f.vars[v][1]
                if f.vars[v][2] == "static":
                    continue
                if t.rstrip().endswith("&") and x >= 0:
                    self.bind[v] = self.place(x, st)
                    continue
                self.bind.pop(v, None)
                p = self.var(v)
                val = self.expr(x, st) if x >= 0 else mk("undef")
                st.write(p, val)
            return Out({"fall": (TRUE, st, None)})
        if k == "If":
            init, var, cond, then, els = (list(c) + [-1] * 5)[:5]
            if init >= 0:
                self.stmt(init, st)
            if var >= 0:
                self.stmt(var, st)
            t = truth(self.expr(cond, st))
            if t is TRUE:
                return self.stmt(then, st)
            if t is FALSE:
                return self.stmt(els, st)
            a = self.stmt(then, st.copy())
            b = self.stmt(els, st.copy())
            return merge(t, a, b, self.G)
        if k == "Return":
            if c:
                if getattr(self, "wantplace", False):
                    v = mk("addr", self.place(c[0], st))
                else:
                    v = self.expr(c[0], st)
            else:
                v = None
            return Out({"return": (TRUE, st, v)})
        if k in ("While", "For", "Do", "RangeFor"):
            return self.loop(i, n, c, st)
        if k == "BreakStmt":
            return Out({"break": (TRUE, st, None)})
        if k == "ContinueStmt":
            return Out({"continue": (TRUE, st, None)})
        if k == "Throw":
            return Out({"throw": (TRUE, st, None)})
        if k == "Switch":
            return self.switch(n, c, st)
        if k == "CXXTryStmt":
            return self.stmt(c[0], st)
        if k in ("Case", "Default", "LabelStmt"):
            return self.stmt(c[-1], st)
        if k == "NullStmt":
            return Out({"fall": (TRUE, st, None)})
        self.expr(i, st)
        if k == "Call" and n.get("noret"):
            return Out({"throw": (TRUE, st, None)})
        return Out({"fall": (TRUE, st, None)})

    def stmts(self, c, st):
        o = Out({"fall": (TRUE, st, None)})
        for k, x in enumerate(c):
            if "fall" not in o.k:
                break
            o = seqout(o, lambda s, x=x: self.stmt(x, s))
            ds = self.guards(x)
            if ds and "fall" in o.k:
                # what their destructors do happens however the rest of the block is left
                return seqout(o, lambda s: self.leave(ds, self.stmts(c[k + 1:], s)))
        return o

    def guards(self, x):
        """(place, destructor) of the objects a declaration creates whose destructors are the repository's"""
        f = self.f
        if x is None or x < 0 or f.k(x) != "Decl":
            return []
        out = []
        for v, _, _ in f.n(x)["d"]:
            if v < 0 or f.vars[v][2] == "static" or f.vars[v][1].rstrip()[-1:] in "&*":
                continue
            out += [(self.var(v), g) for g in self.dtors(self.classof(f.vars[v][1]))]
        return out

    def dtors(self, cls):
        cls = self.F.classes.get(cls) if isinstance(cls, str) else cls
        if not cls:
            return []
        out = []
        for m in cls.get("methods", []):
            if m.get("dtor") and not m.get("impl"):
                g = self.F.fns.get(m["u"])
                if g is not None and g.load()["body"] >= 0 and g.c(g.body) and not self.G.opq(g) and g.u not in self.stack and len(self.stack) <= self.G.maxdepth:
                    out.append(g)
        for b in cls.get("bases", []):
            out += self.dtors(self.F.classes.get(b["u"]))
        return out

    def leave(self, ds, o):
        for kind, (g, s, v) in list(o.k.items()):
            for p, d in reversed(ds):
                self.G.analysed.add(d.u)
                fr = self.G.Frame(self.G, d, {}, p, self.d + 1, self.stack + (d.u,))
                r = fr.stmt(d.body, s)
                x, y = r.k.get("return"), r.k.get("fall")
                s = mergest(x[0], x[1], y[1]) if x and y else (x or y or (0, s))[1]
            o.k[kind] = (g, s, v)
        return o

    def switch(self, n, c, st):
        f = self.f
        body = c[-1]
        cond = c[-2]
        v = self.expr(cond, st)
        flat, labels = [], []
        for x in f.c(body) if f.k(body) == "Block" else [body]:
            while f.k(x) in ("Case", "Default"):
                labels.append((len(flat), None if f.k(x) == "Default" else f.c(x)[0]))
                x = f.c(x)[-1]
            flat.append(x)
        def run(k):
            o = self.stmts(flat[k:], st.copy())
            if "break" in o.k:
                b = o.k.pop("break")
                if "fall" in o.k:
                    g, s, _ = o.k["fall"]
                    o.k["fall"] = (lor(b[0], g), mergest(b[0], b[1], s), None)
                else:
                    o.k["fall"] = (b[0], b[1], None)
            return o
        dflt = [k for k, l in labels if l is None]
        res = run(dflt[0]) if dflt else Out({"fall": (TRUE, st.copy(), None)})
        for k, l in reversed([x for x in labels if x[1] is not None]):
            res = merge(self.compare("==", v, self.expr(l, st)), run(k), res, self.G)
        return res

    def growth(self, k, cond, body, inc, st):
        """while(v.size() < n) v.push_back(x) is if(v.size() < n) v.resize(n, x)"""
        f = self.f
        if k not in ("While", "For") or cond < 0 or inc >= 0:
            return None
        b = body
        while f.k(b) != "Call" and len(f.c(b)) == 1:
            cc = [x for x in f.c(b) if x >= 0]
            if len(cc) != 1:
                return None
            b = cc[0]
        if f.k(b) != "Call" or (f.n(b).get("fn") or "").split("::")[-1] not in ("push_back", "emplace_back") or "vector<" not in (f.n(b).get("fn") or "") or len(f.c(b)) != 2:
            return None
        q = strip(f, cond)
        if f.k(q) != "Binary" or f.n(q)["op"] not in ("<", ">"):
            return None
        x, y = f.c(q) if f.n(q)["op"] == "<" else f.c(q)[::-1]
        x = strip(f, x)
        if f.k(x) != "Call" or (f.n(x).get("fn") or "").split("::")[-1] != "size":
            return None
        s = st.copy()
        objs = [self.deref(self.expr(f.c(z)[0], s)) if f.n(z).get("arrow") else self.place(f.c(z)[0], s) for z in (b, x)]
        if objs[0] is not objs[1]:
            return None
        p, sz = objs[0], mk("fld", objs[0], "#size")
        lim, fill = self.expr(y, s), self.expr(f.c(b)[1], s)
        if any(below(q, p) or q is p for v in (lim, fill) for q in inputs(v)) and lim is not self.expr(y, s):
            return None
        grown = s.copy()
        grown.write(p, mk("resized", s.read(p), s.read(sz), fill))
        grown.write(sz, lim)
        return Out({"fall": (TRUE, mergest(cmp("<", s.read(sz), lim), grown, s), None)})

    def loop(self, i, n, c, st):
        f, G = self.f, self.G
        k = n["k"]
        if k == "For":
            init, cond, inc, body = c
            if init >= 0:
                self.stmt(init, st)
        elif k == "While":
            cond, body, inc = c[-2], c[-1], -1
        elif k == "Do":
            body, cond, inc = c[0], c[1], -1
        else:
            for x in c[:3]:
                self.stmt(x, st)
            cond, inc, body = c[3], c[4], c[6]
            pre = c[5]
        o = self.growth(k, cond, body, inc, st)
        if o is not None:
            return o

        def once(s):
            """one round from the head: (condition, outcome at the latch)"""
            if k == "Do":
                o = self.stmt(body, s)
            else:
                if k == "RangeFor":
                    self.stmt(pre, s)
                o = self.stmt(body, s)
            if "continue" in o.k:
                cg, cs, _ = o.k.pop("continue")
                if "fall" in o.k:
                    g, s2, _ = o.k["fall"]
                    o.k["fall"] = (lor(cg, g), mergest(cg, cs, s2), None)
                else:
                    o.k["fall"] = (cg, cs, None)
            if "fall" in o.k and inc >= 0:
                self.expr(inc, o.k["fall"][1])
            return o
        # what changes in a round
        lid = (f.u, i, self.id if self.d == 0 else "in")
        changed = set()
        before = set(st.mem)
        saved = dict(self.bind)
        nlog = len(G.log)
        for turn in range(8):
            s = st.copy()
            del G.log[nlog:]
            for p in sorted(changed, key=depth):
                s.write(p, mk("mu", f.u, i, p))
            head = s.copy()
            if cond >= 0 and k != "Do":
                self.expr(cond, s)
            o = once(s)
            new = set(changed) if turn > 3 else set()
            for kind, (g, s2, _) in o.k.items():
                for p in s2.mem:
                    r = root(p)
                    if r.op in ("tmp",) and p not in before or r.op == "loc" and not any(root(q) is r for q in before) and not any(b is r for b in saved.values()):
                        continue
                    if s2.mem[p] is not head.read(p):
                        new.add(p)
            self.bind = dict(saved)
            # keep the outermost of nested places that change together with unknown positions
            if new == changed:
                break
            changed = new
        del G.log[nlog:]
        s = st.copy()
        mus = {}
        for p in sorted(changed, key=depth):
            if any(below(p, q) for q in changed):
                pass
            mus[p] = mk("mu", f.u, i, p)
        for p in sorted(mus, key=depth):
            s.mem[p] = mus[p]
        t = TRUE
        if cond >= 0 and k != "Do":
            t = truth(self.expr(cond, s))
        head = s.copy()
        o = once(s)
        self.bind = dict(saved)
        if "fall" in o.k:
            ls = o.k["fall"][1]
            if k == "Do":
                t = truth(self.expr(cond, ls))
            for p, m in mus.items():
                G.mus[m] = (st.read(p), ls.read(p))
        else:
            for p, m in mus.items():
                G.mus[m] = (st.read(p), st.read(p))
        G.loops[(f.u, i)] = (t, sorted(x for x in o.k if x != "fall"))
        out = {}
        exitst = head
        if k == "Do":
            exitst = o.k["fall"][1] if "fall" in o.k else head
        g = TRUE
        if "break" in o.k:
            b = o.k["break"]
            bc = mk("b", "t", mk("f", "broke", f.u, i, b[0]))
            exitst = mergest(bc, b[1], exitst)
        if t is TRUE and "break" not in o.k and k != "Do":
            pass
        out["fall"] = (TRUE, exitst, None)
        for kind in ("return", "throw"):
            if kind in o.k:
                rg, rs, rv = o.k[kind]
                gc = mk("b", "t", mk("f", "left", f.u, i, kind, land(t, rg)))
                out[kind] = (gc, rs, rv)
                out["fall"] = (land(out["fall"][0], nt(gc)), out["fall"][1], None)
        if "return" in out:
            # the value of a gate that leaves is decided inside the loop
            pass
        return Out(out)


def isint(t):
    t = t.replace("const ", "").replace("&", "").strip()
    return t in ("int", "unsigned int", "long", "unsigned long", "short", "char", "size_t", "long long", "unsigned long long", "unsigned short", "unsigned char")


def isstr(t):
    return t.replace("const ", "").startswith("std::basic_string<")


def concat(a, b):
    """text a followed by text or character b"""
    def parts(v):
        if v.op == "f" and v.args[0] == "concat":
            return list(v.args[1:])
        if v.op == "num":
            return [mk("str", chr(int(v.args[0])))] if v.args[0].denominator == 1 and 0 < v.args[0] < 256 else [v]
        return [v]
    out = []
    for x in parts(a) + parts(b):
        if x.op == "str" and out and out[-1].op == "str":
            out[-1] = mk("str", out[-1].args[0] + x.args[0])
        elif not (x.op == "str" and x.args[0] == ""):
            out.append(x)
    return out[0] if len(out) == 1 else mk("f", "concat", *out) if out else mk("str", "")


def iscplx(t):
    return "std::complex<double>" in t and "vector" not in t and not t.rstrip().endswith("*")


def last(n):
    d, out = 0, ""
    for ch in n or "":
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return out.split("::")[-1]
