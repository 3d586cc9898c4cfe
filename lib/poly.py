"""Exact real expressions in a normal form that knows cos² + sin² = 1 and the addition theorems.

A number is a sum of monomials with rational coefficients; a monomial is a product of atoms with integer exponents. The atoms of an angle b
are the cosine and sine of b/D (D = 2, finer when a computation asks for it: Finer is raised, the caller refines and starts again); cosine and sine of sums and multiples are expanded, squares of sines removed. Two expressions
with the same normal form are equal as functions of their atoms."""
from fractions import Fraction


D = 2


class Finer(Exception):
    pass


def fineness(d):
    global D
    D = d
    KNOWN.clear()


class P(object):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def key(self):
        return frozenset(self.t.items())

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.key())

    def const(self):
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def __repr__(self):
        return show(self)


def show(p):
    if not p.t:
        return "0"
    out = []
    for m, c in sorted(p.t.items(), key=lambda x: str(x))[:6]:
        s = "*".join("%s%s" % (name(a), "" if e == 1 else "^%d" % e) for a, e in m)
        out.append(("%s" % c if not s else s if c == 1 else "-" + s if c == -1 else "%s*%s" % (c, s)))
    return " + ".join(out) + (" + ..." if len(p.t) > 6 else "")


def name(a):
    if a[0] in ("c", "s"):
        return "%s(%s/%d)" % ("cos" if a[0] == "c" else "sin", "*".join(name(x) for x, e in a[1]) or "1", D)
    return str(a[1])


def num(c):
    c = Fraction(c)
    return P({(): c} if c else {})


def atom(n):
    return P({((("x", n), 1),): Fraction(1)})


ZERO, ONE = num(0), num(1)


def add(a, b, s=1):
    t = dict(a.t)
    for m, c in b.t.items():
        v = t.get(m, 0) + s * c
        if v:
            t[m] = v
        else:
            t.pop(m, None)
    return P(t)


def sub(a, b):
    return add(a, b, -1)


def neg(a):
    return P({m: -c for m, c in a.t.items()})


def mono(m, n):
    """product of two monomials as a list of (monomial, coefficient), squares of sines removed"""
    d = dict(m)
    for a, e in n:
        d[a] = d.get(a, 0) + e
        if not d[a]:
            del d[a]
    out = [({}, Fraction(1))]
    for a, e in d.items():
        if a[0] == "s" and e >= 2:
            k, r = divmod(e, 2)
            cs = ("c", a[1])
            # (1 - c²)^k s^r
            part = [({}, Fraction(1))]
            for _ in range(k):
                nxt = []
                for x, f in part:
                    nxt.append((x, f))
                    y = dict(x)
                    y[cs] = y.get(cs, 0) + 2
                    nxt.append((y, -f))
                part = nxt
            if r:
                part = [(dict(x, **{}), f) for x, f in part]
                for x, _ in part:
                    x[a] = 1
        else:
            part = [({a: e}, Fraction(1))]
        nxt = []
        for x, f in out:
            for y, g in part:
                z = dict(x)
                for b, q in y.items():
                    z[b] = z.get(b, 0) + q
                nxt.append((z, f * g))
        out = nxt
    return [(tuple(sorted(((b, q) for b, q in x.items() if q), key=str)), f) for x, f in out]


CACHE = {}


def mul(a, b):
    t = {}
    for m, c in a.t.items():
        for n, d in b.t.items():
            k = (m, n)
            r = CACHE.get(k)
            if r is None:
                r = CACHE[k] = mono(m, n)
            for q, f in r:
                v = t.get(q, 0) + f * c * d
                if v:
                    t[q] = v
                else:
                    t.pop(q, None)
    return P(t)


def inv(a):
    """1/a; None of zero"""
    if not a.t:
        return None
    if len(a.t) == 1:
        (m, c), = a.t.items()
        if all(x[0] == "x" for x, e in m):
            return P({tuple((x, -e) for x, e in m): 1 / c})
    return P({((("x", ("1/", a.key())), 1),): Fraction(1)})


def div(a, b):
    r = inv(b)
    return None if r is None else mul(a, r)


KNOWN = {}      # (cosine, sine) -> angle


def turn(a):
    """cosine and sine of a, or None when a holds parts that are no rational multiples (with small denominators) of a monomial"""
    if () in a.t:
        return None
    c, s = ONE, ZERO
    for m, q in sorted(a.t.items(), key=str):
        n = D * q
        if n.denominator != 1:
            if D < 8 and (8 * q).denominator == 1:
                raise Finer()
            return None
        n = int(n)
        bc, bs = P({((("c", m), 1),): Fraction(1)}), P({((("s", m), 1),): Fraction(1)})
        if n < 0:
            bs, n = neg(bs), -n
        for _ in range(n):
            c, s = sub(mul(c, bc), mul(s, bs)), add(mul(s, bc), mul(c, bs))
    KNOWN[(c, s)] = a
    return c, s


def opaque(f, *a):
    return P({((("x", (f,) + tuple(x.key() for x in a)), 1),): Fraction(1)})


def cos(a):
    r = turn(a)
    return r[0] if r else opaque("cos", a)


def sin(a):
    r = turn(a)
    return r[1] if r else opaque("sin", a)


def atan2(s, c):
    r = KNOWN.get((c, s))
    if r is not None:
        return r
    return opaque("atan2", s, c)


def subst(p, m):
    """replace atoms by numbers"""
    out = ZERO
    for q, c in p.t.items():
        v = num(c)
        for a, e in q:
            r = m.get(a)
            if r is None:
                r = P({((a, 1),): Fraction(1)}) if e > 0 else P({((a, -1),): Fraction(1)})
                e = abs(e)
            elif e < 0:
                r, e = inv(r), -e
                if r is None:
                    return None
            for _ in range(e):
                v = mul(v, r)
        out = add(out, v)
    return out


def angles(p):
    """the angle monomials and the plain atoms of p"""
    A, X = set(), set()
    for q in p.t:
        for a, e in q:
            if a[0] in "cs":
                A.add(a[1])
            else:
                X.add(a)
    return A, X
