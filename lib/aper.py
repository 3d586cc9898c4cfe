"""Decisions of aperture classes as value graphs: what is compared with x and y, and where the boundaries lie."""
import facts
import seq
import vg
from vg import mk

X, Y, Z = (mk("in", mk("param", n)) for n in "xyz")
AX, AY = vg.fun("fabs", X), vg.fun("fabs", Y)
CHECK = "CheckWithinApertureBoundaries"


def table(f):
    return f.qn.startswith("DataTable") or f.qn.startswith("DataTableRow")


def classes(F):
    """concrete aperture classes that can be constructed and decide themselves"""
    A = F.cls("Aperture")
    if A is None:
        raise facts.Broken("anchor vanished: class Aperture")
    out = []
    for u in sorted(F.all_subs(A["u"], True)):
        C = F.classes[u]
        m, _ = seq.final(F, u, CHECK)
        f = F.fns.get(m["u"]) if m else None
        if f is None or f.load()["body"] < 0:
            continue
        ctors = [F.fns.get(x["u"]) for x in C["methods"] if x.get("ctor") and not x.get("cc") and not x.get("mc")]
        ctors = [c for c in ctors if c is not None and c.load()["body"] >= 0]
        if ctors:
            out.append((C, f, ctors))
    return out


def params(f, names=None):
    out = []
    for k, pv in enumerate(f.params):
        out.append(mk("in", mk("param", "%s%d:%s" % (names or "", k, f.vars[pv][0]))))
    return out


def decide(F, f, this, st=None):
    G = vg.Graph(F, opaque=table)
    v, s, o = G.run(f, [X, Y, Z], this, st.copy() if st is not None else None)
    return (vg.truth(v) if v is not None else None), G, o


def atoms(v):
    return [a for a in vg.walk(v) if a.op == "b"]


def coeffs(e, a):
    """coefficients of e as a polynomial in atom a, by degree (None when a also occurs below other atoms)"""
    out = {}
    for m, c in vg.terms(e).items():
        d = 0
        rest = []
        for x, k in m:
            if x is a:
                d = k
            elif a in vg.walk(x):
                return None
            else:
                rest.append((x, k))
        out.setdefault(d, {})[tuple(rest)] = c
    return {d: vg.from_terms(t) for d, t in out.items()}


def quick(a):
    """|x| + |y| < D: the threshold D"""
    if a.op != "b" or a.args[0] != "<":
        return None
    t = dict(vg.terms(a.args[1]))
    if t.pop(((AX, 1),), 0) != 1 or t.pop(((AY, 1),), 0) != 1:
        return None
    d = vg.neg(vg.from_terms(t))
    w = vg.walk(d)
    return None if X in w or Y in w else d


def quicks(v):
    """{atom: threshold} of the quick acceptances in a decision, with the thresholds"""
    return {a: d for a in atoms(v) for d in [quick(a)] if d is not None}


def thresholds(v, qs):
    """what |x| + |y| keeps below in each way the quick comparisons qs {atom: threshold} accept, alone or together"""
    import itertools
    full = closed(without(v, qs))
    out, mins = [], []
    names = sorted(qs, key=lambda a: a.id)
    for k in range(1, len(names) + 1):
        for S in itertools.combinations(names, k):
            if any(set(m) <= set(S) for m in mins):
                continue
            w = closed(vg.assuming(v, [(a, a in S) for a in names]))
            if not vg.same(w, full):
                mins.append(S)
                out.append(qs[S[0]] if k == 1 else vg.fun("min", *[qs[a] for a in S]))
    return out


def closed(v):
    """exits from loops whose condition cannot hold are not taken"""
    return vg.assuming(v, [(a, False) for a in atoms(v) if a.args[0] == "t" and a.args[1].op == "f" and a.args[1].args[0] == "left" and a.args[1].args[-1] is vg.FALSE])


def without(v, qs):
    return vg.assuming(v, [(a, False) for a in qs])


def aligned(v):
    """the offsets and the tilt at zero"""
    return v


def boundary(a, axis):
    """comparison a of |x| (or x^2) with a size: (boundary, True when the comparison being true means inside); None otherwise"""
    if a.op != "b" or a.args[0] != "<":
        return None
    e = a.args[1]
    x, ax = (X, AX) if axis == 0 else (Y, AY)
    c = coeffs(e, ax)
    if c is not None and set(c) <= {0, 1} and 1 in c and x not in vg.walk(c.get(0, vg.ZERO)) and x not in vg.walk(c[1]):
        k = c[1]
        if len(vg.terms(k)) != 1:
            return None
        return vg.neg(vg.div(c.get(0, vg.ZERO), k)), next(iter(vg.terms(k).values())) > 0
    c = coeffs(e, x)
    if c is not None and set(c) <= {0, 2} and 2 in c and ax not in vg.walk(c.get(0, vg.ZERO)) and len(vg.terms(c[2])) == 1:
        q = vg.neg(vg.div(c.get(0, vg.ZERO), c[2]))
        return vg.fun("sqrt", q), next(iter(vg.terms(c[2]).values())) > 0
    return None


def scan(v, axis, other):
    """boundaries of a decision along one axis (the other coordinate zero): ([(boundary, atom, sense)], unread comparisons)"""
    x, ax = (X, AX) if axis == 0 else (Y, AY)
    w = vg.subst(v, {other: vg.ZERO})
    good, bad = [], []
    for a in atoms(w):
        if x not in vg.walk(a):
            continue
        b = boundary(a, axis)
        (good if b is not None else bad).append((b[0], a, b[1]) if b else a)
    return good, bad, w


def positive(b):
    """a boundary known positive: |b| of a size is the size"""
    return vg.rebuild(b, lambda t: positive(t)) if b.op not in ("f",) else (b.args[1] if b.args[0] == "fabs" else mk(b.op, *[positive(x) if isinstance(x, vg.V) else x for x in b.args]))


def least(D, s, known=()):
    """D <= s for every value of the sizes in them"""
    if D is s:
        return True
    if D.op == "f" and D.args[0] == "min":
        if any(least(x, s, known) for x in D.args[1:]):
            return True
    if D.op == "phi":
        c, a, b = D.args
        return least(a, s, list(known) + vg.facts_of(c, True)) and least(b, s, list(known) + vg.facts_of(c, False))
    # a multiple of a minimum
    t = vg.terms(D)
    if len(t) == 1:
        m, c = next(iter(t.items()))
        if c > 0 and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("f", "phi") and c != 1:
            return least(m[0][0], vg.mul(s, vg.inv(vg.num(c))), known)
    # what comparisons already made say
    edges = {}
    for c, val in known:
        if c.op != "b" or c.args[0] != "<":
            continue
        e = c.args[1]
        pos = vg.from_terms({m: k for m, k in vg.terms(e).items() if k > 0})
        ng = vg.neg(vg.from_terms({m: k for m, k in vg.terms(e).items() if k < 0}))
        lo, hi = (pos, ng) if val else (ng, pos)
        edges.setdefault(lo, set()).add(hi)
    seen, work = {D}, [D]
    while work:
        for y in edges.get(work.pop(), ()):
            if y is s:
                return True
            if y not in seen:
                seen.add(y)
                work.append(y)
    return False


class Mixed(Exception):
    pass


def degree(v, unit):
    """dimension of a value as (transverse, longitudinal) powers of length; None for zero; Mixed when terms disagree"""
    u = unit(v)
    if u is not None:
        return u
    if v.op == "num":
        return None if v is vg.ZERO else (0, 0)
    if v.op == "poly":
        d = None
        for m, c in v.args[0]:
            k = (0, 0)
            for x, e in m:
                g = degree(x, unit)
                if g is not None:
                    k = (k[0] + e * g[0], k[1] + e * g[1])
            if d is not None and d != k:
                raise Mixed()
            d = k
        return d
    if v.op == "f":
        if v.args[0] in ("fabs", "min", "max"):
            return same(v.args[1:], unit)
        if v.args[0] == "sqrt":
            d = degree(v.args[1], unit)
            return d and (d[0] / 2, d[1] / 2)
        for x in v.args[1:]:
            if isinstance(x, vg.V) and degree(x, unit) not in (None, (0, 0)):
                raise Mixed()
        return (0, 0)
    if v.op == "phi":
        return same(v.args[1:], unit)
    return (0, 0)


def same(vs, unit):
    d = None
    for x in vs:
        k = degree(x, unit)
        if k is None:
            continue
        if d is not None and k != d:
            raise Mixed()
        d = k
    return d
