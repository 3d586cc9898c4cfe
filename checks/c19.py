"""C19: every dimension of an aperture takes part in its decision, in its own role."""
import facts
import loops
import seq
import vg
import aper
from aper import X, Y, Z, AX, AY
from report import Report
from values import Values
from flow import strip

# what the columns APER_1.. of a MAD-X aperture table mean: horizontal, vertical, corner
ROLES = {"CIRCLE": [((1,), (1,), ()), ((3,), (3,), ())], "RECTANGLE": [((1,), (2,), ())], "ELLIPSE": [((1,), (2,), ()), ((3,), (4,), ())],
         "RECTELLIPSE": [((1, 3), (2, 4), ())], "OCTAGON": [((1,), (2,), (3, 4))]}


def run():
    F = facts.load()
    R = Report("C19", "Value graphs from the aperture table (or constructor and setters) to the decision: on each axis the position is compared with exactly the dimensions "
               "that bound this axis, on the side that means inside; the cut of an octagon passes through its two corners; the quick acceptance threshold is at most "
               "every boundary (minimum terms and comparisons followed); comparisons are homogeneous in length; an interpolated aperture is its own entry at each "
               "of the two entries it lies between; setters have the effect of constructing with the value.")
    coll = F.cls("CollimatorAperture")
    if coll is None:
        raise facts.Broken("anchor vanished: class CollimatorAperture")
    cu = set(F.all_subs(coll["u"]))
    by = {C["u"]: (C, f, ctors) for C, f, ctors in aper.classes(F)}
    V = Values(F)
    for u, (C, f, ctors) in sorted(by.items()):
        if u in cu:
            for c in ctors:
                collimator(F, R, C, f, c)
        elif "Interpolated" in C["qn"]:
            interpolated(F, R, V, C, f)
        else:
            tabled(F, R, C, f)
            built(F, R, C, f, ctors)
    R.floor("axis", 15)
    R.extra["classes"] = sorted(C["qn"] for C, _, _ in by.values())
    return R.finish(F)


def typename(F, C, V=None):
    m, _ = seq.final(F, C["u"], "GetType", 0)
    f = F.fns.get(m["u"]) if m else None
    G = vg.Graph(F)
    r = G.run(f)[0] if f is not None and f.load()["body"] >= 0 else None
    return r.args[0].split("-")[0] if r is not None and r.op == "str" else None


def column(v):
    """k for a reading of APER_k"""
    if v.op == "call" and any(x.op == "str" for x in v.args[1:]):
        s = [x.args[0] for x in v.args[1:] if x.op == "str"][0]
        if s.startswith("APER_"):
            return int(s[5:])
    return None


def tabled(F, R, C, f):
    """built from a row of the aperture table"""
    m = [x for x in C["methods"] if x["n"] == "GetInstance"]
    g = F.fns.get(m[0]["u"]) if m else None
    if g is None or g.load()["body"] < 0:
        return
    typ = typename(F, C)
    if typ not in ROLES:
        R.bad("roles", C["qn"], f.loc(), "no roles known for the columns of an aperture of type %s" % typ)
        return
    G = vg.Graph(F, opaque=aper.table)
    r, st, _ = G.run(g)
    cols = {}
    for a, known in leaves(r, []):
        if a.op != "addr":
            R.bad("roles", C["qn"] + " instance", g.loc(), "GetInstance of %s can return no aperture" % C["qn"])
            continue
        v, _, _ = aper.decide(F, f, a.args[0], st)
        v = vg.assuming(v, known)
        cols.update({column(x): x for x in vg.walk(v) if column(x)})
        got = axes(F, R, C, f, v, "%s from table%s" % (C["qn"], "" if not known else " case %d" % len(cols)), lambda s: column(s))
        if got is None:
            continue
        gx, gy, corner = got
        R.check(any(set(gx) == set(h) and set(gy) == set(w) for h, w, _ in ROLES[typ]), "roles", C["qn"] + " columns %s" % sorted(map(str, gx | gy)), f.loc(),
                "%s bounds x by columns %s and y by columns %s of the table" % (C["qn"], sorted(map(str, gx)), sorted(map(str, gy))))
        if typ == "OCTAGON":
            octagon(F, R, C, f, v, {k: x for k, x in cols.items()}, C["qn"] + " from table")
    for x in vg.walk(r):
        if column(x):
            cols.setdefault(column(x), x)
    # the aperture lies where its row says
    for a, known in leaves(r, []):
        if a.op == "addr":
            s = vg.assuming(st.read(vg.mk("fld", a.args[0], seq.field(F, F.cls("Aperture"), "latticelocation"))), known)
            R.check(s.op == "call" and vg.mk("str", "S") in s.args, "location", C["qn"], g.loc(), "%s does not take its position from column S" % C["qn"])


def leaves(r, known):
    if r is None:
        return []
    if r.op == "phi":
        return leaves(r.args[1], known + [(r.args[0], True)]) + leaves(r.args[2], known + [(r.args[0], False)])
    return [(r, known)]


def unit_of(sizes, longs):
    def unit(v):
        if v in (X, Y, AX, AY) or v in sizes:
            return (1, 0)
        if v is Z or v in longs:
            return (0, 1)
        return None
    return unit


def axes(F, R, C, f, v, name, role, extra=None):
    """boundaries along each axis by role; checks sides, the quick acceptance and homogeneity"""
    if v is None:
        R.bad("axis", name, f.loc(), "%s gives no decision" % name)
        return None
    qs = aper.quicks(v)
    full = aper.without(v, qs)
    out = []
    for axis, other, nm in ((0, Y, "x"), (1, X, "y")):
        good, bad, w = aper.scan(full, axis, other)
        plain = [b for b in bad if not mixed(full, b, axis)]
        R.check(bool(good) and not plain, "axis", "%s %s" % (name, nm), f.loc(),
                "%s: a comparison of %s that is not with a boundary" % (name, nm) if plain else "%s does not limit %s" % (name, nm))
        # beyond any boundary: outside; within all: inside unless the corner cuts
        for b, a, sense in good:
            R.check(vg.assuming(w, [(a, not sense)] ) is vg.FALSE, "side", "%s %s beyond %s" % (name, nm, short(b)), f.loc(), "%s: a particle beyond %s in %s is not outside" % (name, short(b), nm))
        for d in aper.thresholds(v, qs):
            for b, _, _ in good:
                R.check(aper.least(d, aper.positive(b)), "quick", "%s %s %s" % (name, nm, short(b)), f.loc(),
                        "%s accepts a particle by a quick test that does not keep to the boundary %s in %s" % (name, short(b), nm))
        out.append({role(aper.positive(b)) for b, _, _ in good})
    for a, d in qs.items():
        R.check(vg.assuming(v, [(a, True) for a in qs]) is vg.TRUE or extra is not None, "side", name + " quick", f.loc(), "%s: the quick test does not accept" % name)
    # inside all boundaries is inside
    known = []
    for axis, other in ((0, Y), (1, X)):
        for a in aper.atoms(full):
            b = aper.boundary(a, axis)
            if b is not None:
                known.append((a, b[1]))
    corner = [a for a in aper.atoms(full) if {X, Y} <= vg.walk(a) and aper.boundary(a, 0) is None and aper.boundary(a, 1) is None]
    rest = vg.assuming(full, known)
    if not corner:
        R.check(rest is vg.TRUE, "side", name + " within", f.loc(), "%s: a particle within all boundaries is not inside" % name)
    return out[0], out[1], corner


def mixed(full, b, axis):
    """the comparison also concerns the other coordinate (a corner)"""
    x, other = (X, Y) if axis == 0 else (Y, X)
    return any(vg.subst(a, {other: vg.ZERO}) is b or b in vg.walk(vg.subst(a, {other: vg.ZERO})) for a in aper.atoms(full) if other in vg.walk(a))


def short(b):
    c = [str(column(x)) for x in vg.walk(b) if column(x)]
    return "APER_" + "/".join(sorted(c)) if c else vg.show(b).split(":")[-1][:60]


def homogeneous(R, name, f, v, sizes, longs):
    for a in aper.atoms(v):
        w = vg.walk(a)
        if not (X in w or Y in w) or a.args[0] == "t":
            continue
        try:
            aper.degree(a.args[1], unit_of(sizes, longs))
            ok = True
        except aper.Mixed:
            ok = False
        R.check(ok, "units", "%s comparison" % name, f.loc(), "%s compares quantities of different dimension" % name)


def octagon(F, R, C, f, v, A, name, want=None):
    full = aper.without(v, aper.quicks(v))
    corner = [a for a in aper.atoms(full) if {X, Y} <= vg.walk(a)]
    if not R.check(len(corner) == 1 and all(k in A for k in (1, 2, 3, 4)), "corner", name, f.loc(), "%s does not cut its corners by one line" % name):
        return
    e = corner[0].args[1]
    pi2 = [x for x in vg.walk(e) if x.op == "f" and x.args[0] == "tan"]
    hw, hh, a1, a2 = (A[k] for k in (1, 2, 3, 4))
    pi = vg.mk("in", [x for x in vg.inputs(e) if x.op == "g"][0]) if [x for x in vg.inputs(e) if x.op == "g"] else None
    t1 = vg.fun("tan", a1)
    t2 = vg.fun("tan", vg.sub(vg.mul(pi, vg.num(vg.Fraction(1, 2))), a2)) if pi is not None else None
    ok = t2 is not None
    if ok:
        p = vg.subst(e, {AX: hw, AY: vg.mul(hw, t1)})
        q = vg.subst(e, {AX: vg.mul(hh, t2), AY: hh})
        ok = p is vg.ZERO and q is vg.ZERO
    R.check(ok, "corner", name + " line", f.loc(), "the corner cut of %s does not run from (APER_1, APER_1 tan APER_3) to (APER_2 tan(pi/2 - APER_4), APER_2)" % name)
    if ok:
        # at (hw, 0), inside the cut, the line is on the side of (hw - hh t2) * hw t1 > 0
        s = vg.subst(e, {AX: hw, AY: vg.ZERO})
        ref = vg.mul(vg.sub(hw, vg.mul(hh, t2)), vg.mul(hw, t1))
        inside = s is vg.neg(ref)           # true means inside
        outside = s is ref
        R.check((inside or outside) and vg.assuming(full, [(corner[0], outside)]) is vg.FALSE, "corner", name + " side", f.loc(), "%s keeps the wrong side of its corner cut" % name)
        others = [(a, b[1]) for a in aper.atoms(full) for ax in (0, 1) for b in [aper.boundary(a, ax)] if b is not None]
        R.check((inside or outside) and vg.assuming(full, others + [(corner[0], inside)]) is vg.TRUE, "corner", name + " within", f.loc(), "%s: a particle within all boundaries is not inside" % name)


def built(F, R, C, f, ctors):
    """constructed directly: every dimension given takes part"""
    for c in ctors:
        if not c.params:
            continue
        P = [vg.mk("in", vg.mk("param", "a%d" % k)) for k in range(len(c.params))]
        this = vg.mk("deref", vg.mk("in", vg.mk("param", "fresh")))
        G = vg.Graph(F, opaque=aper.table)
        _, st, _ = G.run(c, P, this)
        v, _, _ = aper.decide(F, f, this, st)
        nums = [k for k, pv in enumerate(c.params) if c.vars[pv][1] in ("double", "const double", "const double &")]
        dims = nums if len(nums) == len(c.params) else nums[1:]      # (type, s, dimensions...)
        w = vg.walk(v) if v is not None else ()
        for j, k in enumerate(dims):
            R.check(P[k] in w, "dimension", "%s(%d) dimension %d" % (C["qn"], len(P), j + 1), c.loc(), "dimension %d given to %s does not take part in its decision" % (j + 1, C["qn"]))
        if v is not None:
            angles = {P[k] for j, k in enumerate(dims) if typename(F, C) == "OCTAGON" and j >= 2}
            homogeneous(R, "%s(%d)" % (C["qn"], len(P)), f, v, {P[k] for k in dims} - angles, set())
        # what is reported is what was given
        for m in C["methods"]:
            g = F.fns.get(m["u"])
            if m["n"].startswith("Get") and m["ret"] == "double" and not m["pt"] and not m.get("static") and g is not None and g.load()["body"] >= 0:
                r, _, _ = vg.Graph(F, opaque=aper.table).run(g, [], this, st.copy())
                dx = [j for j, k in enumerate(dims) if r is P[k]]
                ax = m["n"][-1]
                R.check(bool(dx) and (ax not in "XY" or (dx[0] % 2 == 0) == (ax == "X")), "reports", "%s(%d) %s" % (C["qn"], len(P), m["n"]), g.loc(), "%s::%s does not return the dimension it was built with" % (C["qn"], m["n"]))


def interpolated(F, R, V, C, f):
    I = F.cls("InterpolatedAperture")
    S = F.cls("InterpolatedAperture::apStruct")
    if I is None or S is None:
        raise facts.Broken("anchor vanished: InterpolatedAperture")
    fld = {n: seq.field(F, S, n) for n in ("s", "ap1", "ap2", "ap3", "ap4")}
    if C is I:
        reading(F, R, V, I, fld)
        return
    typ = typename(F, C)
    if typ not in ROLES:
        R.bad("roles", C["qn"], f.loc(), "no roles known for the columns of an aperture of type %s" % typ)
        return
    name = C["qn"]
    v, G, o = aper.decide(F, f, None)
    L = vg.mk("fld", vg.mk("this"), seq.field(F, I, "ApList"))
    # the entries met: ApList[i]
    idx = {p.args[0].args[1] for p in vg.inputs(v, G.mus) if p.op == "fld" and p.args[0].op == "idx" and p.args[0].args[0] is L}
    mu = [i for i in idx if i.op == "mu"]
    if not R.check(len(mu) == 1, "entries", name, f.loc(), "%s does not walk its entries by one index" % name):
        return
    n = mu[0]
    idx |= {vg.sub(n, vg.ONE)}
    at = lambda i, k: vg.mk("in", vg.mk("fld", vg.mk("idx", L, i), fld[k]))
    prev = vg.sub(n, vg.ONE)
    front, back = n, prev
    # in the round that finds the pair, deciding by the full rule
    R.check(G.mus[n] == (vg.ONE, vg.add(n, vg.ONE)), "entries", name + " walk", f.loc(), "%s does not walk its entries from the second on, one by one" % name)
    found = None
    w = v
    # leaving the loop with the pair found; z not negative
    for _ in range(6):
        ks = []
        for a in aper.atoms(w):
            if a.args[0] == "t" and a.args[1].op == "f" and a.args[1].args[0] == "broke":
                ks.append((a, True))
                found = a.args[1].args[3]
            elif a.args[0] == "t" and a.args[1].op == "f" and a.args[1].args[0] == "left":
                ks.append((a, False))
            elif a.args[0] == "<" and a.args[1] is Z:
                ks.append((a, False))
        if not ks:
            break
        w = vg.assuming(w, ks)
    early = {}
    for a in aper.atoms(v):
        if a.args[0] == "t" and a.args[1].op == "f" and a.args[1].args[0] == "left":
            early.update({b: d for x in a.args[1].args if isinstance(x, vg.V) for b in aper.atoms(x) for d in [aper.quick(b)] if d is not None})
    early.update(aper.quicks(v))
    early.update(aper.quicks(w))
    early0 = dict(early)
    early = {a: settle(d) for a, d in early.items()}
    if not R.check(found is not None, "entries", name + " pair", f.loc(), "%s does not stop at the pair of entries around the position" % name):
        return
    # the pair found: the first entry at or after z
    last = vg.sub(vg.mk("in", vg.mk("fld", L, "#size")), vg.ONE)
    past = vg.cmp("<", at(last, "s"), Z)
    fc = vg.assuming(found, [(vg.cmp("<", Z, vg.ZERO), False), (past, False)] + [(a, False) for a in early] )
    reach = vg.cmp("<", at(front, "s"), Z)
    R.check(vg.assuming(fc, [(reach, True)]) is vg.FALSE and vg.assuming(fc, [(reach, False)]) is not vg.FALSE and vg.subst(fc, {Z: at(front, "s")}) is not vg.FALSE, "entries", name + " position", f.loc(),
            "%s does not take the first entry at or beyond the position" % name)
    w = vg.assuming(w, [(past, False)])
    early = {a: vg.assuming(D, [(past, False)]) for a, D in early.items()}
    zz = {p for p in aper.atoms(w) if p.args[0] == "==" }
    w = vg.assuming(w, [(p, False) for p in zz])
    d = vg.mk("in", vg.mk("param", "step"))
    ways = [vg.assuming(settle(D), [(past, False)]) for D in aper.thresholds(v, early0)]
    R.check(bool(ways) or not early, "quick", name + " read", f.loc(), "%s has a quick test that accepts nothing" % name)
    for where, z, mine in (("front", at(front, "s"), front), ("back", at(back, "s"), back)):
        e = vg.subst(w, {Z: z})
        e = vg.subst(e, {at(front, "s"): vg.add(at(back, "s"), d)})
        e = aper.without(e, {vg.subst(a, {Z: z}): 0 for a in early})
        own = {at(mine, "ap%d" % k): k for k in (1, 2, 3, 4)}
        got = axes(F, R, C, f, e, "%s at its %s entry" % (name, where), lambda b: own.get(b, "another size"), True)
        if got is None:
            continue
        gx, gy, corner = got
        R.check(any(gx == set(h) and gy == set(q) for h, q, _ in ROLES[typ]), "roles", "%s %s" % (name, where), f.loc(),
                "%s, at its %s entry, bounds x by columns %s and y by columns %s of that entry" % (name, where, sorted(map(str, gx)), sorted(map(str, gy))))
        for D in ways:
            for b in sorted({b for ax in (0, 1) for b, _, _ in aper.scan(e, ax, (Y, X)[ax])[0]}, key=lambda b: b.id):
                R.check(aper.least(D, aper.positive(b)), "quick", "%s %s %s" % (name, where, vg.show(b).split(".")[-1]), f.loc(),
                        "%s accepts a particle by a quick test that does not keep to %s of its %s entry" % (name, vg.show(b).split(".")[-1], where))
        if typ == "OCTAGON":
            octagon(F, R, C, f, e, {k: at(mine, "ap%d" % k) for k in (1, 2, 3, 4)}, "%s at its %s entry" % (name, where))
    ang = {at(i, "ap%d" % k) for i in (front, back) for k in (3, 4)} if typ == "OCTAGON" else set()
    homogeneous(R, name, f, w, {at(i, "ap%d" % k) for i in (front, back) for k in (1, 2, 3, 4)} - ang, {at(front, "s"), at(back, "s")})
    # beyond the last entry there is still an answer from the entries (or none at all)
    clamped = vg.assuming(vg.subst(found, {n: last}), [(vg.cmp("<", Z, vg.ZERO), False), (past, True)] + [(vg.subst(a, {n: last}), False) for a in early])
    R.check(clamped is vg.TRUE or beyond(R, G, C, f, v, n, L, fld), "beyond", C["qn"], f.loc(), "%s, past its last entry, decides by sizes of no entry" % C["qn"])


def settle(w):
    """a value where the pair was found"""
    for _ in range(6):
        ks = [(a, a.args[1].args[0] == "broke") for a in aper.atoms(w) if a.args[0] == "t" and a.args[1].op == "f" and a.args[1].args[0] in ("broke", "left")]
        ks += [(a, False) for a in aper.atoms(w) if a.args[0] == "<" and a.args[1] is Z]
        if not ks:
            break
        w = vg.assuming(w, ks)
    return w


def beyond(R, G, C, f, v, n, L, fld):
    """past the last entry: the sizes compared are those of an entry, or the function does not return"""
    w = v
    for _ in range(6):
        ks = [(a, False) for a in aper.atoms(w) if a.args[0] == "t" and a.args[1].op == "f" and a.args[1].args[0] in ("broke", "left")]
        if not ks:
            break
        w = vg.assuming(w, ks)
    exits = [x for x in vg.walk(w) if x.op == "mu" and x is not n]
    sizes = any(p.op == "fld" and vg.root(p) is vg.root(L) for p in vg.inputs(w))
    init = set()
    for x in exits:
        a, b = G.mus.get(x, (None, None))
        if a is not None:
            init.add(a)
    return sizes or ended(R, G, f)


def ended(R, G, f):
    """the walk cannot run off the end: the last round aborts"""
    import c15
    F = R.F if hasattr(R, "F") else facts.load()
    for i in f.walk():
        if f.k(i) != "If":
            continue
        cond, then = f.c(i)[2], f.c(i)[3]
        last = [x for x in f.walk(cond) if f.k(x) == "Binary" and f.n(x)["op"] in ("==", ">=", ">")
                and any(f.k(y) == "Call" and (f.n(y).get("fn") or "").split("::")[-1] in ("size", "end", "prev") for y in f.walk(x))]
        if last and c15.always_throws(F, f, [then]):
            return True
    return False


def reading(F, R, V, I, fld):
    f = seq.body(F, I, "ConvertToStruct")
    its = [it for it in loops.iterations(F, f, V) if it.kind == "loop"]
    if not R.check(len(its) == 1 and not its[0].problems and not its[0].early, "reading", "every row", f.loc(), "not every row of the table becomes an entry"):
        return
    G = vg.Graph(F, opaque=lambda g: g.qn.startswith("DataTable"))
    push = lambda u: "push_back" in u
    G.watch = push
    G.vector_calls = True
    want = {"s": "S", "ap1": "APER_1", "ap2": "APER_2", "ap3": "APER_3", "ap4": "APER_4"}
    ent = vg.mk("fld", vg.mk("this"), seq.field(F, I, "ApEntry"))
    r, st, o = G.run(f)
    L = vg.mk("fld", vg.mk("this"), seq.field(F, I, "ApList"))
    pushed = [(p, x) for mu, (_, x) in G.mus.items() for p in [mu.args[2]] if vg.root(p) is vg.root(L)]
    for k, c in want.items():
        got = set()
        for p, x in pushed:
            if p.op == "fld" and p.args[1] == fld[k]:
                got.add(x)
            for y in vg.walk(x):
                if y.op == "rec":
                    got |= {z for q, z in y.args[1] if q == ("fld", fld[k])}
        names = {s.args[0] for x in got for s in vg.walk(x) if s.op == "str"}
        R.check(names == {c}, "reading", "column " + c, f.loc(), "entry %s is read from %s, not %s" % (k, sorted(names) or "nothing", c))


def collimator(F, R, C, f, ctor):
    from c18 import build
    P = [vg.mk("in", vg.mk("param", "a%d" % k)) for k in range(len(ctor.params))]
    name = C["qn"]
    val = {n: vg.mk("in", vg.mk("param", n)) for n in ("SetEntranceWidth", "SetEntranceHeight", "SetExitWidth", "SetExitHeight", "SetExitXOffset", "SetExitYOffset")}
    exits = [(k, v) for k, v in val.items() if "Exit" in k]
    Wd, Hd, T, Ln, XO, YO = P[:6]

    def dec(args=None, setters=exits):
        this, st = build(F, C, ctor, args or P, setters)
        return aper.decide(F, f, this, st)[0], this, st
    v, this, st = dec()
    if v is None:
        R.bad("axis", name, f.loc(), "%s gives no decision" % name)
        return
    w = vg.walk(v)
    for k, nm in ((0, "width"), (1, "height"), (2, "tilt"), (4, "horizontal offset"), (5, "vertical offset")) + (((6, "side"),) if len(P) > 6 else ()):
        R.check(P[k] in w, "dimension", "%s %s" % (name, nm), ctor.loc(), "the %s given to %s does not take part in its decision" % (nm, name))
    used = [k for k, x in exits if x in w]
    taper = bool(used) or Ln in w
    if taper:
        for k, x in exits:
            R.check(x in w, "dimension", "%s %s" % (name, k), f.loc(), "%s has no effect on the decision of %s" % (k, name))
        R.check(Ln in w, "dimension", name + " length", ctor.loc(), "the length given to %s does not take part in its decision" % name)
    # setters at the entrance are as constructing with the value
    for k, j in (("SetEntranceWidth", 0), ("SetEntranceHeight", 1)):
        a = list(P)
        a[j] = val[k]
        x, y = dec(None, [(k, val[k])] + exits)[0], dec(a)[0]
        R.check(vg.same(x, y), "setter", "%s %s" % (name, k), f.loc(), "%s does not have the effect on %s of constructing it with that value" % (k, name))
    # unset exits: parallel jaws
    z = vg.ZERO
    a = list(P)
    a[2] = a[4] = a[5] = z
    al = [(k, x if "Offset" not in k else z) for k, x in exits]
    sides = [vg.TRUE, vg.FALSE] if len(P) > 6 else [None]
    for side in sides:
        if side is not None:
            a[6] = side
        v = dec(a, al)[0]
        qs = aper.quicks(v)
        ways = aper.thresholds(v, qs)
        full = aper.without(v, qs)
        half = lambda q: vg.mul(q, vg.num(vg.Fraction(1, 2)))
        for where, zz, wd, hh in (("entrance", z, Wd, Hd), ("exit", Ln, val["SetExitWidth"] if taper else Wd, val["SetExitHeight"] if taper else Hd)):
            e = vg.subst(full, {Z: zz})
            key = "%s %s%s" % (name, where, "" if side is None else " side %s" % ("1" if side is vg.TRUE else "0"))
            for axis, other, size, nm in ((0, Y, wd, "x"), (1, X, hh, "y")):
                if side is not None and axis == 0:
                    s = vg.ONE if side is vg.TRUE else vg.num(-1)
                    atom = vg.cmp("<", vg.mul(s, X), half(size))
                    both = [atom, vg.cmp("<", vg.mul(vg.num(2), vg.mul(s, X)), size)]
                    ee = vg.subst(e, {other: z})
                    hit = [q for q in both if q in vg.walk(ee)]
                    R.check(len(hit) >= 1 and vg.assuming(ee, [(hit[0], False)]) is vg.FALSE and all(q in both or X not in vg.walk(q) for q in aper.atoms(ee)), "axis", "%s %s" % (key, nm), f.loc(),
                            "%s does not limit %s by half its width on its own side only" % (key, nm))
                    continue
                good, bad, ee = aper.scan(e, axis, other)
                ok = not bad and {b for b, _, _ in good} == {half(size)}
                R.check(ok, "axis", "%s %s" % (key, nm), f.loc(), "%s does not limit %s by half the gap given" % (key, nm))
                for b, q, sense in good:
                    R.check(vg.assuming(ee, [(q, not sense)]) is vg.FALSE, "side", "%s %s" % (key, nm), f.loc(), "%s: a particle beyond the jaw in %s is not outside" % (key, nm))
                for D in ways:
                    R.check(aper.least(D, half(size)), "quick", "%s %s" % (key, nm), f.loc(), "%s accepts a particle by a quick test that does not keep to the jaws in %s" % (key, nm))
        homogeneous(R, name, f, v, {Wd, Hd, XO, YO} | {x for k, x in exits}, {Ln})
        known = [(q, b[1]) for q in aper.atoms(full) for ax in (0, 1) for b in [aper.boundary(q, ax)] if b is not None]
        if side is None:
            R.check(vg.assuming(full, known) is vg.TRUE, "side", name + " within", f.loc(), "%s: a particle between the jaws is not inside" % name)
    # what is reported is what was given
    v, this, st = dec()
    want = {"GetFullEntranceWidth": Wd, "GetFullEntranceHeight": Hd, "GetFullExitWidth": val["SetExitWidth"], "GetFullExitHeight": val["SetExitHeight"], "GetEntranceXOffset": XO, "GetEntranceYOffset": YO,
            "GetExitXOffset": val["SetExitXOffset"], "GetExitYOffset": val["SetExitYOffset"], "GetCollimatorTilt": T, "GetCollimatorLength": Ln}
    for k, x in want.items():
        m, _ = seq.final(F, C["u"], k)
        g = F.fns.get(m["u"]) if m else None
        if g is None or g.load()["body"] < 0:
            continue
        r = vg.Graph(F).run(g, [], this, st.copy())[0]
        R.check(r is x, "reports", "%s %s" % (name, k), g.loc(), "%s of %s does not return what was given" % (k, name))
    # exits left alone are the entrance
    if taper:
        r = dec(a, [])[0]
        al = [(k, Wd if k == "SetExitWidth" else Hd if k == "SetExitHeight" else z) for k, _ in exits]
        R.check(vg.same(r, dec(a, al)[0]), "setter", name + " exit left alone", ctor.loc(), "%s whose exit gap is not set does not keep its entrance gap" % name)
