"""C18: apertures treat mirror images alike; collimators do so about their own, shifted and turned, axes."""
import facts
import seq
import vg
import aper
from aper import X, Y, Z
from report import Report


def run():
    F = facts.load()
    R = Report("C18", "Value graphs: the decision of every aperture class is written as a normal form in x, y, z and the dimensions, following constructors; "
               "replacing x by -x or y by -y must leave the normal form unchanged, case by case of the conditions in it. For collimators: unchanged for jaws aligned; "
               "the decision for jaws offset or tilted is the aligned decision at the shifted or turned position; a one-sided jaw mirrors with its side.")
    coll = F.cls("CollimatorAperture")
    if coll is None:
        raise facts.Broken("anchor vanished: class CollimatorAperture")
    cu = set(F.all_subs(coll["u"])) | {coll["u"]}
    n = 0
    for C, f, ctors in aper.classes(F):
        n += 1
        if C["u"] in cu:
            for c in ctors:
                collimator(F, R, C, f, c)
            continue
        v, G, o = aper.decide(F, f, None)
        if v is None:
            R.check(all(k == "throw" for k in o.k) , "refuses", C["qn"], f.loc(), "%s gives no decision" % C["qn"])
            continue
        bad = [a for a in vg.walk(v) if a.op == "call" and (X in vg.walk(a) or Y in vg.walk(a))]
        if not R.check(not bad, "readable", C["qn"], f.loc(), "%s decides through a call that cannot be followed" % C["qn"]):
            continue
        for s, nm in ((X, "x"), (Y, "y")):
            R.check(vg.same(v, vg.subst(v, {s: vg.neg(s)})), "mirror", "%s %s" % (C["qn"], nm), f.loc(), "%s judges a particle and its mirror image in %s differently" % (C["qn"], nm))
        through_state(F, R, C, f)
    R.floor("mirror", 15)
    R.extra["classes"] = n
    return R.finish(F)


def through_state(F, R, C, f):
    """the decision is a pure reading: it does not change the aperture (a mirror image judged next meets the same aperture)"""
    writes = []
    for i in f.walk():
        k = f.n(i)
        if k["k"] in ("Assign", "Binary") and k.get("op", "").endswith("=") and k["op"] not in ("==", "!=", "<=", ">="):
            t = f.c(i)[0]
            while f.k(t) in ("Member", "Index", "Cast") and f.c(t):
                t = f.c(t)[0]
            if f.k(t) == "This":
                writes.append(i)
    R.check(not writes, "pure", C["qn"], f.loc(writes[0]) if writes else f.loc(), "%s changes itself while deciding" % C["qn"])


def build(F, C, ctor, args, setters=()):
    this = vg.mk("deref", vg.mk("in", vg.mk("param", "fresh")))
    G = vg.Graph(F, opaque=aper.table)
    _, st, _ = G.run(ctor, args, this)
    for name, val in setters:
        m, _ = seq.final(F, C["u"], name)
        g = F.fns.get(m["u"]) if m else None
        if g is None or g.load()["body"] < 0:
            raise facts.Broken("anchor vanished: %s::%s" % (C["qn"], name))
        _, st, _ = G.run(g, [val], this, st)
    return this, st


def collimator(F, R, C, f, ctor):
    if len(ctor.params) < 6:
        R.bad("constructor", C["qn"], ctor.loc(), "collimator constructor with unknown parameters")
        return
    P = [vg.mk("in", vg.mk("param", "a%d" % k)) for k in range(len(ctor.params))]
    we, he = (vg.mk("in", vg.mk("param", n)) for n in ("exit width", "exit height"))
    exits = [("SetExitWidth", we), ("SetExitHeight", he)]

    def dec(t, xo, yo, xe, ye, side=None):
        a = list(P)
        a[2], a[4], a[5] = t, xo, yo
        if side is not None:
            a[6] = side
        this, st = build(F, C, ctor, a, exits + [("SetExitXOffset", xe), ("SetExitYOffset", ye)])
        v, _, _ = aper.decide(F, f, this, st)
        return v
    z = vg.ZERO
    v = dec(z, z, z, z, z)
    name = C["qn"]
    if v is None:
        R.bad("mirror", name, f.loc(), "%s gives no decision" % name)
        return
    R.check(vg.same(v, vg.subst(v, {Y: vg.neg(Y)})), "mirror", name + " y", f.loc(), "%s, aligned, judges a particle and its mirror image in y differently" % name)
    if len(P) > 6:
        l, r = dec(z, z, z, z, z, vg.TRUE), dec(z, z, z, z, z, vg.FALSE)
        R.check(vg.same(l, vg.subst(r, {X: vg.neg(X)})), "mirror", name + " x and side", f.loc(), "the two sides of %s are not mirror images in x" % name)
        w = aper.X
        big = [b for b in aper.scan(aper.without(l, aper.quicks(l)), 0, Y)[0]]
        R.check(not vg.same(l, r), "mirror", name + " sides differ", f.loc(), "the two sides of %s are the same" % name)
    else:
        R.check(vg.same(v, vg.subst(v, {X: vg.neg(X)})), "mirror", name + " x", f.loc(), "%s, aligned, judges a particle and its mirror image in x differently" % name)
    plain = aper.without(v, aper.quicks(v))
    xo, yo, t = P[4], P[5], P[2]
    s = dec(z, xo, yo, xo, yo)
    s = aper.without(s, aper.quicks(s))
    R.check(vg.same(s, vg.subst(plain, {X: vg.sub(X, xo), Y: vg.sub(Y, yo)})), "offset", name, f.loc(), "%s offset by (dx, dy) does not judge a particle as aligned jaws judge it at (x - dx, y - dy)" % name)
    s = dec(t, z, z, z, z)
    s = aper.without(s, aper.quicks(s))
    c, sn = vg.fun("cos", t), vg.fun("sin", t)
    want = vg.subst(plain, {X: vg.add(vg.mul(X, c), vg.mul(Y, sn)), Y: vg.sub(vg.mul(Y, c), vg.mul(X, sn))})
    R.check(vg.same(s, want), "tilt", name, f.loc(), "%s tilted does not judge a particle as aligned jaws judge it turned back by the tilt" % name)
    s = dec(t, xo, yo, xo, yo)
    s = aper.without(s, aper.quicks(s))
    R.check(vg.same(s, vg.subst(want, {X: vg.sub(X, xo), Y: vg.sub(Y, yo)})), "tilt", name + " and offset", f.loc(), "%s tilted and offset does not judge a particle as aligned jaws judge it turned back about their own centre" % name)
    # jaws whose offset changes from the entrance to the exit
    xe, ye = (vg.mk("in", vg.mk("param", k)) for k in ("exit x offset", "exit y offset"))
    g = dec(z, xo, yo, xe, ye)
    gp = aper.without(g, aper.quicks(g))
    if xe in vg.walk(gp) or ye in vg.walk(gp):
        for where, zz, dx, dy in (("entrance", z, xo, yo), ("exit", P[3], xe, ye)):
            at = vg.subst(plain, {aper.Z: zz})
            R.check(vg.same(vg.subst(gp, {aper.Z: zz}), vg.subst(at, {X: vg.sub(X, dx), Y: vg.sub(Y, dy)})), "offset", "%s at its %s" % (name, where), f.loc(),
                    "%s does not judge a particle at its %s as aligned jaws judge it at (x - dx, y - dy) with the offset there" % (name, where))
    # a quick acceptance about the axis only where nothing is offset
    for k, off in (("entrance x", xo), ("entrance y", yo), ("exit x", xe), ("exit y", ye)):
        h = vg.assuming(dec(t, xo, yo, xe, ye), [(vg.cmp("==", off, z), False)])
        R.check(not aper.quicks(h), "quick", "%s %s offset" % (name, k), f.loc(), "%s with its %s offset set still accepts particles by their distance from the axis" % (name, k))
    through_state(F, R, C, f)
