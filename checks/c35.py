"""C35: coordinate transformations compose, invert and specialise consistently."""
import sys
import facts
import frames
import poly
from frames import Mat, Obj, Ptr, Raised, Stuck
from report import Report

R = F = None
USED = set()
UNDECIDED = []
KINDS = ("Identity", "X", "Y", "Z", "General")


def cls(qn):
    return F.cls(qn)


def find(cu, name, pts, static=None):
    """member function by parameter types (each type a substring)"""
    for b in [cu] + list(F.all_bases(cu, True)):
        for g in F.fns.values():
            if g.cls == b and (g.name == name or name == "ctor" and g.kind == "ctor") and len(g.load()["params"]) == len(pts) and \
                    all(p in g.vars[v][1] for v, p in zip(g.params, pts)):
                return g
    return None


def friend(name, pts):
    for g in F.fns.values():
        if g.name == name and not g.cls and len(g.load()["params"]) == len(pts) and g.body >= 0 and all(frames.bare(g.vars[v][1]) == p for v, p in zip(g.params, pts)):
            return g
    return None


def need(g, what):
    if g is None:
        raise facts.Broken("C35: %s not found" % what)
    return g


def a(n):
    return poly.atom(n)


def tag_of(kind):
    return F.by_ty["TVec3D<double, %sTag>" % kind]["u"]


def vec(names, kind="Point", dim=3):
    o = Obj(F.by_ty["TVec%dD<double, %sTag>" % (dim, kind)]["u"])
    c = F.classes[o.cls]
    for x, n in zip([fl for fl in c["fields"]], names):
        o.f[x["u"]] = n if isinstance(n, poly.P) else a(n)
    return o


def comps(o):
    c = F.classes[o.cls]
    return [o.f[x["u"]] for x in c["fields"]]


# ---- rotations
def rotation(E, kind, n=""):
    u = cls("Rotation3D")["u"]
    if kind == "Identity":
        return E.fn(need(find(u, "identity", []), "Rotation3D::identity"), [])
    if kind in "XYZ":
        return E.fn(need(find(u, "rotation" + kind, ["double"]), "Rotation3D::rotation" + kind), [a("phi" + kind + n)])
    x, y = rotation(E, "X", n), rotation(E, "Y", n)
    return times(E, x, y)


def times(E, A, B):
    return E.fn(need(find(A.cls, "operator*", [F.classes[A.cls]["qn"].split("::")[-1]]), "product"), [B], A)


def on(E, T, p):
    t = F.classes[p.cls]["ty"]
    for g in F.fns.values():
        if g.name == "operator()" and g.cls == T.cls and len(g.load()["params"]) == 1 and frames.bare(g.vars[g.params[0]][1]) == t:
            return E.fn(g, [p], T)
    raise facts.Broken("C35: no application of %s" % F.classes[T.cls]["qn"])


def meth(E, T, name, *args):
    g = find(T.cls, name, [""] * len(args))
    g = need(g, F.classes[T.cls]["qn"] + "::" + name)
    g = E.impl(g.u, T.cls)
    return E.fn(g, list(args), T)


def prove(kind, key, loc, what, fn):
    """fn(E) -> pairs of values that must agree, on every path, under what the path assumes"""
    poly.fineness(2)
    try:
        while True:
            try:
                ps, used = frames.paths(F, fn)
                break
            except poly.Finer:
                poly.fineness(poly.D * 2)
    except (Stuck, KeyError, AttributeError, IndexError, TypeError, ValueError, StopIteration) as e:
        UNDECIDED.append("%s %s: %s %s" % (kind, key, type(e).__name__, e))
        return
    USED.update(used)
    n = 0
    bad = None
    for assumed, r in ps:
        if r is Raised or r is None:
            continue
        n += 1
        for m in frames.cases(assumed):
            for x, y, nm in r:
                if isinstance(x, bool) or isinstance(y, bool):
                    if x != y:
                        bad = bad or "%s: %s instead of %s%s" % (nm, x, y, told(m))
                    continue
                u, v = frames.put(x, m), frames.put(y, m)
                if u != v and bad is None:
                    bad = "%s is %s instead of %s%s" % (nm, u, v, told(m))
    if not n:
        bad = "every path raises an error"
    R.check(bad is None, kind, key, loc, "%s: %s" % (what, bad))


def told(m):
    return "" if not m else " when " + ", ".join("%s = %s" % (poly.name(k), v) for k, v in sorted(m.items(), key=str))


def pairs(p, q):
    return [(x, y, n) for x, y, n in zip(comps(p), comps(q), "xyz")]


def loc_of(cu, name, pts=None):
    g = find(cu, name, pts or []) if pts is not None else next((g for g in F.fns.values() if g.cls == cu and g.name == name and g.load()["body"] >= 0), None)
    return g.loc(g.body) if g is not None else F.classes[cu]["file"]


def rep(E, r):
    u = cls("Rotation3D")
    fl = [x["u"] for x in u["fields"] if "Rot3Drep" in (x.get("ty") or x.get("t", ""))]
    return r.f[fl[0]].o


def matrix(E, r):
    m = Mat(0, 0)
    meth(E, r, "getMatrix", m)
    return m


def rotations():
    u = cls("Rotation3D")["u"]
    rc = {"Identity": "IdentityRotation", "X": "RotationX", "Y": "RotationY", "Z": "RotationZ", "General": "GeneralRotation"}

    def at(kind, name):
        return loc_of(cls(rc[kind])["u"], name)

    for K in KINDS:
        for V in ("Point", "Vector"):
            def f(E):
                r = rotation(E, K)
                p = vec("xyz", V)
                m = matrix(E, r)
                q = comps(on(E, r, p))
                x = comps(p)
                return [(q[i], poly.add(poly.add(poly.mul(m.d[(i, 0)], x[0]), poly.mul(m.d[(i, 1)], x[1])), poly.mul(m.d[(i, 2)], x[2])), "xyz"[i]) for i in range(3)]
            prove("matrix", "%s %s" % (rc[K], V), at(K, "rotate"), "rotating a %s by a %s does not agree with its matrix" % (V.lower(), rc[K]), f)

        def f(E):
            r = rotation(E, K)
            p = vec("xyz")
            return pairs(on(E, meth(E, r, "inv"), on(E, r, p)), p) + pairs(on(E, r, on(E, meth(E, r, "inv"), p)), p)
        prove("inverse", rc[K], at(K, "inv"), "a %s and its inverse do not cancel" % rc[K], f)
        for ax, sg in (("X", (1, -1, -1)), ("Y", (-1, 1, -1)), ("Z", (-1, -1, 1))):
            def f(E):
                r = rotation(E, K)
                x = [a(n) for n in "xyz"]
                flip = [v if s > 0 else poly.neg(v) for v, s in zip(x, sg)]
                q = comps(on(E, r, vec(flip)))
                want = [v if s > 0 else poly.neg(v) for v, s in zip(q, sg)]
                return pairs(on(E, meth(E, r, "rot%sbyPI" % ax), vec("xyz")), vec(want))
            prove("turned", "%s %s" % (rc[K], ax), at(K, "rot%sbyPI" % ax), "rot%sbyPI of a %s is not the rotation seen from axes turned by 180 degrees" % (ax, rc[K]), f)
        for L in KINDS:
            def f(E):
                r, s = rotation(E, K, "1"), rotation(E, L, "2")
                p = vec("xyz")
                return pairs(on(E, times(E, r, s), p), on(E, r, on(E, s, p)))
            prove("product", "%s %s" % (rc[K], rc[L]), at(L, "dotBy"), "the product of %s and %s is not one after the other" % (rc[K], rc[L]), f)
    # sense of rotation: alike for the axes, and by the angle given
    for k, K in enumerate("XYZ"):
        def f(E):
            r = rotation(E, K)
            t = a("phi" + K)
            x = [a(n) for n in "xyz"]
            c, s = poly.cos(t), poly.sin(t)
            i, j = (k + 1) % 3, (k + 2) % 3
            want = list(x)
            want[i] = poly.add(poly.mul(c, x[i]), poly.mul(s, x[j]))
            want[j] = poly.sub(poly.mul(c, x[j]), poly.mul(s, x[i]))
            return pairs(on(E, r, vec("xyz")), vec(want))
        prove("axis", K, loc_of(u, "rotation" + K), "rotation%s does not turn the axes about %s by the angle given" % (K, K.lower()), f)
    # what a rotation says it is
    flags = ("isIdentity", "isXrot", "isYrot", "isZrot")
    names = {"Identity": "ident", "X": "xrot", "Y": "yrot", "Z": "zrot", "General": "mixed"}
    for K in KINDS:
        for q, flag in enumerate(flags):
            def f(E):
                r = rotation(E, K)
                ans = meth(E, r, flag)
                m = matrix(E, r)
                must = K == ("Identity", "X", "Y", "Z")[q]
                if must and K != "Identity" and F.classes[rep(E, r).cls]["qn"].split("::")[-1] == "IdentityRotation":
                    return []           # no rotation at all
                if must:
                    return [(ans, True, flag)]
                if ans:
                    if K == "General":
                        # what the answer assumed must leave nothing but such a rotation
                        out = []
                        for i in ((0, 1, 2) if q == 0 else (q - 1,)):
                            out.append((m.d[(i, i)], poly.ONE, "%s of a rotation with matrix element (%d,%d)" % (flag, i, i)))
                        return out
                    if K != "Identity":
                        return [(m.d[(i, j)], poly.ONE if i == j else poly.ZERO, "%s, matrix element (%d,%d)" % (flag, i, j))
                                for i in range(3) for j in range(3) if q == 0 or i == q - 1 or j == q - 1]
                return [(True, True, flag)]
            if K == "Identity" and q:
                continue
            prove("kind", "%s %s" % (rc[K], flag), at(K, flag) if at(K, flag) else loc_of(u, flag), "%s of a %s is wrong" % (flag, rc[K]), f)


def transform(E, K, n="", cl="Transform3D"):
    u = cls(cl)["u"]
    x0 = vec(["X" + n, "Y" + n, "Z" + n])
    T = Obj(u)
    E.fn(need(find(u, "ctor", ["TVec3D", "Rotation3D"]) or find(u, "ctor", ["Point3D", "Rotation3D"]), "Transform3D(X,R)"), [x0, rotation(E, K, n)], T)
    return T


def transforms():
    u = cls("Transform3D")["u"]
    some = (("Identity", "Identity"), ("X", "Y"), ("Y", "General"), ("General", "Z"), ("Z", "X"), ("General", "General"), ("Y", "Y"))
    for K, L in some:
        def f(E):
            t, s = transform(E, K, "1"), transform(E, L, "2")
            p, v = vec("xyz"), vec("xyz", "Vector")
            w = times(E, t, s)
            return pairs(on(E, w, p), on(E, t, on(E, s, p))) + pairs(on(E, w, v), on(E, t, on(E, s, v)))
        prove("compose", "Transform3D %s %s" % (K, L), loc_of(u, "operator*="), "t*s is not s followed by t", f)

        def f(E):
            t, s = transform(E, K, "1"), transform(E, L, "2")
            p = vec("xyz")
            want = on(E, t, on(E, s, p))
            E.fn(need(find(u, "operator*=", ["Transform3D"]), "*="), [t], s)
            return pairs(on(E, s, p), want)
        prove("compose", "Transform3D *= %s %s" % (K, L), loc_of(u, "operator*="), "s*=t is not s followed by t", f)
    for K in KINDS:
        def f(E):
            t = transform(E, K)
            p = vec("xyz")
            i = meth(E, t, "inv")
            return pairs(on(E, i, on(E, t, p)), p) + pairs(on(E, t, on(E, i, p)), p)
        prove("inverse", "Transform3D " + K, loc_of(u, "inv"), "a transformation and its inverse do not cancel", f)

        def f(E):
            t = transform(E, K)
            p = vec("xyz")
            q = on(E, t, p)
            r = meth(E, t, "invert")
            return pairs(on(E, t, q), p) + pairs(on(E, r, q), p)
        prove("inverse", "Transform3D in place " + K, loc_of(u, "invert"), "inverting a transformation does not give its inverse", f)
        for ax, sg in (("X", (1, -1, -1)), ("Y", (-1, 1, -1)), ("Z", (-1, -1, 1))):
            def f(E):
                t = transform(E, K)
                x = [a(n) for n in "xyz"]
                q = comps(on(E, t, vec([v if s > 0 else poly.neg(v) for v, s in zip(x, sg)])))
                want = [v if s > 0 else poly.neg(v) for v, s in zip(q, sg)]
                meth(E, t, "rot%sbyPI" % ax)
                return pairs(on(E, t, vec("xyz")), vec(want))
            prove("turned", "Transform3D %s %s" % (K, ax), loc_of(u, "rot%sbyPI" % ax), "rot%sbyPI is not the transformation seen from axes turned by 180 degrees" % ax, f)

        def f(E):
            t = transform(E, K)
            if meth(E, t, "isIdentity"):
                return pairs(on(E, t, vec("xyz")), vec("xyz"))
            return [(True, True, "")]
        prove("kind", "Transform3D isIdentity " + K, loc_of(u, "isIdentity"), "a transformation that moves points calls itself the identity", f)

    def f(E):
        t = Obj(u)
        E.fn(need(find(u, "ctor", []), "Transform3D()"), [], t)
        return pairs(on(E, t, vec("xyz")), vec("xyz")) + [(meth(E, t, "isIdentity"), True, "isIdentity")]
    prove("kind", "Transform3D()", loc_of(u, "Transform3D", []), "the default transformation", f)
    for K in "XYZ":
        def f(E):
            t = E.fn(need(find(u, "rotation" + K, ["double"]), "rotation"), [a("phi" + K)])
            return pairs(on(E, t, vec("xyz")), on(E, rotation(E, K), vec("xyz")))
        prove("axis", "Transform3D " + K, loc_of(u, "rotation" + K), "Transform3D::rotation%s is not that rotation" % K, f)

    def f(E):
        t = E.fn(need(find(u, "translation", ["double"] * 3), "translation"), [a("X"), a("Y"), a("Z")])
        return pairs(on(E, t, vec("xyz")), vec([poly.sub(a(p), a(q)) for p, q in zip("xyz", "XYZ")]))
    prove("axis", "Transform3D translation", loc_of(u, "translation"), "translation does not move the origin by what was given", f)


def flat():
    u = cls("Transform2D")["u"]
    ru = cls("Rotation2D")["u"]

    def T(E, n=""):
        t = Obj(u)
        E.fn(need(find(u, "ctor", ["double"] * 3), "Transform2D(dx,dy,dphi)"), [a("X" + n), a("Y" + n), a("phi" + n)], t)
        return t

    def Ro(E, n=""):
        t = Obj(ru)
        E.fn(need(find(ru, "ctor", ["double"]), "Rotation2D(angle)"), [a("phi" + n)], t)
        return t

    def p2(kind="Point"):
        return vec("xy", kind, 2)
    for nm, make, cu in (("Transform2D", T, u), ("Rotation2D", Ro, ru)):
        for V in ("Point", "Vector"):
            def f(E):
                t, s = make(E, "1"), make(E, "2")
                g = need(friend("operator*", [nm, nm]) or find(cu, "operator*", [nm]), nm + " product")
                w = E.fn(g, [t, s]) if not g.cls or len(g.params) == 2 else E.fn(g, [s], t)
                want = on(E, t, on(E, s, p2(V)))
                r = pairs(on(E, w, p2(V)), want)
                E.fn(need(find(cu, "operator*=", [nm]), nm + " *="), [t], s)
                return r + pairs(on(E, s, p2(V)), want)
            prove("compose", "%s %s" % (nm, V), loc_of(cu, "operator*="), "t*s (or s*=t) is not s followed by t", f)

            def f(E):
                t = make(E)
                q = on(E, t, p2(V))
                r = pairs(on(E, meth(E, t, "inv"), q), p2(V))
                meth(E, t, "invert")
                return r + pairs(on(E, t, q), p2(V))
            prove("inverse", "%s %s" % (nm, V), loc_of(cu, "invert"), "a %s and its inverse do not cancel" % nm, f)

        def f(E):
            t = make(E)
            if meth(E, t, "isIdentity"):
                return pairs(on(E, t, p2()), p2())
            return [(True, True, "")]
        prove("kind", "%s isIdentity" % nm, loc_of(cu, "isIdentity"), "a %s that moves points calls itself the identity" % nm, f)

    def f(E):
        t = Ro(E)
        return [(meth(E, t, "rotation"), a("phi"), "rotation()"), (meth(E, t, "sinphi"), poly.sin(a("phi")), "sinphi()"), (meth(E, t, "cosphi"), poly.cos(a("phi")), "cosphi()")]
    prove("axis", "Rotation2D", loc_of(ru, "rotation"), "a Rotation2D does not report the angle it was made with", f)

    def f(E):
        t, s = Ro(E, "1"), Ro(E, "2")
        meth(E, t, "setRotation", a("phi2"))
        return pairs(on(E, t, p2()), on(E, s, p2()))
    prove("axis", "Rotation2D setRotation", loc_of(ru, "setRotation"), "setting the angle is not making one with it", f)

    def f(E):
        t = T(E)
        o = vec([poly.ZERO, poly.ZERO], "Point", 2)
        s = Obj(u)
        E.fn(need(find(u, "ctor", ["double"] * 3), "Transform2D"), [poly.ZERO] * 3, s)
        meth(E, s, "setRotation", a("phi"))
        meth(E, s, "setTranslationX", a("X"))
        meth(E, s, "setTranslationY", a("Y"))
        return pairs(on(E, s, p2()), on(E, t, p2())) + [(meth(E, t, "rotationAngle"), a("phi"), "rotationAngle()")]
    prove("axis", "Transform2D set", loc_of(u, "setRotation"), "setting rotation and translation is not making one with them", f)


def geometries():
    def arc(E, h=True):
        u = cls("ArcGeometry")["u"]
        g = Obj(u)
        E.fn(need(find(u, "ctor", ["double", "double"]), "ArcGeometry"), [a("len"), a("h")], g)
        return g

    def rect(E):
        u = cls("RectangularGeometry")["u"]
        g = Obj(u)
        E.fn(need(find(u, "ctor", ["double"]), "RectangularGeometry"), [a("len")], g)
        return g
    for nm, make in (("ArcGeometry", arc), ("RectangularGeometry", rect)):
        u = cls(nm)["u"]

        def between(E, g, s0, s1):
            return E.fn(E.impl(need(find(u, "GetGeometryTransform", ["double", "double"]), nm).u, u), [s0, s1], g)

        def plane(E, g, name):
            v = enumval(name)
            return E.fn(E.impl(need(find(u, "GetGeometryTransform", ["BoundaryPlane"]), nm).u, u), [v], g)
        loc = loc_of(u, "GetGeometryTransform")

        def f(E):
            g = make(E)
            p = vec("xyz")
            return pairs(on(E, between(E, g, a("s1"), a("s2")), on(E, between(E, g, a("s0"), a("s1")), p)), on(E, between(E, g, a("s0"), a("s2")), p))
        prove("geometry", nm + " parts", loc, "going from s0 to s1 and on to s2 is not going from s0 to s2", f)

        def f(E):
            g = make(E)
            p = vec("xyz")
            return pairs(on(E, between(E, g, a("s1"), a("s0")), on(E, between(E, g, a("s0"), a("s1")), p)), p)
        prove("geometry", nm + " back", loc, "going from s0 to s1 and back does not come back", f)

        def f(E):
            g = make(E)
            p = vec("xyz")
            return pairs(on(E, plane(E, g, "exit"), p), on(E, E.fn(E.impl(need(find(u, "GetTotalGeometryTransform", []), nm).u, u), [], g), on(E, plane(E, g, "entrance"), p)))
        prove("geometry", nm + " total", loc_of(u, "GetTotalGeometryTransform"), "the way to the entrance and through the whole length does not lead to the exit", f)
        half = poly.mul(poly.num("1/2"), a("len"))
        for pl, s in (("entrance", poly.neg(half)), ("exit", half)):
            def f(E):
                g = make(E)
                p = vec("xyz")
                return pairs(on(E, plane(E, g, pl), p), on(E, between(E, g, poly.ZERO, s), p))
            prove("geometry", "%s %s" % (nm, pl), loc, "the %s plane is not where half the length leads" % pl, f)


def field(u, name):
    for b in [u] + list(F.all_bases(u, True)):
        for x in F.classes[b]["fields"]:
            if x["n"] == name:
                return x["u"]
    raise facts.Broken("C35: no member %s" % name)


def typed(u, pred):
    for b in [u] + list(F.all_bases(u, True)):
        for x in F.classes[b]["fields"]:
            if pred(x["t"]):
                return x["u"]
    raise facts.Broken("C35: no such member of " + F.classes[u]["qn"])


def sequences():
    """a sequence of frames: sub-geometries of given lengths, places by number (only their order decides), curvatures left open"""
    u = cls("SequenceGeometry")["u"]
    L = cls("LatticeFrame")["u"]
    geo = typed(L, lambda t: "AcceleratorGeometry" in t and "*" in t)
    gt = need(find(u, "GetGeometryTransform", ["double", "double"]), "SequenceGeometry")
    gp = need(find(u, "GetGeometryTransform", ["BoundaryPlane"]), "SequenceGeometry")
    tot = need(find(u, "GetTotalGeometryTransform", []), "SequenceGeometry")
    ext = need(find(u, "GetGeometryExtent", []), "SequenceGeometry")
    calc = need(find(u, "CalculateCachedTransforms", []), "SequenceGeometry")
    ctor = next((g for g in F.fns.values() if g.kind == "ctor" and g.cls == u and any("Origin" in g.vars[v][1] for v in g.load()["params"]) and g.body >= 0), None)
    need(ctor, "SequenceGeometry constructor")

    def build(E, lens, mode):
        items = []
        for k, (kind, l) in enumerate(lens):
            gu = cls("ArcGeometry" if kind == "A" else "RectangularGeometry")["u"]
            g = Obj(gu)
            if kind == "A":
                E.fn(need(find(gu, "ctor", ["double", "double"]), "ArcGeometry"), [poly.num(l), a("h%d" % k)], g)
            else:
                E.fn(need(find(gu, "ctor", ["double"]), "RectangularGeometry"), [poly.num(l)], g)
            fr = Obj(L)
            fr.f[geo] = Ptr(g)
            items.append(Ptr(fr))
        S = Obj(u)
        args = [Ptr(frames.Lst(items)) if "*" in ctor.vars[v][1] else enumval(mode) for v in ctor.params]
        E.fn(ctor, args, S)
        S.f[typed(u, lambda t: t == "double")] = poly.num(sum(l for _, l in lens))
        E.fn(calc, [], S)
        return S

    def part(E, lens, s0, s1, p):
        """from s0 to s1 (s0 <= s1, from the entrance) frame by frame, with the frames' own geometry"""
        at = 0
        for k, (kind, l) in enumerate(lens):
            x, y = max(s0, at), min(s1, at + l)
            if x < y:
                gu = cls("ArcGeometry" if kind == "A" else "RectangularGeometry")["u"]
                g = Obj(gu)
                if kind == "A":
                    E.fn(find(gu, "ctor", ["double", "double"]), [poly.num(l), a("h%d" % k)], g)
                else:
                    E.fn(find(gu, "ctor", ["double"]), [poly.num(l)], g)
                t = E.fn(E.impl(find(gu, "GetGeometryTransform", ["double", "double"]).u, gu), [poly.num(x - at - poly.Fraction(l, 2)), poly.num(y - at - poly.Fraction(l, 2))], g)
                p = on(E, t, p)
            at += l
        return p
    lay = {"in the first part of a frame": (("A", 1), ("R", 1), ("A", 3), ("R", 1)), "at a joint": (("R", 2), ("A", 1), ("A", 3)),
           "in the last part of a frame": (("A", 3), ("R", 1))}
    for where, lens in sorted(lay.items()):
        n = sum(l for _, l in lens)
        places = sorted({0, n, n // 2, 1} | {sum(l for _, l in lens[:k]) for k in range(len(lens))})
        for mode, off in (("originAtEntrance", 0), ("originAtCenter", n // 2), ("originAtExit", n)):
            def f(E):
                S = build(E, lens, mode)
                out = []
                for s0 in places:
                    for s1 in places:
                        if s0 < s1 and (s0, s1) != (0, n):
                            p = vec("xyz")
                            q = part(E, lens, s0, s1, p)
                            out += pairs(on(E, E.fn(gt, [poly.num(s0 - off), poly.num(s1 - off)], S), p), q)
                            out += pairs(on(E, E.fn(gt, [poly.num(s1 - off), poly.num(s0 - off)], S), q), p)
                return out
            prove("sequence", "%s centre %s: parts" % (mode, where), gt.loc(gt.body), "the way from one place of a sequence to another (or back) is not that through its frames", f)

            def f(E):
                S = build(E, lens, mode)
                p = vec("xyz")
                q = part(E, lens, 0, n, p)
                e = E.fn(ext, [], S)
                return pairs(on(E, E.fn(tot, [], S), p), q) + pairs(on(E, E.fn(gt, [poly.num(-off), poly.num(n - off)], S), p), q) \
                    + [(e.f["first"], poly.num(-off), "start"), (e.f["second"], poly.num(n - off), "end")]
            prove("sequence", "%s centre %s: total" % (mode, where), tot.loc(tot.body), "the way through a whole sequence is not that through its frames", f)

            def f(E):
                S = build(E, lens, mode)
                p = vec("xyz")
                q = part(E, lens, 0, off, p)
                z = part(E, lens, off, n, p)
                return pairs(on(E, E.fn(gp, [enumval("entrance")], S), q), p) + pairs(on(E, E.fn(gp, [enumval("exit")], S), p), z)
            prove("sequence", "%s centre %s: planes" % (mode, where), calc.loc(calc.body), "the way from a sequence's origin to its entrance or exit is not that through its frames", f)


def enumval(name):
    for x in F.enums.values():
        for n, v in x["vals"]:
            if n.split("::")[-1] == name:
                return poly.num(int(v))
    raise facts.Broken("C35: no enumerator " + name)


def run():
    global R, F
    sys.setrecursionlimit(20000)
    R = Report("C35", "the transformation classes are evaluated over exact symbolic numbers (polynomials in coordinates, cosines and sines with cos²+sin²=1 and the addition theorems); "
               "open comparisons split the evaluation and each branch is judged under what it assumes; the group laws must come out as identities")
    F = facts.load()
    rotations()
    transforms()
    flat()
    geometries()
    sequences()
    for k, n in (("matrix", 5), ("inverse", 10), ("product", 13), ("turned", 15), ("compose", 9), ("kind", 13), ("axis", 5), ("geometry", 5), ("sequence", 13)):
        R.floor(k, n - sum(1 for x in UNDECIDED if x.startswith(k + " ")))
    R.extra["undecided"] = UNDECIDED
    for x in UNDECIDED:
        print("C35 undecided: " + x[:200])
    R.extra["functions_followed"] = sorted({F.fns[u].qn for u in USED})
    return R.finish(F)
