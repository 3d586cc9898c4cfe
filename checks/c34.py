"""C34: an element whose field is off is a drift."""
import beam
import integ
import vg
from vg import mk, num, ZERO, ONE
from report import Report

DRIFT = "DriftCI"


def identities(v):
    """sin^2 = 1 - cos^2, inside out"""
    for _ in range(6):
        m = {}
        for d in vg.walk(v):
            if d.op == "poly" and d is not v:
                w = identity(d)
                if w is not d:
                    m[d] = w
        w = identity(vg.subst(v, m) if m else v)
        if w is v:
            break
        v = w
    return v


def identity(v):
    """sin^2 = 1 - cos^2, throughout a sum of products"""
    for _ in range(40):
        t = vg.terms(v)
        for m, c in t.items():
            k = next((k for k, (a, e) in enumerate(m) if a.op == "f" and a.args[0] == "sin" and e >= 2), None)
            if k is not None:
                a, e = m[k]
                cos = vg.fun("cos", a.args[1])
                rest = vg.from_terms({tuple(x for j, x in enumerate(m) if j != k) + (((a, e - 2),) if e > 2 else ()): c})
                one = vg.sub(ONE, vg.mul(cos, cos))
                t = dict(t)
                del t[m]
                v = vg.add(vg.from_terms(t), vg.mul(rest, one))
                break
        else:
            return v
    return v


def known_zero(S):
    """what the case taken says is zero"""
    return [c.args[1] for (c, f, i), v in zip(S.G.order, S.G.taken) if v and c.op == "b" and c.args[0] == "==" and len(c.args) == 2]


def modulo(v, zeros, keep=()):
    """v where the given sums are zero: one term of each is expressed by the others"""
    for z in zeros:
        z2 = v0 = None
        t = vg.terms(z)
        for m, c in sorted(t.items(), key=lambda x: len(x[0])):
            if len(m) == 1 and m[0][1] == 1 and m[0][0] not in keep:
                a = m[0][0]
                if any(a in vg.walk(b) for n in t if n is not m for b, e in n):
                    continue
                v0 = a
                z2 = vg.from_terms({n: -d / c for n, d in t.items() if n is not m})
                break
        if v0 is not None:
            v = vg.subst(v, {v0: z2})
    return v


def switchoff(S, nco):
    """nothing of a field is left, and nothing bends the geometry"""
    S.setto(S.field, S.fieldclass, "GetAmplitude", ZERO)
    S.setto(S.comp, S.cc, "GetBz", ZERO)
    for k in range(nco):
        S.setcoef(k, ZERO, ZERO)
    g = S.geometry()
    if g is not None:
        S.setto(g[0], g[1], "GetCurvature", ZERO)
    # nor are there pole faces
    for u in [S.cc["u"]] + beam.bases(S.F, S.cc["u"]):
        for f in S.F.classes[u]["fields"]:
            t = S.F.by_ty.get(f["t"])
            for g in t["fields"] if t is not None else ():
                if g["t"].endswith("*") and "PoleFace" in g["t"]:
                    S.st.write(mk("fld", mk("fld", S.comp, f["u"]), g["u"]), ZERO)


def group(C):
    return C["qn"].rsplit("::", 1)[0]


def coordinates(F, j, script):
    """the coordinates after the step, over the symbols coord(k) and ds; what the case says is zero"""
    S = beam.Set(F, j[0], nco=j[2], script=script)
    switchoff(S, j[2])
    L = S.evaluate(S.cc["u"], "GetLength", S.comp)
    f = beam.find(F, j[0], j[1])
    kind, st = S.run(f)
    m = {x: mk("coord", k) for k, x in enumerate(S.sym)}
    if f.params:
        m[mk("in", mk("param", 0, f.vars[f.params[0]][0]))] = mk("ds")
    zeros = [vg.subst(z, m) for z in known_zero(S)]
    # there is no step but of length zero in an element that has no length
    if S.cc["qn"] == "Marker" or L is not None and modulo(L, zeros) is ZERO:
        zeros.append(mk("ds"))
    return S, kind, [vg.subst(st.read(p), m) for p in S.at] if kind != "throw" else None, zeros


LAW = {}        # group -> [(coordinates after a drift, where, what is zero)]


def law(F):
    """what the drifts of the sets do with a step that is not zero"""
    if not LAW:
        for j in integ.jobs(F, (0,), lambda C, K, m: m == "TrackStep" and C["name"] == DRIFT and K["qn"] == "Drift"):
            g = group(F.classes[j[0]])
            script = []
            while True:
                S, kind, out, zeros = coordinates(F, j, script)
                if kind != "throw" and not any(modulo(mk("ds"), [z]) is ZERO for z in zeros):
                    LAW.setdefault(g, []).append((out, zeros, j))
                t = S.G.taken
                while t and not t[-1]:
                    t.pop()
                if not t:
                    break
                script = t[:-1] + [False]
    return LAW


X = [mk("coord", k) for k in range(6)]
DS = mk("ds")


def equal(out, want, zeros):
    return all(identities(modulo(vg.sub(a, b), zeros, X)) is ZERO for a, b in zip(out, want))


def straight(out):
    """why these are not the coordinates of a particle that went straight on for ds; None if they are"""
    for k in (1, 3, 5):
        if out[k] is not X[k]:
            return "the %s becomes %s" % (beam.COORD[k], vg.show(out[k])[:100])
    d = [vg.sub(out[k], X[k]) for k in (0, 2, 4)]
    for k, v in zip((0, 2, 4), d):
        if any(x in (X[0], X[2], X[4]) for x in vg.walk(v)):
            return "the change of %s depends on the position: %s" % (beam.COORD[k], vg.show(v)[:100])
        if vg.subst(v, {DS: vg.mul(num(2), DS)}) is not vg.mul(num(2), v):
            return "the change of %s is not proportional to the step: %s" % (beam.COORD[k], vg.show(v)[:100])
    swap = {X[0]: X[2], X[1]: X[3], X[2]: X[0], X[3]: X[1]}
    if vg.subst(d[0], swap) is not d[1]:
        return "x moves by %s but y by %s" % (vg.show(d[0])[:80], vg.show(d[1])[:80])
    if vg.subst(d[2], swap) is not d[2]:
        return "ct changes by %s, which is not the same for x and y" % vg.show(d[2])[:120]
    g = vg.div(d[0], vg.mul(DS, X[1]))
    if vg.subst(d[0], {X[1]: ZERO}) is not ZERO or vg.subst(g, {X[1]: ZERO, X[3]: ZERO, X[5]: ZERO}) is not ONE:
        return "x moves by %s, which for small slopes is not the step times the slope" % vg.show(d[0])[:120]
    if vg.subst(d[2], {X[1]: ZERO, X[3]: ZERO, X[5]: ZERO}) is not ZERO:
        return "ct of a particle on the axis changes by %s" % vg.show(d[2])[:120]
    return None


def work(j, script):
    F = integ.F
    W = law(F)
    S, kind, out, zeros = coordinates(F, j, script)
    if out is None:
        return S.G.taken, ([], S.G.analysed, 0)
    K = F.classes[j[0]]
    if j[1] != "TrackStep":
        bad = [] if equal(out, X, zeros) else [("edge", "the edge of an element without field changes a particle to (%s), when %s" % (", ".join(vg.show(identities(modulo(v, zeros, X)))[:60] for v in out), integ.path(S)))]
        return S.G.taken, (bad, S.G.analysed, 6)
    want = W.get(group(K)) or [w for g in sorted(W) for w in W[g]]
    bad = []
    if not any(equal(out, w, zeros + z) for w, z, jj in want):
        bad = [("step", "a step through an element without field takes a particle to (%s), which is not what a drift does, when %s"
                % (", ".join(vg.show(identities(modulo(v, zeros, X)))[:90] for v in out), integ.path(S)))]
    return S.G.taken, (bad, S.G.analysed, 6)


def run():
    F = integ.load()
    R = Report("C34", "One generic particle is followed through every integrator as normal-form value graphs with the element's field switched off; in every case of the conditions met all six coordinates must be those the "
               "set's own drift gives for the same step, the entrance and the exit must change nothing, and the drifts themselves must be straight lines.")
    W = law(F)
    for g in sorted(W):
        for out, zeros, j in W[g]:
            why = straight(out)
            R.check(why is None, "drift", integ.name(F, j), integ.where(F, j), "%s: %s" % (integ.name(F, j), why))
    R.floor("drift", 3)
    mapped = F.cls("ParticleTracking::ParticleMapComponent")
    curved = F.cls("ParticleTracking::TRANSPORT::SectorBendCI")
    jobs = integ.jobs(F, (0, 2, 3, 4), lambda C, K, m: K is not mapped and C is not curved)
    integ.analyse(R, jobs, work, "fieldless")
    R.floor("fieldless", 300)
    return R.finish(F)
