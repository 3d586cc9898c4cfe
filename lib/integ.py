"""The integrators of the particle trackers, one generic particle taken through each of them.

The integrator's functions are followed (lib/beam.py) with the particle's coordinates, the element's field,
its geometry and the bunch's reference as symbols.  Every condition that the symbols do not decide splits the
case; every case is looked at.  What differs between the properties is what is known at the start ("mode") and
what must be true of the values at the end."""
import sys
import facts
import beam
import vg
from vg import mk, num, ZERO, rec

sys.setrecursionlimit(20000)
STEPS = ("TrackStep", "TrackEntrance", "TrackExit")
F = None


def load():
    global F
    F = facts.load()
    return F


def classes(F, bunch="ParticleBunch"):
    """[(class, component class)] of the integrators that particles can meet"""
    base = F.cls("ComponentIntegrator")
    if base is None:
        raise facts.Broken("anchor vanished: class ComponentIntegrator")
    out = []
    for u in F.all_subs(base["u"], True):
        C = F.classes[u]
        bu = beam.field(F, u, "currentBunch")
        co = beam.field(F, u, "currentComponent")
        if bu is None or co is None:
            continue
        t = F.fields[bu][1]["t"].replace("const ", "").rstrip("* ").strip()
        B = F.by_ty.get(t)
        if B is None or B["name"] != bunch or any(m.get("pure") for m in C["methods"]):
            continue
        K = F.by_ty.get(F.fields[co][1]["t"].replace("const ", "").rstrip("* ").strip())
        f = beam.find(F, u, "TrackStep")
        if K is None or f is None or F.method_decl[f.u][1].get("pure"):
            continue
        out.append((C, K))
    return out


def isrf(F, K):
    """the element's field accelerates"""
    g = beam.find(F, K["u"], "GetField", 0, const=False)
    t = F.by_ty.get((g.ret or "").replace("const ", "").rstrip("& ").strip()) if g is not None and g.load() is None or g is not None else None
    rf = F.cls("RFAcceleratingField")
    return t is not None and rf is not None and (t["u"] == rf["u"] or rf["u"] in beam.bases(F, t["u"]))


def jobs(F, ncos, keep=lambda C, K, m: True):
    out = []
    for C, K in classes(F):
        S = beam.Set(F, C["u"])
        for m in STEPS:
            f = beam.find(F, C["u"], m)
            if f is None or not keep(C, K, m):
                continue
            for n in (ncos if S.exp is not None else (0,)):
                out.append((C["u"], m, n))
    # long ones first
    return sorted(out, key=lambda j: (-j[2], "Sector" not in F.classes[j[0]]["qn"]))


def path(S, most=6):
    t = ["%s%s" % ("" if v else "not ", vg.show(c)[:70]) for (c, a, b), v in zip(S.G.order, S.G.taken)]
    return "; ".join(t[:most]) + ("; ..." if len(t) > most else "")


def name(F, j):
    return "%s::%s" % (F.classes[j[0]]["qn"], j[1])


def where(F, j):
    f = beam.find(F, j[0], j[1])
    f.load()
    return f.loc()


def analyse(R, jobs, work, what):
    """runs every case; work returns (decisions, (bad [(key, message)], facts analysed, number judged, widened))"""
    cases, fns, judged = {}, set(), 0
    for j, (bad, fn, n) in beam.parallel(jobs, work):
        cases[j] = cases.get(j, 0) + 1
        fns |= fn
        judged += n
        for key, msg in bad:
            R.bad(what, "%s %s" % (name(F, j), key), where(F, j), "%s: %s" % (name(F, j), msg))
        R.n += n
        R.kinds[what] = R.kinds.get(what, 0) + n
    R.extra.setdefault("cases", {})
    for j, n in sorted(cases.items(), key=lambda x: (name(F, x[0]), x[0][2])):
        R.extra["cases"]["%s, %s" % (name(F, j), "%d coefficients" % j[2] if j[2] >= 0 else "no amplitude")] = n
    R.extra["functions_followed"] = len(fns)
    R.extra["function_names"] = sorted(F.fns[u].qn for u in fns if u in F.fns)[:400]
    return cases
