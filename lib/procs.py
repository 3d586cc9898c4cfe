"""What the physics processes and coordinate transformations may change, from their effects (lib/effects.py)."""
import sys

import effects

NS = "ParticleTracking::"
# processes whose physics is a change of energy
ENERGY = (NS + "SynchRadParticleProcess", NS + "WakeFieldProcess", NS + "CollimateParticleProcess", "SMPTracking::WakeFieldProcess")


def base(t):
    t = (t or "").replace("const ", "").replace("*const", "*").replace("* const", "*").strip()
    return t.rstrip("&* ").strip()


def below(F, q):
    c = F.cls(q)
    return [c["u"]] + list(F.all_subs(c["u"]))


def processes(F):
    """(class record, function) of every method of every process class except the transport process, whose integrators are followed on their own"""
    sys.setrecursionlimit(20000)
    out = []
    for c in F.classes.values():
        al = {F.classes[b]["qn"] for b in F.all_bases(c["u"]) if b in F.classes}
        if not any(a.split("<")[0].split("::")[-1] in ("BunchProcess", "TBunchProc") for a in al) or c["qn"].split("<")[0].split("::")[-1] in ("TTrnsProc", "BunchProcess", "TBunchProc", "ProcessStepManager"):
            continue
        for m in c["methods"]:
            f = F.fns.get(m["u"])
            if f is not None and f.load()["body"] >= 0:
                out.append((c, f))
    return out


def transformations(F):
    out = []
    for f in F.fns.values():
        if f.name == "ApplyTransformation" or f.name == "Apply" and f.cls and F.classes[f.cls]["qn"].split("::")[-1] in ("PSvectorTransform3D", "SMPTransform3D"):
            if f.load()["body"] >= 0:
                out.append((F.classes[f.cls] if f.cls else None, f))
    return out


def energetic(F, c):
    subs = set()
    for q in ENERGY:
        subs |= set(below(F, q))
    return c is not None and c["u"] in subs


def momentum(F, p, what):
    """what of a particle's momentum, identity or of the reference this path designates"""
    ps = F.cls("PSvector")
    fl = {x["n"]: x["u"] for x in ps["fields"]}
    ref = {x["u"] for q in ("ReferenceParticle", "Bunch") for x in F.cls(q)["fields"]} if True else set()
    for j, (lab, t) in enumerate(p[1:], 1):
        if lab == fl["v"]:
            nxt = p[j + 1][0] if j + 1 < len(p) else None
            if nxt is None and what != "pointer" or nxt == "[5]":
                return "the momentum deviation of a particle"
            if nxt is not None and (isinstance(nxt, tuple) or nxt == "[]"):
                return "a coordinate of a particle chosen at run time"
        if lab == fl.get("pid"):
            return "the identity of a particle"
        if lab in ref and lab.endswith("@p0") and j == len(p) - 1:
            return "the reference momentum"
    return None


def lattice(F):
    out = set()
    for q in ("ModelElement", "EMField", "AcceleratorGeometry", "Aperture", "LatticeFrame"):
        for u in below(F, q):
            out |= {F.classes[u]["qn"], F.classes[u]["ty"]}
    return out


def inlattice(F, p, what, types):
    for j, st in enumerate(p):
        t = (st[2] if st[0] in ("param", "global") else "") if j == 0 else st[1]
        if base(t) in types and not (j == len(p) - 1 and what == "pointer"):
            return True
    return False
