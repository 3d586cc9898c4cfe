"""C10: tracking leaves the lattice as it found it."""
import beam
import effects
import facts
import integ
import procs
import vg
from vg import mk, ZERO
from report import Report


def root(p):
    while p.op in ("fld", "idx"):
        p = p.args[0]
    return p


def outside(F, u):
    """A global of a library, such as std::cout."""
    return u.split("#")[0] not in F.globals and "#" not in u and not any(g["u"] == u for g in F.globals.values())


def work(j, script):
    F = integ.F
    S = beam.Set(F, j[0], nco=j[2], script=script)
    S.widen(None, keep=())
    before = S.st.copy()
    kind, st = S.run(beam.find(F, j[0], j[1]))
    bad = []
    n = 1
    own = {root(S.bunch), root(S.this)}
    for p in sorted(st.mem, key=lambda v: v.id):
        r = root(p)
        if r in own or r.op in ("tmp", "param", "heap") or r.op == "loc" and r is not S.comp:
            continue
        if S.bunch in vg.walk(r) or r.op == "g" and outside(F, r.args[0]):
            continue
        n += 1
        a, b = before.read(p), st.read(p)
        if a is b:
            continue
        if S.exp is not None and beam.below(p, S.exp):
            if p is mk("fld", S.exp, "#size"):
                # the expansion may be padded: what counts are the coefficients
                if b.op == "num" and a.op == "num" and b.args[0] >= a.args[0]:
                    continue
            elif p.op == "fld" and p.args[0].op == "idx" and p.args[0].args[1].op == "num" or p.op == "idx" and p.args[1].op == "num":
                k = p.args[1] if p.op == "idx" else p.args[0].args[1]
                if k.args[0] >= j[2] and all(x is ZERO for x in parts(b)):
                    continue
                if parts(a) == parts(b):
                    continue
        bad.append((vg.show(p).replace("loc:component", "element"), "%s of the element is %s after the step and was %s before, when %s" % (
            vg.show(p), vg.show(b)[:150], vg.show(a)[:100], integ.path(S))))
    return S.G.taken, (bad, S.G.analysed, n)


def parts(v):
    if v.op == "rec" or v.op == "in":
        return (vg.sel(v, ("fld", "real")), vg.sel(v, ("fld", "imag")))
    return (v,)


def run():
    F = integ.load()
    R = Report("C10", "One generic particle is followed through every integrator as normal-form value graphs; whatever the integrator writes outside the bunch and itself - the element, its field, its geometry, globals - must hold "
               "at every exit the value it held on entry.")
    mapped = F.cls("ParticleTracking::ParticleMapComponent")
    jobs = integ.jobs(F, (0, 1, 2, 3, 4), lambda C, K, m: K is not mapped)
    integ.analyse(R, jobs, work, "restored")
    R.floor("restored", 300)
    # processes and transformations: by their effects
    E = effects.Effects(F)
    types = procs.lattice(F)
    turn = F.cls("HollowElectronLens")
    turns = {x["u"] for x in turn["fields"] if x["n"] == "Turn"}
    for kind, l in (("process", procs.processes(F)), ("transformation", procs.transformations(F))):
        for c, f in l:
            # the lens's running count of turns, which its pulsed modes are a function of, is the one thing tracking is meant to move on
            bad = [(p, w, loc) for (p, w), loc in E.of(f).writes.items() if procs.inlattice(F, p, w, types) and p[-1][0] not in turns]
            R.check(not bad, kind, f.qn, f.loc(f.body), "%s changes %s" % (f.qn, "; ".join("%s at %s" % (effects.show(p), loc) for p, w, loc in bad[:2])))
    R.floor("process", 60)
    R.floor("transformation", 4)
    return R.finish(F)
