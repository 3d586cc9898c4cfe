"""C09: only energy-changing physics changes momentum; nothing changes a particle's identity."""
import beam
import facts
import effects
import integ
import procs
import vg
from vg import mk
from report import Report


def work(j, script):
    F = integ.F
    S = beam.Set(F, j[0], nco=max(0, j[2]), script=script)
    rf = integ.isrf(F, S.cc)
    if j[2] < 0:
        # a cavity only accelerates by its field: without one it is held to the rule as well
        rf = not S.setto(S.field, S.fieldclass, "GetAmplitude", vg.ZERO)
    dp, pid = S.at[5], S.pid
    p0 = S.evaluate(S.bc["u"], "GetReferenceMomentum", S.bunch)
    S.widen(None, keep=(dp, pid))
    kind, st = S.run(beam.find(F, j[0], j[1]))
    bad = []
    n = 2
    v = st.read(pid)
    if v is not mk("in", pid):
        bad.append(("identity", "the identity of a particle becomes %s, when %s" % (vg.show(v)[:150], integ.path(S))))
    if S.st.read(mk("fld", S.arr, "#size")) is not st.read(mk("fld", S.arr, "#size")):
        bad.append(("number", "the number of particles becomes %s, when %s" % (vg.show(st.read(mk("fld", S.arr, "#size")))[:150], integ.path(S))))
    if not rf:
        n += 2
        v = st.read(dp)
        if v is not mk("in", dp):
            bad.append(("dp", "the momentum deviation of a particle becomes %s, when %s" % (vg.show(v)[:200], integ.path(S))))
        v = st.read(p0.args[0])
        if v is not p0:
            bad.append(("reference", "the reference momentum becomes %s, when %s" % (vg.show(v)[:200], integ.path(S))))
    return S.G.taken, (bad, S.G.analysed, n)


def run():
    F = integ.load()
    R = Report("C09", "One generic particle is followed through every integrator as normal-form value graphs; with the amplitude of an accelerating field zero, the momentum deviation and the bunch's reference momentum at the end must be "
               "the very values at the start, and the particle's identity and the number of particles always.")
    mapped = F.cls("ParticleTracking::ParticleMapComponent")
    jobs = integ.jobs(F, (0, 2, 3), lambda C, K, m: K is not mapped)
    jobs += [(u, m, -1) for u, m, n in jobs if n == 0 and integ.isrf(F, beam.Set(F, u).cc)]
    integ.analyse(R, jobs, work, "momentum")
    R.floor("momentum", 300)
    # processes and transformations: by their effects
    E = effects.Effects(F)
    for kind, l in (("process", procs.processes(F)), ("transformation", procs.transformations(F))):
        for c, f in l:
            if procs.energetic(F, c):
                R.ok("process", f.qn + " (changes energy by its physics)")
                continue
            bad = {}
            for (p, w), loc in E.of(f).writes.items():
                m = procs.momentum(F, p, w)
                if m and m != "a coordinate of a particle chosen at run time":
                    bad.setdefault(m, loc)
            R.check(not bad, kind, f.qn + " " + f.name, f.loc(f.body), "%s changes %s" % (f.qn, "; ".join("%s at %s" % x for x in sorted(bad.items()))))
    R.floor("process", 60)
    R.floor("transformation", 4)
    return R.finish(F)
