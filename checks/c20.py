"""C20: a particle on the reference orbit stays on it."""
import beam
import facts
import integ
import vg
from vg import ZERO
from report import Report


def work(j, script):
    F = integ.F
    S = beam.Set(F, j[0], nco=j[2], zero=True, script=script)
    S.onorbit()
    kind, st = S.run(beam.find(F, j[0], j[1]))
    bad = []
    if kind != "throw":
        for k, p in enumerate(S.at):
            v = st.read(p)
            if v is not ZERO:
                bad.append((beam.COORD[k], "%s of a particle on the reference orbit becomes %s, when %s" % (beam.COORD[k], vg.show(v)[:200], integ.path(S))))
    return S.G.taken, (bad, S.G.analysed, 6)


def run():
    F = integ.load()
    R = Report("C20", "A particle with all coordinates zero is followed through every integrator as normal-form value graphs, with the reference momentum matched to the bend, no dipole component elsewhere and no "
               "accelerating amplitude; every coordinate must come out identically zero in every case of the conditions met.")
    mapped = F.cls("ParticleTracking::ParticleMapComponent")
    jobs = integ.jobs(F, (1, 2, 3), lambda C, K, m: K is not mapped)
    integ.analyse(R, jobs, work, "orbit")
    R.floor("orbit", 400)
    return R.finish(F)
