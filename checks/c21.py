"""C21: upright elements do not couple the planes."""
import beam
import facts
import integ
import vg
from integ import name
from report import Report

WANT = (1, 1, -1, -1, 1, 1)


def work(j, script):
    F = integ.F
    S = beam.Set(F, j[0], nco=j[2], script=script)
    S.upright()
    S.widen(S.parity)
    kind, st = S.run(beam.find(F, j[0], j[1]))
    bad = []
    for c, a, b in S.G.order:
        if S.parity.of(c) not in (0, 1):
            bad.append(("decision", "decides differently for a particle and its reflection: %s" % vg.show(c)[:200]))
    if kind != "throw":
        for k, p in enumerate(S.at):
            q = S.parity.of(st.read(p))
            if q not in (0, WANT[k]):
                bad.append((beam.COORD[k], "%s is not %s in (y, y'): %s, when %s" % (
                    beam.COORD[k], "even" if WANT[k] == 1 else "odd", vg.show(st.read(p))[:200], integ.path(S))))
    return S.G.taken, (bad, S.G.analysed, 6)


def run():
    F = integ.load()
    R = Report("C21", "One generic particle is followed through every integrator (steps, entrances, exits) for an element without skew components, tilt or solenoidal field, "
               "as normal-form value graphs; each coordinate at the end must be even (x, x', ct, dp) or odd (y, y') under the change of sign of y and y', by the parity of its operations, and so must every condition met.")
    mapped = F.cls("ParticleTracking::ParticleMapComponent")      # applies whatever map its user supplies
    jobs = integ.jobs(F, (0, 2, 3), lambda C, K, m: K is not mapped)
    integ.analyse(R, jobs, work, "reflection")
    R.floor("reflection", 500)
    return R.finish(F)
