"""C02: no use of a local before it has a value; every value-returning function returns one on every path."""
import facts
from report import Report
from definit import Access, must, covered, user_ctor, OneLoc
from c01 import VALUE_TYPES, duties, short
from flow import Flow
from values import basename


def all_scalars(F, c, prefix, depth=0):
    out = []
    for f in c["fields"]:
        if f.get("ref") or f.get("init"):
            continue
        if f.get("scalar") or f.get("scalararr"):
            out.append((prefix + (f["u"],), f["n"]))
    return out


def is_scalar(t):
    t = t.strip()
    if t.endswith("&"):
        return False
    if t.endswith("*"):
        return True
    t = t.replace("const ", "").replace("volatile ", "").strip()
    base = t.split("[")[0].strip()
    if base.endswith("*"):
        return True
    return base in ("int", "double", "float", "bool", "char", "unsigned int", "long", "unsigned long", "short", "unsigned char", "size_t",
                    "long long", "unsigned long long", "unsigned short", "signed char", "long double")


class Exits(Flow):
    def node(self, i, u, e):
        return None


def run():
    F = facts.load()
    R = Report("C02", "Definite-assignment dataflow over the CFG of every function: each local of scalar, pointer or enumeration type (array: some element; structure "
               "without constructor or default-made value type: each scalar member) is assigned on every path before it is read, reference arguments followed into "
               "their callees; findings of the must-analysis are re-examined path by path with correlated branches. Every value-returning function is shown to reach no exit "
               "without a return statement or a throw.")
    A = Access(F)
    A.value_types = VALUE_TYPES
    enums = {e["ty"] for e in F.enums.values() if e}
    nf = 0
    for f in sorted(F.all(), key=lambda f: (f.file, f.line, f.u)):
        if f.body < 0 or f.cfg is None or f.defaulted or f.implicit:
            continue
        nf += 1
        track = {}
        for i in f.walk():
            n = f.n(i)
            if n["k"] != "Decl":
                continue
            for v, init, style in n["d"]:
                if v < 0 or f.vars[v][2] != "local":
                    continue
                t = f.vars[v][1]
                if init < 0 and (is_scalar(t) or t.replace("const ", "") in enums):
                    track[(v,)] = f.vars[v][0]
                elif init >= 0 and A.blank(f, init):
                    c = F.by_ty.get(basename(t))
                    if c is not None:
                        for p, nm in all_scalars(F, c, (v,)):
                            track[p] = f.vars[v][0] + "." + nm
                        if "[" in t:
                            pass
        name = f.qn + "(" + ",".join(short(f.vars[p][1]) for p in f.params) + ")"
        if track:
            reads, _ = must(A, f, frozenset())
            cand = {}
            for p, nd in reads:
                for q in track:
                    if q == p[:len(q)] or p == q[:len(p)]:
                        cand.setdefault(q, nd)
            for q, nm in track.items():
                key = "%s local %s" % (name, nm)
                if q not in cand:
                    R.ok("local", f.loc() + " " + key)
                    continue
                fl = OneLoc(A, f, q).run(False)
                R.check(fl.badread is None, "local", key, f.loc(fl.badread if fl.badread is not None else cand[q]),
                        "%s: '%s' can be used before it has a value" % (name, nm))
        ret = str(f.ret)
        if f.kind in ("func", "method", "conv") and ret != "void" and not f.qn.endswith("main"):
            fl = Exits(F, f).run(())
            R.check(not fl.falls, "return", "%s returns a value" % name, f.loc(), "%s can finish without returning a value" % name)
    R.extra["functions_analysed"] = nf
    R.floor("local", 120)
    R.floor("return", 1200)
    return R.finish(F)
