"""C24: every particle of a bunch takes part in every bunch operation."""
import re
import facts, seq, loops
from report import Report
from values import Values, basename
from flow import strip, canon

PT = re.compile(r"\b(PSvector|SliceMacroParticle|SpinVector|ParticleBunch|SMPBunch|SpinParticleBunch|PSvectorArray)\b")
ITER = re.compile(r"__normal_iterator<(const )?(PSvector|SMPTracking::SliceMacroParticle|SpinVector) \*")
SEARCH = ("find", "find_if", "find_if_not", "any_of", "all_of", "none_of", "max_element", "min_element")
STATS = ("GetMoments", "GetProjectedMoments", "GetCentroid", "GetProjectedCentroid", "AdjustRefMomentumToMean", "AdjustRefTimeToMean",
         "Output", "ApplyTransformation", "SortByCT")
MEANS = ("GetMoments", "GetProjectedMoments", "GetCentroid", "GetProjectedCentroid", "AdjustRefMomentumToMean", "AdjustRefTimeToMean", "GetAverageSpin")
CLEAR = ("zero", "Zero", "clear", "fill", "assign")


def run():
    F = facts.load()
    R = Report("C24", "Every iteration over the particles of a bunch (loops and standard algorithms) starts at the first, moves one at a time and ends at the "
               "last, leaving early only from a pure search; loops over a part of a bunch are bounded by neighbouring slice boundaries or by what their "
               "callers pass (first and last of one bunch); what is accumulated starts cleared and is divided by the number of particles summed.")
    V = Values(F)
    K = Check(F, R, V)
    nf = 0
    for f in F.fns.values():
        if f.load()["body"] < 0 or f.cfg is None:
            continue
        K.function(f)
        nf += 1
    K.required()
    R.extra["functions_examined"] = nf
    R.floor("complete", 60)
    R.floor("range", 8)
    R.floor("cleared", 20)
    R.floor("mean", 12)
    R.floor("unconditional", 40)
    R.floor("operation", 14)
    return R.finish(F)


class Check(object):
    def __init__(self, F, R, V):
        self.F, self.R, self.V = F, R, V
        self.over = {}            # function -> iterations over particles in it

    def ptype(self, f, i):
        t = f.n(i).get("t") or ""
        while "<" in t and t.startswith("__gnu_cxx"):
            return False
        return bool(PT.search(t))

    def function(self, f):
        F, R, V = self.F, self.R, self.V
        its = loops.iterations(F, f, V, {})
        mine = [it for it in its if self.ptype(f, it.contnode)]
        nb = loops.node_blocks(f)
        heads = {it.header for it in its if it.kind == "loop"}
        for it in mine:
            self.complete(f, it, nb)
            self.accumulate(f, it, nb)
            self.unconditional(f, it, nb)
        self.over[f.u] = mine
        # loops over part of a bunch
        for h, blocks, latches in loops.natural(f):
            if h in heads:
                continue
            r = self.range_loop(f, h, blocks, latches, nb)
            if r is not None:
                self.over[f.u].append(r)
        # algorithms over a part
        for i in f.walk():
            n = f.n(i)
            if n["k"] == "Call" and (n.get("fn") or "").startswith("std::") and len(f.c(i)) >= 2 and not any(it.node == i for it in its):
                nm = n["fn"].split("<")[0].split("::")[-1]
                if nm in loops.ALGO and all(ITER.search(f.n(x).get("t") or "") for x in f.c(i)[:2]):
                    self.bounds(f, i, f.c(i)[0], f.c(i)[1])

    # ---- whole-bunch iterations
    def complete(self, f, it, nb):
        R = self.R
        key = "%s over %s" % (f.qn, f.show(it.contnode)[:40])
        probs = list(it.problems)
        if "does not start at the first element" in probs and self.second(f, it, nb):
            probs.remove("does not start at the first element")
        elif it.kind == "loop" and "does not start at the first element" not in probs:
            for v in self.sums(f, it, nb):
                R.check(not self.seeded(f, it, v, nb), "cleared", key + " first", it.loc(), "%s: %s starts with the first particle and the pass adds it again" % (f.qn, f.vars[v][0]))
        R.check(not probs, "complete", key, it.loc(), "%s: the pass over the particles %s" % (f.qn, ", ".join(probs)))
        if it.early and it.kind == "loop":
            ok = self.pure(f, it, nb) or self.resumed(f, it, nb)
            R.check(ok, "complete", key + " early", it.loc(), "%s: the pass over the particles can stop before the last one" % f.qn)
        if it.kind == "loop":
            self.companions(f, it, nb)

    # ---- operations and maps do to each particle what they do to every other
    def unconditional(self, f, it, nb):
        """no branch that looks at the particle leaves out what its other side does to the particle or the result"""
        F = self.F
        cls = F.classes.get(f.cls) if f.cls else None
        fam = {F.cls("Bunch")["u"]} | set(F.all_subs(F.cls("Bunch")["u"]))
        if it.kind == "loop":
            if cls is None or cls["u"] not in fam and cls["qn"] not in self.appliers():
                return
            g, gb, B, region, head = f, nb, f.blocks(), set(it.blocks), it.header
            taint = {it.var}
            ends = {b for b in it.blocks if any(str(s) == it.header for s in f.blocks()[b][3] if s is not None)}
        elif it.functor is not None:
            if cls is not None and "Process" in cls["qn"].split("::")[-1]:
                return
            g, this = seq.functor(F, self.V, it)
            if g is None or g.load()["body"] < 0 or g.cfg is None:
                return
            gb, B, head = loops.node_blocks(g), g.blocks(), None
            region = set(B)
            taint = set(g.params)
        else:
            return
        for _ in range(4):
            for v in range(len(g.vars)):
                if v not in taint and any(val is not None and self.mentions(g, val, taint) for nd, val in loops.var_defs(g, v)):
                    taint.add(v)
        effects = {}
        for i in g.walk():
            if gb.get(i) not in region:
                continue
            n = g.n(i)
            if n["k"] == "Binary" and n["op"] == "=" or n["k"] == "CompoundAssign" or n["k"] == "Call" and n.get("op") in ("=", "+=", "-=", "*=", "/=") and len(g.c(i)) == 2:
                b = self.base(g, g.c(i)[0])
                if b is not None and b[0] == "var" and b[1] not in g.params and self.decl_block(g, b[1], gb) in region and not g.vars[b[1]][1].rstrip().endswith("&"):
                    continue                      # a local of the round
                effects.setdefault(gb[i], set()).add(i)
        for b in region:
            c = loops.conditions(g, B[b])
            if c is None or len(B[b][3]) != 2 or not self.mentions(g, c, taint):
                continue
            ss = [str(s) if s is not None else None for s in B[b][3]]
            if any(s is None or s not in region for s in ss):
                continue
            a0, a1 = self.may(B, region, head, ss[0], effects), self.may(B, region, head, ss[1], effects)
            x, y = a0 - a1, a1 - a0
            self.R.check(bool(x) == bool(y), "unconditional", "%s: %s" % (g.qn, g.show(c)[:50]), g.loc(c),
                         "%s: some particles are left out, by what %s says of them" % (g.qn, g.show(c)[:60]))
        self.R.check(True, "unconditional", "%s in %s" % (g.qn, f.qn), it.loc(), "")

    def appliers(self):
        return ("RMtrx", "RdpMtrx", "RMap")

    def mentions(self, g, i, taint):
        return any(g.k(x) == "Ref" and g.n(x).get("v") in taint for x in g.walk(i))

    def may(self, B, region, head, s, effects):
        out, seen, work = set(), {s}, [s]
        while work:
            b = work.pop()
            if b == head:
                continue
            out |= effects.get(b, set())
            for t in B[b][3]:
                if t is not None and str(t) in region and str(t) not in seen:
                    seen.add(str(t))
                    work.append(str(t))
        return out

    def second(self, f, it, nb):
        """the pass may start at the second element: what it sums starts with the first, or the first is the reference the others are moved to"""
        if it.kind != "loop" or not self.starts_second(f, it, nb):
            return False
        sums = self.sums(f, it, nb)
        if sums and all(self.seeded(f, it, v, nb) for v in sums):
            return True
        return f.qn == "ParticleTracking::ParticleBunch::SetCentroid"

    def starts_second(self, f, it, nb):
        starts = [(nd, val) for nd, val in loops.var_defs(f, it.var) if nb.get(nd) not in it.blocks]
        begin = [x for x in starts if x[1] is not None]
        if len(begin) != 1:
            return False
        v = loops.strip_copy(f, begin[0][1])
        incs = [x for x in starts if x[1] is None]
        if loops.calls_end(f, v, ("begin",)) is not None:
            return len(incs) == 1 and loops.is_inc(f, incs[0][0])
        n = f.n(v)
        if n["k"] == "Call" and (n.get("fn") or "").startswith("std::next") and f.c(v):
            return not incs and loops.calls_end(f, f.c(v)[0], ("begin",)) is not None and (len(f.c(v)) < 2 or canon(f, f.c(v)[1]) in (None, ("int", 1)))
        if n.get("op") == "+" and len(f.c(v)) == 2:
            a, b = f.c(v)
            return not incs and loops.calls_end(f, a, ("begin",)) is not None and canon(f, b) == ("int", 1)
        return False

    def sums(self, f, it, nb):
        out = set()
        for i in f.walk():
            if nb.get(i) not in it.blocks or f.k(i) not in ("CompoundAssign", "Call") or f.n(i).get("op") != "+=":
                continue
            l = strip(f, f.c(i)[0])
            if f.k(l) == "Ref" and "v" in f.n(l) and f.n(l)["v"] != it.var and self.decl_block(f, f.n(l)["v"], nb) not in it.blocks and "iterator" not in f.vars[f.n(l)["v"]][1]:
                out.add(f.n(l)["v"])
        return out

    def seeded(self, f, it, v, nb):
        """v starts out with something of the first element"""
        for nd, val in loops.var_defs(f, v):
            if val is None or nb.get(nd) in it.blocks:
                continue
            for x in f.walk(val):
                n = f.n(x)
                if n["k"] == "Ref" and n.get("v") == it.var:
                    return True
                if n["k"] == "Call" and (n.get("fn") or "").split("::")[-1] in ("front", "FirstParticle", "begin"):
                    return True
        return False

    def pure(self, f, it, nb):
        """rounds that go on do nothing but look"""
        B = f.blocks()
        for i in f.walk():
            if nb.get(i) not in it.blocks:
                continue
            n = f.n(i)
            k = n["k"]
            if (k == "Binary" and n["op"] == "=") or k in ("CompoundAssign", "Delete", "New", "Throw") or (k == "Unary" and ("++" in n["op"] or "--" in n["op"])):
                if it.var is not None and loops.base_var(f, f.c(i)[0]) == it.var:
                    continue
                return False
            if k == "Call":
                if n.get("op") == "++" and loops.base_var(f, f.c(i)[0]) == it.var:
                    continue
                m = self.F.method_decl.get(n.get("f"))
                const = m is not None and m[1].get("const")
                if const or n.get("op") in ("*", "->", "!=", "==", "-", "<") or (n.get("fn") or "").split("::")[-1] in ("begin", "end", "size", "operator[]", "base") or (n.get("fn") or "").split("<")[0] in ("std::abs", "std::isnan", "std::fabs", "std::sqrt"):
                    continue
                g = self.F.fns.get(n.get("f"))
                if m is not None and n.get("obj") and g is not None and getter(g):
                    continue
                return False
        return True

    def resumed(self, f, it, nb):
        """the pass goes on where it left in an enclosing loop, and what is left at the end is an error"""
        B = f.blocks()
        for b in B:
            if b in it.blocks:
                continue
            c = loops.conditions(f, B[b])
            if c is None:
                continue
            n = f.n(strip(f, c))
            if n.get("op") in ("!=", "==") and len(f.c(strip(f, c))) == 2:
                vs = [loops.base_var(f, x) for x in f.c(strip(f, c))]
                if it.var in vs and any(loops.calls_end(f, x) is not None for x in f.c(strip(f, c))):
                    s = B[b][3][0 if n["op"] == "!=" else 1]
                    if s is not None and loops.leads_to_throw(B, str(s)):
                        starts = [nd for nd, v in loops.var_defs(f, it.var) if nb.get(nd) not in it.blocks]
                        outer = [bl for h, bl, _ in loops.natural(f) if it.blocks < bl]
                        return bool(outer) and all(nb.get(nd) not in bl for nd in starts for bl in outer)
        return False

    def companions(self, f, it, nb):
        """iterators of parallel arrays move with the particle"""
        B = f.blocks()
        latches = {b for b in it.blocks if any(str(s) == it.header for s in B[b][3] if s is not None)}
        elem_erased = any(f.k(i) == "Call" and (f.n(i).get("fn") or "").split("::")[-1] == "erase" and nb.get(i) in it.blocks for i in f.walk())
        seen = set()
        for i in f.walk():
            if f.k(i) == "Ref" and "v" in f.n(i) and nb.get(i) in it.blocks:
                seen.add(f.n(i)["v"])
        for v in seen - {it.var}:
            if not ITER.search(f.vars[v][1]) and "__normal_iterator" not in f.vars[v][1] and "_List_iterator" not in f.vars[v][1]:
                continue
            defs = loops.var_defs(f, v)
            start = [(n, x) for n, x in defs if nb.get(n) not in it.blocks]
            steps = [(n, x) for n, x in defs if nb.get(n) in it.blocks]
            if not start or not any(x is not None and loops.calls_end(f, x, ("begin", "cbegin")) is not None for n, x in start):
                continue
            if any(nb.get(n) in bl for n, x in start for h, bl, _ in loops.natural(f) if bl <= it.blocks):
                continue
            if it.var is not None and elem_erased and any(x is not None and not loops.is_inc(f, n) and not is_erased(f, x) for n, x in steps):
                continue
            lo, hi = self.rounds(f, B, it, latches, v, steps)
            self.R.check((lo, hi) == (1, 1), "complete", "%s companion %s" % (f.qn, f.vars[v][0]), it.loc(),
                         "%s: the position in the array kept alongside the particles does not move with them" % f.qn)

    def rounds(self, f, B, it, latches, v, steps):
        """moves of a companion on a way round, not counting ways on which it is known to be absent (a null test of its container)"""
        lo, hi = loops.rounds(f, B, it.header, it.blocks, latches, v, steps)
        if lo == 0 and hi == 1:
            # guarded companion: every guarded site has the same condition as its start
            blocks = {loops.node_blocks(f).get(n) for n, x in steps}
            guards = set()
            for b in it.blocks:
                c = loops.conditions(f, B[b])
                if c is not None and any(s is not None and str(s) in blocks for s in B[b][3]):
                    nb = loops.node_blocks(f)
                    here = {f.n(x)["v"] for x in f.walk(c) if f.k(x) == "Ref" and "v" in f.n(x)}
                    fixed = not any(nb.get(nd) in it.blocks for w in here for nd, _ in loops.var_defs(f, w))
                    guards.add(canon(f, c) if fixed else None)
            if len(guards) == 1 and None not in guards and next(iter(guards))[0] in ("b!=", "b==", "m"):
                # count ways that take the guarded edge everywhere
                lo2 = self.guarded(f, B, it, latches, next(iter(guards)), blocks)
                return lo2
        return lo, hi

    def guarded(self, f, B, it, latches, g, stepb):
        memo = {}

        def go(b, path):
            lo = hi = None
            if b in latches:
                lo = hi = 0
            succ = [str(s) for s in B[b][3] if s is not None]
            c = loops.conditions(f, B[b])
            if c is not None and canon(f, c) == g and len(B[b][3]) == 2:
                pick = [str(s) for s in B[b][3] if s is not None and str(s) in stepb]
                succ = pick or succ
            for s in succ:
                if s not in it.blocks or s == it.header or s in path:
                    continue
                r = go(s, path | {s})
                if r[0] is None:
                    continue
                lo = r[0] if lo is None else min(lo, r[0])
                hi = r[1] if hi is None else max(hi, r[1])
            if lo is not None and b in stepb:
                lo, hi = lo + 1, hi + 1
            return lo, hi
        return go(it.header, frozenset({it.header}))

    # ---- loops and algorithms over a part
    def range_loop(self, f, h, blocks, latches, nb):
        B = f.blocks()
        for b in blocks:
            c = loops.conditions(f, B[b])
            if c is None:
                continue
            for k, s in enumerate(B[b][3]):
                if s is None or str(s) in blocks:
                    continue
                for cj, pol in loops.conjuncts(f, c, k == 1):
                    n = f.n(cj)
                    if n.get("op") not in ("!=", "==", "<") or len(f.c(cj)) != 2:
                        continue
                    for x, y in ((0, 1), (1, 0)):
                        v = loops.base_var(f, f.c(cj)[x])
                        if v is None or not ITER.search(f.vars[v][1]) or loops.base_var(f, f.c(cj)[y]) is not None and loops.base_var(f, f.c(cj)[y]) not in f.params and not self.bound_var(f, loops.base_var(f, f.c(cj)[y])):
                            continue
                        steps = [(nd, val) for nd, val in loops.var_defs(f, v) if nb.get(nd) in blocks]
                        if not steps:
                            continue
                        lo, hi = loops.rounds(f, B, h, blocks, latches, v, steps)
                        key = "%s part %s" % (f.qn, f.vars[v][0])
                        self.R.check((lo, hi) == (1, 1) and all(val is None and loops.is_inc(f, nd) for nd, val in steps), "range", key + " steps", f.loc(cj),
                                     "%s: the pass over part of the bunch does not take every particle once" % f.qn)
                        others = [e for b2 in blocks for e in B[b2][3] if e is not None and str(e) not in blocks and b2 != b and not loops.leads_to_throw(B, str(e))]
                        self.R.check(not others, "range", key + " early", f.loc(cj), "%s: the pass over part of the bunch can stop before its end" % f.qn)
                        starts = [val for nd, val in loops.var_defs(f, v) if nb.get(nd) not in blocks]
                        start = starts[-1] if starts else None
                        self.bounds(f, cj, start, f.c(cj)[y], v if start is None else None)
                        it = loops.Iter(f, cj, "range")
                        it.var, it.blocks, it.header = v, blocks, h
                        self.accumulate(f, it, nb)
                        return it
        return None

    def bound_var(self, f, v):
        return loops.only_init(f, v) is not None

    def bounds(self, f, at, first, last, pv=None):
        """first and last delimit one bunch, one slice of it, or are parameters bound like that at every call"""
        R = self.R
        lv = loops.base_var(f, last)
        if pv is None and first is not None:
            fv = loops.base_var(f, first)
            pv = fv if fv in f.params else None
        if pv is not None and pv in f.params and lv in f.params:
            a, b = f.params.index(pv), f.params.index(lv)
            n = 0
            for g in self.F.fns.values():
                if g.load()["body"] < 0:
                    continue
                for i in g.walk():
                    if g.k(i) == "Call" and g.n(i).get("f") == f.u:
                        off = 1 if g.n(i).get("obj") else 0
                        n += 1
                        self.pair(g, i, g.c(i)[off + a], g.c(i)[off + b])
            return
        self.pair(f, at, first, last)

    def pair(self, f, at, first, last):
        first, last = self.resolve(f, first), self.resolve(f, last)
        a, b = loops.calls_end(f, first, ("begin", "cbegin")) if first is not None else None, loops.calls_end(f, last)
        ok = False
        if a is not None and b is not None:
            ok = self.V.of(f, a) == self.V.of(f, b)
        elif first is not None:
            s, e = self.slot(f, first), self.slot(f, last)
            ok = s is not None and e is not None and s[0] == e[0] and plus_one(s[1], e[1])
            if not ok and self.calls_through(f, first, last):
                ok = True
        self.R.check(ok, "range", "%s bounds %s" % (f.qn, f.show(at)[:40]), f.loc(at), "%s: a pass over part of the bunch is not bounded by neighbouring slice boundaries or by its first and last particle" % f.qn)

    def calls_through(self, f, first, last):
        a, b = loops.base_var(f, first), loops.base_var(f, last)
        return a in f.params and b in f.params and a != b

    def resolve(self, f, i):
        """through single-assignment locals"""
        for _ in range(4):
            if i is None:
                return None
            i = loops.strip_copy(f, i)
            if f.k(i) == "Construct" and len([x for x in f.c(i) if x >= 0]) == 1:      # iterator -> const_iterator
                i = f.c(i)[0]
                continue
            if f.k(i) == "Ref" and "v" in f.n(i) and f.n(i)["v"] not in f.params:
                x = loops.only_init(f, f.n(i)["v"])
                if x is not None:
                    i = x
                    continue
            break
        return i

    def slot(self, f, i):
        i = loops.strip_copy(f, i)
        n = f.n(i)
        if (n["k"] == "Index" or n["k"] == "Call" and (n.get("op") == "[]" or (n.get("fn") or "").endswith("::at"))) and len(f.c(i)) == 2:
            return canon(f, f.c(i)[0]), canon(f, f.c(i)[1])
        return None

    # ---- accumulation
    def accumulate(self, f, it, nb):
        if it.kind in ("loop", "range"):
            body = [i for i in f.walk() if nb.get(i) in it.blocks]
            self.accs(f, it, f, body, {}, nb, None)
        elif it.functor is not None:
            g, this = seq.functor(self.F, self.V, it)
            if g is None or g.load()["body"] < 0 or g.cfg is None:
                return
            con = self.ctor_node(f, it.functor)
            self.accs(f, it, g, list(g.walk()), None, nb, con)

    def ctor_node(self, f, i):
        i = self.resolve(f, i)
        for _ in range(4):
            if i is not None and f.k(i) == "Construct" and (f.n(i).get("copy") or f.n(i).get("move")):
                i = strip(f, f.c(i)[0])
        return i if i is not None and f.k(i) == "Construct" else None

    def accs(self, f, it, g, body, env, nb, con):
        """accumulations in the body g (f itself, or the functor's operator()) of an iteration in f"""
        R, F = self.R, self.F
        for i in body:
            n = g.n(i)
            lhs = rhs = None
            if n["k"] == "CompoundAssign" and n["op"] in ("+=", "-=") or n["k"] == "Call" and n.get("op") in ("+=", "-=") and len(g.c(i)) == 2:
                lhs, rhs = g.c(i)
            elif n["k"] == "Binary" and n["op"] == "=":
                r = strip(g, g.c(i)[1])
                if g.k(r) == "Binary" and g.n(r)["op"] in ("+", "-"):
                    lc = canon(g, g.c(i)[0])
                    for p, q in ((0, 1), (1, 0)):
                        if lc is not None and canon(g, g.c(r)[p]) == lc and not (p and g.n(r)["op"] == "-"):
                            lhs, rhs = g.c(i)[0], g.c(r)[q]
            elif n["k"] == "Unary" and "++" in n["op"]:
                lhs = g.c(i)[0]
            if lhs is None:
                continue
            b = self.base(g, lhs)
            if b is None or b[0] == "elem":
                continue
            what = b[1]
            if b[0] == "var":
                if g is not f or what == it.var:
                    if g is f:
                        continue
                    if what in g.params or self.decl_in(g, what, None) is not None:
                        continue                  # the element, or a local of the functor
                    continue
                if self.decl_block(g, what, nb) in it.blocks:
                    continue
                t = g.vars[what][1]
                if "iterator" in t or t.rstrip().endswith("*"):
                    continue
                if n["k"] == "Unary" and any(val is not None and nb.get(nd) in it.blocks for nd, val in loops.var_defs(g, what)):
                    continue                      # counts something within one round
                name = g.vars[what][0]
            elif b[0] == "field" and g is not f:
                name = what.split("@")[-1]
            else:
                continue
            key = "%s: %s in the pass over %s" % (f.qn, g.show(lhs)[:30], it.kind if it.kind != "loop" else f.show(it.contnode)[:30] if hasattr(it, "contnode") else "part")
            run = self.running(f, it, g, i, lhs, rhs, nb, con)
            if run is not None:
                R.check(run, "mean", key + " mean", g.loc(i), "%s: the running mean %s is not divided by the number of particles so far" % (f.qn, g.show(lhs)[:30]))
                continue
            if n["k"] == "Unary" and b[0] == "field":
                continue
            ok = self.cleared(f, it, g, lhs, b, nb, con)
            R.check(ok, "cleared", key, g.loc(i), "%s: %s is summed over the particles without being cleared first" % (f.qn, g.show(lhs)[:30]))
            if b[0] == "var":
                some = self.divided(f, it, b[1], key, i, nb)
                if f.cls in self.family() and f.name in MEANS and not some and rhs is not None:
                    R.check(self.weighted(f, it, rhs), "mean", key + " mean", g.loc(i), "%s: the sum over the particles %s does not become a mean" % (f.qn, g.show(lhs)[:30]))
            elif con is not None:
                some = self.weight(f, it, g, rhs, key, con)
                if f.cls in self.family() and f.name in MEANS and not some and rhs is not None:
                    R.bad("mean", key + " mean", g.loc(i), "%s: the sum over the particles %s does not become a mean" % (f.qn, g.show(lhs)[:30]))

    def base(self, g, i):
        """what an lvalue is part of: ("var", v) | ("field", usr) of this | ("elem",)"""
        i = strip(g, i)
        for _ in range(8):
            n = g.n(i)
            k = n["k"]
            if k == "Ref" and "v" in n:
                v = n["v"]
                x = None
                if g.vars[v][1].rstrip().endswith("&") and v not in g.params:
                    x = loops.only_init(g, v)
                if x is None:
                    return ("var", v)
                i = strip(g, x)
                continue
            if k == "Member":
                b = strip(g, g.c(i)[0]) if g.c(i) else None
                if b is None or g.k(b) == "This" or (g.k(b) == "Unary" and g.n(b)["op"] == "*" and g.k(strip(g, g.c(b)[0])) == "This"):
                    return ("field", n.get("fld"))
                if n.get("arrow"):
                    return ("elem",)
                i = b
                continue
            if k == "Index":
                i = strip(g, g.c(i)[0])
                continue
            if k == "Call" and n.get("op") in ("*", "->"):
                return ("elem",)
            if k == "Unary" and n["op"] == "*":
                return ("elem",)
            if k == "Call" and n.get("obj"):
                if n.get("arrow"):
                    return ("elem",)
                i = strip(g, g.c(i)[0])
                if g.k(i) == "This":
                    return ("this",)
                continue
            if k == "Unary" and "++" in n["op"]:
                i = strip(g, g.c(i)[0])
                continue
            return None
        return None

    def decl_in(self, g, v, _):
        for i in g.walk():
            if g.k(i) == "Decl" and any(d[0] == v for d in g.n(i)["d"]):
                return i
        return None

    def decl_block(self, g, v, nb):
        i = self.decl_in(g, v, None)
        return nb.get(i) if i is not None else None

    def storage(self, g, i):
        """class whose storage an accessor reaches: sigma(i,j) -> TCovMtrx"""
        i = strip(g, i)
        n = g.n(i)
        if n["k"] == "Call" and n.get("obj") and n.get("fn"):
            return n["fn"].rsplit("::", 1)[0]
        return None

    def cleared(self, f, it, g, lhs, b, nb, con):
        st = self.storage(g, lhs)
        if b[0] == "field":
            # member of the functor: its own, or bound to something of f
            vals = None
            cf = self.F.fns.get(f.n(con).get("f")) if con is not None else None
            if cf is None:
                return False
            for x in cf.inits:
                if x[0] == "m" and x[1] == b[1] and x[2] >= 0:
                    j = strip(cf, x[2])
                    rec = next((y for y in self.F.classes[cf.cls]["fields"] if y["u"] == b[1]), None)
                    if rec is not None and rec.get("ref"):
                        v = loops.base_var(cf, j)
                        if v in cf.params:
                            a = [y for y in f.c(con)][cf.params.index(v)]
                            bb = self.base(f, a)
                            if bb is not None and bb[0] == "var":
                                return self.clear_var(f, bb[1], st, None, it, nb)
                            return bb is not None
                        return False
                    return self.constant(cf, j)
            return False
        return self.clear_var(f, b[1], st, canon(f, lhs), it, nb)

    def constant(self, f, i):
        i = strip(f, i)
        n = f.n(i)
        if n["k"] in ("Int", "Float", "Bool", "Null") or "iv" in n:
            return True
        if n["k"] == "Unary" and n["op"] == "-":
            return self.constant(f, f.c(i)[0])
        if n["k"] in ("Construct", "InitList"):
            args = [x for x in f.c(i) if x >= 0]
            return bool(args) and all(self.constant(f, x) for x in args) or (n.get("t") or "").startswith("std::") or bool(n.get("zero"))
        return False

    def clear_var(self, f, v, st, lc, it, nb):
        head = it.header if it.kind in ("loop", "range") else nb.get(it.node)
        inside = it.blocks if it.kind in ("loop", "range") else ()
        for i in f.walk():
            n = f.n(i)
            if nb.get(i) in inside:
                continue
            hit = False
            if n["k"] == "Decl":
                for d in n["d"]:
                    if d[0] == v and d[1] >= 0:
                        x = strip(f, d[1])
                        hit |= self.constant(f, x) or f.k(x) != "Construct" or bool([y for y in f.c(x) if y >= 0]) and not (f.n(x).get("t") or "").startswith("Point") \
                            or self.cleared_by_default(f, x)
            elif n["k"] == "Call" and n.get("obj") and (n.get("fn") or "").split("::")[-1] in CLEAR:
                bb = self.base(f, f.c(i)[0])
                if bb == ("var", v):
                    cl = n["fn"].rsplit("::", 1)[0]
                    hit = st is None or cl == st or self.same_storage(cl, st)
            elif (n["k"] == "Binary" and n["op"] == "=") or (n["k"] == "Call" and n.get("op") == "="):
                l = strip(f, f.c(i)[0])
                if f.k(l) == "Ref" and f.n(l).get("v") == v:
                    hit = True
                elif lc is not None and canon(f, l) == lc:
                    hit = True
            if hit and (nb.get(i) == head or loops_dominates(f, nb.get(i), head)) and (it.kind not in ("loop", "range") or True):
                return True
        return False

    def same_storage(self, a, b):
        """class a's clear covers what b's accessor reaches: b declared in a base of a that a's clear is of, or the same template"""
        return a.split("<")[0] == b.split("<")[0]

    def cleared_by_default(self, f, x):
        g = self.F.fns.get(f.n(x).get("f"))
        if g is None:
            return False
        ok = False
        for e in g.inits:
            if e[0] == "m" and e[2] >= 0 and not self.constant(g, e[2]):
                return False
            ok |= e[0] == "m"
        return ok

    def running(self, f, it, g, i, lhs, rhs, nb, con):
        """X += (e - X) / n : None when not of this form; True when n counts the particles so far"""
        if rhs is None:
            return None
        r = strip(g, rhs)
        if g.k(r) != "Binary" or g.n(r)["op"] != "/":
            return None
        num, den = strip(g, g.c(r)[0]), strip(g, g.c(r)[1])
        if g.k(num) != "Binary" or g.n(num)["op"] != "-":
            return None
        if not same(g, lhs, g.c(num)[1]):
            return None
        here = g.k(den) == "Unary" and "++" in g.n(den)["op"]
        if here and g.n(den)["op"].startswith("post"):
            return False
        t = strip(g, g.c(den)[0]) if here else den
        n = g.n(t)
        if n["k"] == "Ref" and "v" in n:
            v = n["v"]
            incs = [x for x in g.walk() if loops.is_inc(g, x) and strip(g, g.c(x)[0]) is not None and g.n(strip(g, g.c(x)[0])).get("v") == v and g.k(strip(g, g.c(x)[0])) == "Ref"]
            start = [x for x, val in loops.var_defs(g, v) if val is not None]
            vals = [val for x, val in loops.var_defs(g, v) if val is not None]
            if len(vals) != 1 or not self.isnum(g, vals[0], 0) or len(incs) != 1 or nb.get(start[0]) in it.blocks:
                return False
            inc = incs[0]
            if here:
                return inc == den
            B = g.blocks()
            latches = {b for b in it.blocks if any(str(s) == it.header for s in B[b][3] if s is not None)}
            lo, hi = loops.rounds(g, B, it.header, it.blocks, latches, v, [(inc, None)])
            return (lo, hi) == (1, 1) and before(g, nb, inc, i)
        if n["k"] == "Member" and g is not f:
            fld = n.get("fld")
            cf = self.F.fns.get(f.n(con).get("f")) if con is not None else None
            if cf is None:
                return False
            init = [x[2] for x in cf.inits if x[0] == "m" and x[1] == fld]
            if len(init) != 1 or not self.isnum(cf, init[0], 0):
                return False
            gb = loops.node_blocks(g)
            incs = [x for x in g.walk() if loops.is_inc(g, x) and g.k(strip(g, g.c(x)[0])) == "Member" and g.n(strip(g, g.c(x)[0])).get("fld") == fld]
            others = [x for x in g.walk() if g.k(x) in ("CompoundAssign", "Binary") and g.n(x).get("op") in ("=", "+=", "-=", "*=", "/=") and g.n(strip(g, g.c(x)[0])).get("fld") == fld and x not in incs]
            if len(incs) != 1 or others:
                return False
            inc = incs[0]
            # once per call: on every way to the end, not in a loop
            if any(gb.get(inc) in bl for h, bl, _ in loops.natural(g)):
                return False
            if not loops_dominates(g, gb.get(inc), str(g.cfg["exit"])):
                return False
            return here or before(g, gb, inc, i)
        return False

    def isnum(self, f, i, v):
        n = f.n(strip(f, i))
        try:
            return n["k"] in ("Int", "Float") and float(n["v"]) == v
        except (TypeError, ValueError):
            return False

    def divided(self, f, it, v, key, acc, nb):
        """a sum that becomes a mean is divided by the number of what was summed"""
        some = False
        for i in f.walk():
            n = f.n(i)
            if not (n["k"] == "CompoundAssign" and n["op"] == "/=" or n["k"] == "Call" and n.get("op") == "/=" and len(f.c(i)) == 2):
                continue
            if self.base(f, f.c(i)[0]) != ("var", v):
                continue
            some = True
            d = strip(f, f.c(i)[1])
            ok = self.count_of(f, it, d) or self.kept(f, d, acc, nb) or self.total(f, it, d, acc, nb)
            self.R.check(ok, "mean", key + " mean", f.loc(i), "%s: the sum over the particles is divided by something other than their number or total weight" % f.qn)
        return some

    def weighted(self, f, it, rhs):
        """a factor of what is added is a share of the whole: weight / total weight or 1 / number"""
        if rhs is None:
            return False
        todo = [strip(f, rhs)]
        while todo:
            x = strip(f, todo.pop())
            if f.k(x) == "Binary" and f.n(x)["op"] == "*":
                todo.extend(f.c(x))
                continue
            x = self.resolve(f, x)
            if f.k(x) == "Binary" and f.n(x)["op"] == "/" and self.count_of(f, it, f.c(x)[1]):
                return True
        return False

    def kept(self, f, d, acc, nb):
        """what is summed is put in a container where it is summed, and the container's size divides"""
        d = self.resolve(f, d)
        n = f.n(d)
        if n["k"] != "Call" or (n.get("fn") or "").split("::")[-1] != "size" or not f.c(d):
            return False
        v = loops.base_var(f, f.c(d)[0])
        puts = [i for i in f.walk() if f.k(i) == "Call" and (f.n(i).get("fn") or "").split("::")[-1] in ("push_back", "insert", "emplace_back") and f.n(i).get("obj")
                and loops.base_var(f, f.c(i)[0]) == v]
        return v is not None and len(puts) == 1 and nb.get(puts[0]) == nb.get(acc)

    def total(self, f, it, d, acc, nb):
        """divided by the weights summed in the same rounds: X += e * q; qt += q"""
        v = loops.base_var(f, d)
        if v is None or it.kind not in ("loop", "range"):
            return False
        adds = [i for i in f.walk() if f.k(i) == "CompoundAssign" and f.n(i)["op"] == "+=" and f.k(strip(f, f.c(i)[0])) == "Ref" and f.n(strip(f, f.c(i)[0])).get("v") == v]
        vals = [x for nd, x in loops.var_defs(f, v) if x is not None and nb.get(nd) not in it.blocks]
        if len(adds) != 1 or nb.get(adds[0]) != nb.get(acc) or len(vals) != 1 or not self.isnum(f, vals[0], 0):
            return False
        w = f.c(adds[0])[1]
        rhs = strip(f, f.c(acc)[1])
        return f.n(rhs).get("op") == "*" and any(same(f, x, w) for x in f.c(rhs))

    def count_of(self, f, it, d):
        d = self.resolve(f, d)
        n = f.n(d)
        if n["k"] == "Cast" and f.c(d):
            return self.count_of(f, it, f.c(d)[0])
        if n["k"] == "Construct" and len(f.c(d)) == 1:
            return self.count_of(f, it, f.c(d)[0])
        if n["k"] == "Call" and (n.get("fn") or "").split("::")[-1] == "size":
            if it.kind == "range":
                return False
            a = self.V.of(f, f.c(d)[0]) if f.c(d) else {("this",)}
            return unref(a) == unref(it.cont)
        if n["k"] == "Call" and (n.get("fn") or "").split("::")[-1] in ("GetTotalCharge",):
            return True
        if n["k"] == "Member" and "double" in (n.get("t") or ""):
            return True                # a total weight kept with the bunch
        if n["k"] == "Ref" and "v" in n:
            v = n["v"]
            defs = loops.var_defs(f, v)
            vals = [x for nd, x in defs if x is not None]
            incs = [nd for nd, x in defs if x is None and loops.is_inc(f, nd)]
            if it.kind in ("loop", "range") and len(vals) == 1 and self.isnum(f, vals[0], 0) and len(incs) == 1:
                B = f.blocks()
                nb = loops.node_blocks(f)
                latches = {b for b in it.blocks if any(str(s) == it.header for s in B[b][3] if s is not None)}
                return loops.rounds(f, B, it.header, it.blocks, latches, v, [(incs[0], None)]) == (1, 1)
        return False

    def family(self):
        return {self.F.cls("Bunch")["u"]} | set(self.F.all_subs(self.F.cls("Bunch")["u"]))

    def weight(self, f, it, g, rhs, key, con):
        """functor sums w * e with w = 1 / n: n is the size of what is iterated over"""
        if rhs is None:
            return False
        some = False
        cf = self.F.fns.get(f.n(con).get("f"))
        for x in g.walk(rhs):
            if g.k(x) != "Member":
                continue
            fld = g.n(x).get("fld")
            init = [e[2] for e in cf.inits if e[0] == "m" and e[1] == fld and e[2] >= 0] if cf is not None else []
            for j in init:
                j = strip(cf, j)
                if cf.k(j) == "Binary" and cf.n(j)["op"] == "/":
                    dv = loops.base_var(cf, cf.c(j)[1])
                    ok = self.isnum(cf, cf.c(j)[0], 1) and dv in cf.params
                    if ok:
                        ok = self.count_of(f, it, f.c(con)[cf.params.index(dv)])
                    some = True
                    self.R.check(ok, "mean", key + " weight", g.loc(x), "%s: the particles are not weighted by one over their number" % f.qn)
        return some

    # ---- operations defined over the whole bunch
    def required(self):
        F, R = self.F, self.R
        base = F.cls("Bunch")
        done = set()
        for u in F.all_subs(base["u"]):
            C = F.classes[u]
            for m in C["methods"]:
                if m["n"] not in STATS or m.get("pure") or m["u"] in done:
                    continue
                f = F.fns.get(m["u"])
                if f is None or f.load()["body"] < 0:
                    continue
                done.add(m["u"])
                ps, fl = seq.paths(F, f, self.V, self.touch, maxlen=3, nodup=True, edge=self.guard, follow=lambda g: False)
                for kind, ev, _ in ps:
                    if kind == "return":
                        R.check("over" in [e[0] for e in ev] or "trivial" in [e[0] for e in ev], "operation", f.qn + "/%d" % len(f.params), f.loc(), "%s can return without having gone over the particles" % f.qn)

    def touches(self, g, depth=0):
        """g goes over the particles of the bunch it belongs to or is given"""
        if g is None or depth > 4 or g.load()["body"] < 0:
            return False
        if self.over.get(g.u):
            return True
        return False

    def touch(self, fl, i):
        f = fl.fn
        n = f.n(i)
        for it in self.over.get(f.u, ()):
            if it.kind not in ("loop", "range") and it.node == i:
                return ("over",)
        if n["k"] == "Call":
            g = self.F.fns.get(n.get("f"))
            if g is not None and g is not f and self.goes(g):
                return ("over",)
            m = self.F.method_decl.get(n.get("f"))
            if n.get("virt") and m is not None and m[1]["n"] in STATS and n.get("obj") and f.k(strip(f, f.c(i)[0])) == "This":
                return ("over",)           # what the bunch's own class makes of it, checked there
        return None

    def goes(self, g, depth=0):
        if g.load()["body"] < 0 or depth > 3:
            return False
        if self.over.get(g.u):
            return True
        return any(g.k(i) == "Call" and g.n(i).get("f") in self.F.fns and self.F.fns[g.n(i)["f"]] is not g and not g.n(i).get("virt") and self.goes(self.F.fns[g.n(i)["f"]], depth + 1) for i in g.walk())

    def guard(self, fl, cond, pol, env):
        f = fl.fn
        c = strip(f, cond)
        while f.k(c) == "Unary" and f.n(c)["op"] == "!":
            c, pol = strip(f, f.c(c)[0]), not pol
        n = f.n(c)
        if n["k"] == "Call" and (n.get("fn") or "").split("::")[-1] in ("isIdentity", "empty") and pol:
            return ("trivial",)
        for it in self.over.get(f.u, ()):
            if it.kind in ("loop", "range") and (it.node == cond or it.node in set(f.walk(cond))):
                return ("over",)
        return None


def same(g, a, b):
    """the two expressions are spelt with the same operations on the same names"""
    a, b = strip(g, a), strip(g, b)
    x, y = g.n(a), g.n(b)
    if any(x.get(k) != y.get(k) for k in ("k", "v", "fld", "g", "f", "op", "en")) or len(g.c(a)) != len(g.c(b)):
        return False
    if x["k"] in ("CompoundAssign", "Delete", "New", "Lambda") or x["k"] == "Unary" and ("++" in x["op"] or "--" in x["op"]):
        return False
    return all(p < 0 and q < 0 or p >= 0 and q >= 0 and same(g, p, q) for p, q in zip(g.c(a), g.c(b)))


def is_erased(f, x):
    i = loops.strip_copy(f, x)
    return f.k(i) == "Call" and (f.n(i).get("fn") or "").split("::")[-1] == "erase"


def unref(vals):
    out = set()
    for v in vals:
        while v[0] in ("deref", "addr"):
            v = v[1]
        out.add(v)
    return out


def plus_one(a, b):
    if a is None or b is None:
        return False
    if a[0] == "int" and b[0] == "int":
        return b[1] == a[1] + 1
    if b[0] == "b+" and (b[1] == a and b[2] == ("int", 1) or b[2] == a and b[1] == ("int", 1)):
        return True
    return a[0] == "b-" and a[1] == b and a[2] == ("int", 1)


def getter(g):
    """reads one element without changing anything (non-const accessors returning references)"""
    if g.load()["body"] < 0:
        return False
    ok = False
    for i in g.walk():
        n = g.n(i)
        if n["k"] in ("Binary",) and n["op"] == "=" or n["k"] in ("CompoundAssign", "Delete", "New", "Throw", "Call"):
            return False
        ok |= n["k"] == "Return"
    return ok


def loops_dominates(f, a, b):
    """every way from the entry to block b passes block a"""
    if a is None or b is None:
        return False
    B = f.blocks()
    entry = str(f.cfg["entry"])
    if a == entry or a == b:
        return True
    seen, work = {entry}, [entry]
    while work:
        x = work.pop()
        if x == b:
            return False
        for s in B[x][3]:
            if s is not None and str(s) != a and str(s) not in seen:
                seen.add(str(s))
                work.append(str(s))
    return True


def before(f, nb, a, b):
    if nb.get(a) == nb.get(b):
        els = [e for e in f.blocks()[nb[a]][0] if isinstance(e, int)]
        ia = next((k for k, e in enumerate(els) if e == a or a in set(f.walk(e))), None)
        ib = next((k for k, e in enumerate(els) if e == b or b in set(f.walk(e))), None)
        return ia is not None and ib is not None and ia < ib
    return loops_dominates(f, nb.get(a), nb.get(b))
