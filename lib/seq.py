"""Event sequences of a function: every path as the ordered tuple of the events a client recognises, with
library helpers followed into their bodies (so extracting a helper or reordering unrelated statements
changes nothing)."""
import facts
from events import EventFlow
from flow import strip, canon
from values import Values


class Spec(object):
    def __init__(self, F, classify, maxlen=8, follow=None, stop=(), edge=None, nodup=False, case=None):
        self.nodup, self.case = nodup, case
        self.F, self.classify, self.maxlen, self.follow, self.edge = F, classify, maxlen, follow, edge
        self.stop = set(stop)
        self._rel = {}

    def event(self, fl, i):
        e = self.classify(fl, i)
        if e is None:
            return None
        return e if isinstance(e, list) else [(e, None)]

    def inline(self, fl, i):
        n = fl.fn.n(i)
        if n.get("virt"):
            return None
        g = self.F.fns.get(n.get("f"))
        if g is None or g.u in self.stop or g.load()["body"] < 0 or g.cfg is None:
            return None
        if self.follow is not None and not self.follow(g):
            return None
        return g


def watch(calls=(), fields=(), names=(), fnames=()):
    """classifier: calls = {usr: label}, names = {last name of the callee: label}, fields = {field usr: label}.
    Events: (label, receiver values, (argument values...)) and ("set", label, object values, value set)."""
    calls, names, fields, fnames = dict(calls), dict(names), dict(fields), dict(fnames)

    def fieldlab(m):
        return fields.get(m.get("fld")) or fnames.get(m.get("n"))

    def classify(fl, i):
        f = fl.fn
        n = f.n(i)
        k = n["k"]
        if k == "Call":
            lab = calls.get(n.get("f"))
            if lab is None and names:
                lab = names.get((n.get("fn") or "").split("::")[-1])
            if lab is not None:
                c = f.c(i)
                off = 1 if n.get("obj") else 0
                return (lab, frozenset(fl.value(c[0])) if off else None, tuple(frozenset(fl.value(x)) for x in c[off:]))
        if (k == "Binary" and n["op"] == "=") or (k == "Call" and n.get("op") == "=" and len(f.c(i)) == 2):
            l = strip(f, f.c(i)[0])
            if f.k(l) == "Member" and fieldlab(f.n(l)):
                b = f.c(l)
                r = strip(f, f.c(i)[1])
                if f.k(r) == "Binary" and f.n(r)["op"] in ("+", "-"):       # x = x + e is x += e
                    lc = canon(f, l)
                    for p, q in ((0, 1), (1, 0)):
                        if lc is not None and canon(f, f.c(r)[p]) == lc and not (p and f.n(r)["op"] == "-"):
                            return ("upd", fieldlab(f.n(l)), f.n(r)["op"] + "=", frozenset(fl.value(f.c(r)[q])))
                return ("set", fieldlab(f.n(l)), frozenset(fl.value(b[0])) if b else frozenset({("this",)}), frozenset(fl.value(f.c(i)[1])))
        if k == "CompoundAssign" or (k == "Unary" and ("++" in n["op"] or "--" in n["op"])):
            l = strip(f, f.c(i)[0])
            if f.k(l) == "Member" and fieldlab(f.n(l)):
                return ("upd", fieldlab(f.n(l)), n["op"], frozenset(fl.value(f.c(i)[1])) if k == "CompoundAssign" else None)
        return None
    return classify


def field(F, cls, name):
    for b in F.all_bases(cls["u"]) if "u" in cls else []:
        for x in F.classes[b]["fields"]:
            if x["n"] == name:
                return x["u"]
    raise facts.Broken("anchor vanished: %s::%s" % (cls["qn"], name))


def paths(F, f, V, classify, maxlen=8, follow=None, stop=(), env=None, start=(), edge=None, nodup=False, case=None):
    """[(kind, events, retkey)] with kind return | throw"""
    sp = Spec(F, classify, maxlen, follow, stop, edge, nodup, case)
    fl = EventFlow(F, f, sp, V, env).run(start)
    out = [("return", u, rv) for (u, rv) in fl.returns] + [("throw", u, None) for u in fl.throws]
    return out, fl


def element(cont):
    return ("elem", frozenset(cont))


def norm(vals):
    """("deref", ("iter", C)), C[i] with i the loop's index -> ("elem", C)"""
    out = set()
    for v in vals:
        out.add(norm1(v))
    return frozenset(out)


def norm1(v):
    if v[0] == "deref" and v[1][0] == "iter":
        return ("elem", v[1][1])
    if v[0] == "call" and (v[2] or "").split("::")[-1] in ("operator[]", "at") and len(v[3]) == 2 and any(x[0] == "iter" for x in v[3][1]):
        for x in v[3][1]:
            if x[0] == "iter" and v[3][0] == x[1]:
                return ("elem", x[1])
    if v[0] == "call" and (v[2] or "").startswith("std::vector<") and len(v[3]) == 2:
        pass
    return v


def functor(F, V, it):
    """(body function, values of the functor object) of an algorithm's function argument"""
    f = it.f
    if it.functor is None:
        return None, None
    vals = V.of(f, it.functor)
    for v in vals:
        if v[0] == "fn" and v[1] in F.fns:
            return F.fns[v[1]], frozenset()
        if v[0] == "ctor":
            c = F.by_ty.get(v[1]) or next((c for c in F.classes.values() if c["ty"] == v[1] or c["qn"] == v[1]), None)
            if c is None:
                continue
            for m in c["methods"]:
                if m["n"] == "operator()" and m["u"] in F.fns:
                    return F.fns[m["u"]], frozenset({v})
    return None, None


def each(F, V, it, classify, follow=None, env=None, maxlen=8, stop=(), nodup=False):
    """what one element of an iteration meets: (set of event tuples per round, ways of leaving early, flow)"""
    e = dict(env or {})
    f = it.f
    sp = Spec(F, classify, maxlen, follow, stop, None, nodup)
    if it.kind == "loop":
        e[it.var] = frozenset({("iter", it.cont)})
        fl = EventFlow(F, f, sp, V, e)
        fl.region = (it.header, it.blocks)
        fl.run(())
        return fl.rounds, fl.leaves | {u for u, _ in fl.returns}, fl
    g, this = functor(F, V, it)
    if g is None or g.load()["body"] < 0 or not g.params:
        return None, None, None
    e = {g.params[0]: frozenset({element(it.cont)})}
    if this:
        e["this"] = this
    fl = EventFlow(F, g, sp, V, e).run(())
    return {u for u, _ in fl.returns}, set(), fl


def through(F, V, vals, depth=0):
    """members of functor objects -> what their constructor was given"""
    out = set()
    for v in vals:
        if v[0] == "field" and v[2][0] == "ctor" and depth < 4:
            _, t, cf, args = v[2]
            g = F.fns.get(cf)
            done = False
            if g is not None:
                e = {p: a for p, a in zip(g.params, args)}
                for x in g.inits:
                    if x[0] == "m" and x[1] == v[1] and x[2] >= 0:
                        out |= through(F, V, V.of(g, x[2], e), depth + 1)
                        done = True
            if not done:
                out.add(v)
        else:
            out.add(v)
    return frozenset(out)


def method(F, cls, name, nparams=None, const=None):
    """the function record(s) of a named method of a class (declared in it)"""
    out = []
    for m in cls["methods"]:
        if m["n"] == name and (nparams is None or len(m["pt"]) == nparams) and (const is None or bool(m.get("const")) == const):
            out.append(m)
    return out


def body(F, cls, name, nparams=None):
    for m in method(F, cls, name, nparams):
        f = F.fns.get(m["u"])
        if f is not None and f.load()["body"] >= 0:
            return f
    raise facts.Broken("anchor vanished: %s::%s" % (cls["qn"], name))


def final(F, cu, name, nparams=None):
    """method that a call of name on an object of class cu runs"""
    lvl, seen = [cu], set()
    while lvl:
        nx = []
        for x in lvl:
            if x in seen or x not in F.classes:
                continue
            seen.add(x)
            for m in F.classes[x]["methods"]:
                if m["n"] == name and (nparams is None or len(m["pt"]) == nparams):
                    return m, x
            nx += [b["u"] for b in F.classes[x]["bases"]]
        lvl = nx
    return None, None


# ---- value predicates
def is_param(vals, k):
    """every value is the k-th parameter of the function analysed"""
    return bool(vals) and all(v[0] == "param" and v[2] == k for v in vals)


def is_field(vals, fld, base=("this",)):
    return bool(vals) and all(v[0] == "field" and v[1] == fld and (base is None or v[2] == base) for v in vals)


def is_call(vals, name):
    """every value is the result of a call of a function with this last name"""
    return bool(vals) and all(v[0] == "call" and (v[2] or "").split("::")[-1] == name for v in vals)


def unref(vals):
    """look through one dereference/address (references and pointers to the same object)"""
    return frozenset(v[1] if v[0] in ("deref", "addr") else v for v in vals)
