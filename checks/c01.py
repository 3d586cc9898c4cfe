"""C01: every constructor leaves every scalar, enumeration and pointer member with a definite value."""
import facts
from report import Report
from definit import Access, must, covered, on_some_path_unset, set_after_new, user_ctor
from flow import strip


# value types whose default constructor leaves the components to be filled in; a local made that way is
# followed as an uninitialised local by C02
VALUE_TYPES = {"TVec3D": "documented default construction without values", "PSvector": "coordinate array is filled by its reader",
               "RMap::Rij": "term filled by its array", "ring_iterator": "singular iterator"}


def duties(F, c, prefix=("this",), depth=0):
    """[(path, readable name)] of scalar-like storage the constructors of c must set"""
    out = []
    for f in c["fields"]:
        p = prefix + (f["u"],)
        if f.get("ref") or f.get("init"):
            continue
        if f.get("scalar") or f.get("scalararr"):
            out.append((p, f["n"]))
        elif f.get("rec") and not f.get("array"):
            m = F.classes.get(f["rec"])
            if m is not None and not user_ctor(m) and depth < 4:
                out += [(q, f["n"] + "." + nm) for q, nm in duties(F, m, p, depth + 1)]
    for b in c["bases"]:
        m = F.classes.get(b["u"])
        if m is not None and not user_ctor(m) and depth < 4:
            out += duties(F, m, prefix, depth + 1)
    return out


def holder(f, i):
    """local variable a new expression is stored in"""
    p = f.parents.get(i)
    while p is not None and f.k(p) == "Cast":
        i, p = p, f.parents.get(p)
    if p is None:
        return None
    n = f.n(p)
    if n["k"] == "Decl":
        for v, init, _ in n["d"]:
            if strip(f, init) == strip(f, i):
                return v
    if n["k"] == "Binary" and n["op"] == "=":
        t = strip(f, f.c(p)[0])
        if f.k(t) == "Ref":
            return f.n(t).get("v")
    return None


def sig(f):
    return "(" + ",".join(short(f.vars[p][1]) for p in f.params) + ")"


def short(t):
    t = t.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "string")
    return t.replace("const ", "").replace(" &", "&").replace(" *", "*")


def run():
    F = facts.load()
    R = Report("C01", "Definite-assignment dataflow over the CFG of every user-written constructor (initialiser list, body, member functions it calls on the object): "
               "every data member of scalar, enumeration, pointer or array-of-scalar type (and those of nested classes without constructors) is assigned on every "
               "path to normal completion, and none is read before; members left open by the must-analysis are re-examined path by path with correlated branches. "
               "Implicit default constructors of classes with such members count as constructors when the class is built by default somewhere.")
    A = Access(F)
    nm = 0
    done = set()
    for f in sorted(F.all(), key=lambda f: (f.file, f.line)):
        if f.kind != "ctor" or f.implicit or f.defaulted or f.body < 0:
            continue
        c = F.classes.get(f.cls)
        if c is None:
            continue
        ds = duties(F, c)
        if f.load().get("defctor") and c["qn"].split("<")[0] in VALUE_TYPES:
            nonarr = {fl["u"] for fl in c["fields"] if fl["n"] == "pid"}
            ds = [d for d in ds if c["qn"] == "PSvector" and d[0][-1] in nonarr]
        if f.load().get("delegating"):
            continue
        reads, ex = must(A, f, frozenset())
        if ex is None:
            # never completes normally
            continue
        name = c["qn"] + "::" + c["name"] + sig(f)
        for i in f.walk(f.body):
            n = f.n(i)
            if n["k"] == "Construct" and F.by_ty.get(n.get("t")) is c and f.k(f.parents.get(i)) == "Block":
                R.bad("discarded", name + " builds and drops another object", f.loc(i), "constructor %s hands its arguments to a temporary that is thrown away: the object itself is left without them" % name)
        R.ok("discarded")
        for p, nme in ds:
            nm += 1
            key = "%s member %s" % (name, nme)
            if covered(p, ex):
                R.ok("member", f.loc() + " " + key)
                continue
            x, _ = on_some_path_unset(A, f, p)
            R.check(not x, "member", key, f.loc(), "constructor %s leaves member %s of %s without a value%s" % (name, nme, c["qn"], ""))
        dset = {p for p, _ in ds}
        for p, nd in reads:
            if p in dset:
                _, br = on_some_path_unset(A, f, p)
                nme = [n for q, n in ds if q == p][0]
                key = "%s reads %s before setting it" % (name, nme)
                R.check(br is None, "read-order", key, f.loc(nd), "constructor %s uses member %s before it has a value" % (name, nme))
    # classes without constructors made by plain new
    for f in F.all():
        for i in f.walk():
            n = f.n(i)
            if n["k"] != "New" or n.get("arr"):
                continue
            c = F.by_ty.get(n["nt"])
            if c is None or user_ctor(c):
                continue
            ds = duties(F, c)
            cons = [x for x in f.c(i) if x >= 0 and f.k(x) in ("Construct", "InitList")]
            init = any(f.k(x) == "InitList" or f.n(x).get("zero") or f.c(x) for x in cons) or not ds or any(f.k(x) not in ("Construct",) for x in f.c(i) if x >= 0)
            v = holder(f, i)
            if not init and v is not None:
                ds = [(q, x) for q, x in ds if not set_after_new(A, f, (("*", v),) + q[1:], i)]
                init = not ds
            R.check(init, "plain-new", "new %s in %s" % (c["qn"], f.qn), f.loc(i), "a %s is created with members %s unset" % (c["qn"], ", ".join(x for _, x in ds)))
    R.floor("member", 500)
    return R.finish(F)
