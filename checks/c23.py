"""C23: text streams of bunches (and of the small value types they are made of) are written and read in the same column order."""
import re
import sys
import facts
import streams
from report import Report

R = F = X = fns = None


def short(lab):
    return re.sub(r"^c:.*@FI@|^c:.*@", "", str(lab))


def tail(p):
    p = [short(x) for x in p]
    if len(p) > 1 and p[-1].startswith("["):
        return tuple(p[-2:])
    return tuple(p[-1:])


def canon(v):
    if v is None:
        return None
    if v[0] == "path":
        return tail(v[1])
    if v[0] == "sqrt":
        return ("sqrt",) + (canon(v[1]) or ())
    return ("?",) + tuple(str(x) for x in v[:2])


LOOPS = (("{",), ("}",))


def written(ev):
    """columns of one path: (what, loc, separated, type) with marks for loops; separated: cannot run into the column before"""
    out, width, prec, left, sci, gap, first = [], None, 6, False, False, True, None
    prevopen = False      # the previous column may be followed immediately
    for e in ev:
        if e[0] == "width":
            width = e[1]
        elif e[0] == "precision":
            prec = e[1]
        elif e[0] == "scientific":
            sci = True
        elif e[0] == "fixed":
            sci = False
        elif e[0] in ("left", "right"):
            left = e[0] == "left"
        elif e[0] == "gap":
            gap = True
        elif e[0] == "text":
            t = e[1]
            gap = gap or t in ("10", "9", "32") or bool(re.match(r"[\s,]|\\[nt]", t)) or bool(re.search(r"[\s,]$|\\[nt]$", t))
            width = None
        elif e[0] == "loop":
            out.append(("{", e[1]))
        elif e[0] == "end":
            out.append(("}", e[1]))
        elif e[0] == "write":
            t = e[3]
            # room: a number right-aligned in a field wider than its longest form leaves a blank before it
            need = 8 + (prec if prec is not None else 17) if ("double" in t or "float" in t) else 21
            room = not left and width is not None and width >= need
            out.append(("col", canon(e[1]), e[2], gap or room, t))
            gap = False
            width = None
    return out


def taken(ev):
    """columns of one reading path: (where the value ends up, loc)"""
    out, at = [], {}
    for e in ev:
        if e[0] == "loop":
            out.append(["{", e[1]])
        elif e[0] == "end":
            out.append(["}", e[1]])
        elif e[0] == "read":
            p = e[2]
            w = None if p is None or p[0] == "local" and len(p) == 2 else tail(p)
            out.append(["col", w, e[3], p])
            at[e[1]] = out[-1]
        elif e[0] == "sink":
            v, w = e[1], tail(e[2])
            if v[0] == "square":
                v, w = v[1], ("sqrt",) + w
            if v[0] == "in" and v in at:
                at[v][1] = w
            else:
                for t in [x for x in flat(v) if x in at]:
                    at[t][1] = ("?",) + w
    return out


def flat(v):
    if isinstance(v, tuple):
        if v[:1] == ("in",):
            yield v
        else:
            for x in v:
                for y in flat(x):
                    yield y


def names(f):
    return "%s (%s)" % (f.qn, f.loc(f.body))


def longest(f, ways):
    """the paths with the most columns"""
    ps = [ways(ev) for ev in X.follow(f)]
    ps = [p for p in ps if any(e[0] == "col" for e in p)]
    return ps


def agree(w, r):
    """None, or (position, written, read, location): writer and reader differ"""
    w = [e for e in w]
    r = [e for e in r]
    i = j = 0
    while i < len(w) or j < len(r):
        a = w[i] if i < len(w) else None
        b = r[j] if j < len(r) else None
        if a is not None and a[0] in "{}" and (b is None or b[0] != a[0]):
            i += 1
            continue
        if b is not None and b[0] in "{}" and (a is None or a[0] != b[0]):
            j += 1
            continue
        if a is not None and b is not None and a[0] in "{}":
            i, j = i + 1, j + 1
            continue
        if a is None:
            if b[1] == ("pid",) and all(e[0] != "col" for e in r[j + 1:]):
                return None          # the number at the end of a line may be absent
            return (j, None, b[1], b[2])
        if b is None:
            return (i, a[1], None, a[2])
        cnt = a[1] is not None and a[1][-1:] in (("size()",), ("()",)) or a[1] is not None and "size" in str(a[1][-1])
        if not (a[1] == b[1] and a[1] is not None or cnt and b[1] is None):
            return (i, a[1], b[1], b[2])
        i, j = i + 1, j + 1
    return None


def say(x):
    return "nothing" if x is None else ".".join(str(y) for y in x)


def pair(kind, w, r, who):
    ws, rs = longest(w, written), longest(r, taken)
    R.check(bool(ws) and bool(rs), kind, who + "|columns", w.loc(w.body), "no columns found in %s or %s" % (names(w), names(r)))
    if not ws or not rs:
        return
    for a in ws:
        best = None
        for b in rs:
            best = agree(a, b)
            if best is not None:
                break
        R.check(best is None, kind, who, best[3] if best else w.loc(w.body),
                best and "column %d: %s writes %s, %s reads it into %s" % (best[0] + 1, w.qn, say(best[1]), r.qn, say(best[2])))
        n = 0
        cols = [e for e in a if e[0] == "col"]
        glued = [e for k, e in enumerate(cols) if k and not e[3]]
        R.check(not glued, "separate", who, glued[0][2] if glued else w.loc(w.body),
                glued and "the column %s follows the one before without anything between them: %s reads both as one" % (say(glued[0][1]), r.qn))


def bodied(g):
    g.load()
    return g.body is not None and g.body >= 0


def ptypes(g):
    return [g.vars[v][1] for v in g.load()["params"]]


def method(u, pred):
    """the method of the class or the nearest of its bases"""
    for b in [u] + list(F.all_bases(u, True)):
        l = [g for g in fns if g.cls == b and pred(g)]
        if l:
            return l
    return []


def sig(name, types):
    def p(g):
        ts = ptypes(g)
        return g.name == name and len(ts) == len(types) and all(re.search(b, a) for a, b in zip(ts, types))
    return p


KNOWN = {"name": ["ElementName"], "s": ["s"], "pos": ["position"], "position": ["position"], "x": ["v[0]"], "xp": ["v[1]"], "y": ["v[2]"], "yp": ["v[3]"],
         "ct": ["v[4]"], "dp": ["v[5]"], "t": ["ct0"], "p0": ["p0"], "id": ["pid"], "turn": ["turn"], "loss": ["lost"], "temperature": ["temperature"],
         "length": ["length"], "bin_start": ["interval"]}


def leaf(e):
    return "".join(e[1]) if e[1] else ""


def parts(v):
    """the fields a written value is made of"""
    if v is None:
        return set()
    if v[0] == "path":
        return {"".join(tail(v[1]))}
    out = set()
    for x in v[1:]:
        if isinstance(x, tuple):
            out |= parts(x)
    return out


def header(f, who):
    for ev in X.follow(f):
        head, on, cols, kinds = None, False, [], 0
        hloc = f.loc(f.body)
        i = 0
        while i < len(ev):
            e = ev[i]
            if e[0] == "text" and head is None and e[1].lstrip('"').startswith("#"):
                head = e[1].strip('"').lstrip("#").split()
            elif e[0] == "text" and head is not None and not on and e[1] not in ("10", "32", "9"):
                head += e[1].split()
            elif e[0] == "loop" and head is not None:
                on, cols = True, []
            elif e[0] == "end" and on:
                if cols:
                    msg = None
                    if len(cols) != len(head):
                        msg = "the header names %d columns (%s), %d are written (%s)" % (len(head), " ".join(head), len(cols), " ".join("/".join(sorted(parts(c[1]))) for c in cols))
                    else:
                        for h, c in zip(head, cols):
                            k = KNOWN.get(h.lower())
                            if k and not set(k) & parts(c[1]):
                                msg = "the column named %s is %s" % (h, "/".join(sorted(parts(c[1]))) or "something else")
                                break
                    R.check(msg is None, "header", "%s|%s" % (who, " ".join(head)), cols[0][2], msg)
                on, head = False, None
            elif e[0] == "write" and on:
                cols.append(e)
            i += 1


def run():
    global R, F, X, fns
    sys.setrecursionlimit(20000)
    R = Report("C23", "for every pair of a function writing values to a text stream and one reading them back, the fields written and the places the values read end up in "
               "agree column by column on every path, columns are kept apart, and headers name the columns of the loop that follows")
    F = facts.load()
    X = streams.Ex(F)
    fns = [g for g in F.fns.values() if bodied(g) and g.loc(g.body)]
    # 1. stream operators of one type
    outs, ins = {}, {}
    for g in fns:
        ts = ptypes(g)
        if g.name in ("operator<<", "operator>>") and len(ts) == 2:
            t = re.sub(r"\b(const|class|struct)\b|[&\s]", "", ts[1])
            if g.name == "operator<<" and "ostream" in ts[0]:
                outs[t] = g
            if g.name == "operator>>" and "istream" in ts[0]:
                ins[t] = g
    both = sorted(set(outs) & set(ins))
    for t in both:
        pair("operators", outs[t], ins[t], t)
    R.floor("operators", 4)


    # 2. members that write and read one object
    for u, c in sorted(F.classes.items(), key=lambda x: x[1]["qn"]):
        w = [g for g in fns if g.cls == u and sig("Write", ["ostream"])(g)]
        r = [g for g in fns if g.cls == u and sig("Read", ["istream"])(g)]
        if w and r:
            pair("members", w[0], r[0], c["qn"])
    R.floor("members", 1)

    # 3. bunches: what Output writes, Input or the constructor reads
    PB = F.cls("ParticleTracking::ParticleBunch")
    SMP = F.cls("SMPTracking::SMPBunch")
    PSV = [t for t in both if t.split("::")[-1] == "PSvector"]
    nb = 0
    for u in sorted([PB["u"]] + list(F.all_subs(PB["u"], True)), key=lambda x: F.classes[x]["qn"]):
        c = F.classes[u]
        rd = method(u, sig("Input", ["double", "istream"]))
        R.check(bool(rd), "bunch", c["qn"] + "|Input", c["file"], "a particle bunch without a reader")
        if not rd:
            continue
        for s, tag in ((["ostream"], "Output"), (["ostream", "bool"], "Output with header")):
            # the writer is looked up like the call would be: a name in the derived class hides those of its bases
            l = method(u, sig("Output", s))
            if u != PB["u"] and not [g for g in fns if g.cls == u and g.name in ("Output", "Input")]:
                continue
            for w in l[:1]:
                nb += 1
                pair("bunch", w, rd[0], "%s %s" % (c["qn"], tag))
        for g in fns:
            if g.cls == u and g.kind == "ctor" and len(ptypes(g)) == 3 and "istream" in ptypes(g)[2] and PSV and longest(g, taken):
                pair("bunch", outs[PSV[0]], g, "%s from a stream of particles" % c["qn"])
        for g in fns:
            if g.cls == u and g.name == "OutputIndexParticle" and PSV:
                pair("bunch", g, ins[PSV[0]], "%s one particle" % c["qn"])
    R.floor("bunch", 4)
    w = [g for g in fns if g.cls == SMP["u"] and g.name == "Output"]
    r = [g for g in fns if g.cls == SMP["u"] and g.kind == "ctor" and len(ptypes(g)) == 1 and "string" in ptypes(g)[0]]
    R.check(bool(w) and bool(r), "slices", SMP["qn"], SMP["file"], "no writer or reader of slice bunches")
    if w and r:
        pair("slices", w[0], r[0], SMP["qn"])

    # 4. headers
    CO = F.cls("ParticleTracking::CollimationOutput")
    for u in [PB["u"]] + list(F.all_subs(PB["u"], True)) + [CO["u"]] + list(F.all_subs(CO["u"], True)):
        for g in fns:
            if g.cls == u and g.name == "Output":
                header(g, F.classes[u]["qn"])
    R.floor("header", 5)
    R.extra["pairs"] = both
    return R.finish(F)
