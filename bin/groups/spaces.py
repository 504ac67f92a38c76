"""C08 manifold calculus, C09 Cartesian products (Manifolds.tla)."""
from groups.sets import wrap


def consts(rand, slots, maxdim, depth, coord, genlen=None):
    t = "CONSTANTS\n Slots = {%s}\n Rand = %s\n MaxDim = %d\n MaxDepth = %d\n Coord <- CoordDef\n Args = {0, 1}\n" % (
        ", ".join('"%s"' % s for s in slots), "TRUE" if rand else "FALSE", maxdim, depth)
    if genlen:
        t += " GenLen = %d\n" % genlen
    return t, "CoordDef == {%s}\n" % ", ".join(map(str, coord))


INV = "INVARIANTS RoundTrip InterpEnds JintIsDerivative JdiffIsDerivative TransportIsJacobian NeutralValid\n"
MIXQ = {"calc": "int diff rt Jint Jdiff interp trans norm neutral rand dim".split(), "struct": "dim split splitv norm".split()}


def build_only(structural):
    """Every tree built from two operands in every way (C09), with splits."""
    leaves = [("vs", 1), ("vs2", 0), ("par", 0), ("hei", 0), ("scl", 0)]
    out = []
    for ka, na in leaves:
        for kb, nb in leaves:
            for ma in "pc":
                for mb in "pc":
                    sc = [["reset"], ["new", "a", ka, na], ["new", "b", kb, nb], ["list", "c", ["a", "b"]], ["mul", "d", "b", "p", "a", "p"],
                          ["mul", "a", "c" if ma == "c" else "a", ma, "d" if mb == "c" else "b", mb], ["dim", "a"],
                          ["copy", "a", "b"], ["add", "b", "c", mb], ["add", "b", "d", ma], ["dim", "a"], ["dim", "b"],
                          ["mul", "c", "b", "p", "a", "c"], ["mul", "d", "b", "c", "c", "c"], ["add", "c", "c", "p"], ["dim", "c"], ["dim", "d"]]
                    out.append(sc)
    return out


def many(structural):
    """Products of many factors, built one factor at a time, as a list, and nested."""
    import random
    rng, out = random.Random(5), []
    dims = {"vs": None, "vs2": (2, 2), "par": (2, 1), "hei": (3, 3), "scl": (2, 2)}
    for k in range(4):
        nf = [9, 13, 17, 6][k]
        sc, nx, ndx = [["reset"], ["new", "a", "vs", 2], ["list", "d", []]], 0, 0
        pts = []
        for i in range(nf):
            kind = rng.choice(list(dims)) if k else "vs"
            n = rng.randint(0, 9) if i % 4 == 0 else rng.randint(0, 2)
            sc += [["new", "a", kind, n], ["add", "d", "a", "p"]]
            pts.append((kind, n))
        if k == 3:
            sc += [["list", "b", ["d", "a", "d"]], ["list", "c", ["b", "b"]], ["mul", "d", "c", "c", "b", "c"]]
            last = pts[-1]
            pts = (pts + [last] + pts) * 2 + pts + [last] + pts
        def pt():
            o = []
            for kind, n in pts:
                if kind == "par":
                    q = rng.randint(-3, 3)
                    o += [q, q * q]
                else:
                    o += [rng.randint(-3, 3) for _ in range(n if kind == "vs" else dims[kind][0])]
            return o
        def tv():
            return [rng.randint(-3, 3) for kind, n in pts for _ in range(n if kind == "vs" else dims[kind][1])]
        sc += [["dim", "d"], ["neutral", "d"], ["rand", "d"]]
        for rep in range(3):
            sc += [["split", "d", pt()], ["splitv", "d", tv()], ["int", "d", pt(), tv()], ["diff", "d", pt(), pt()], ["rt", "d", pt(), pt(), tv()], ["norm", "d", pt()]]
            bad = pt()
            off = 0
            where = [i for i, (kind, n) in enumerate(pts) if kind == "par"]
            if where:
                w = where[(rep * 5) % len(where)]
                off = sum(n if kind == "vs" else dims[kind][0] for kind, n in pts[:w])
                bad[off + 1] += 1
                sc.append(["norm", "d", bad])
            if not structural:
                sc.append(["interp", "d", pt(), pt(), [1, 4, 6][rep]])
        if not structural and k < 3:
            n = len(tv())
            for a in (0, 1):
                sc += [["Jint", "d", pt(), tv(), a], ["Jdiff", "d", pt(), pt(), a], ["trans", "d", pt(), tv(), a, [[rng.randint(-3, 3) for _ in range(2)] for _ in range(n)]]]
        out.append(sc)
    return out


def run(c, structural):
    # 1. design: the calculus is a calculus, on every space of two levels
    t, d = consts(False, ["a"], 1, 2, [-1, 2] if c.quick else [-1, 0, 2])
    d += """L == {[k |-> "vs", n |-> 1], [k |-> "par", n |-> 0], [k |-> "hei", n |-> 0], [k |-> "scl", n |-> 0], [k |-> "vs", n |-> 0]}
TBs == {[k |-> "tb", b |-> x] : x \\in L}
Prods == {[k |-> "prod", c |-> <<x, y>>] : x \\in L \\cup TBs, y \\in L}
All == L \\cup TBs \\cup Prods \\cup {[k |-> "tb", b |-> p] : p \\in Prods} \\cup {[k |-> "prod", c |-> <<>>]}
MInit == (\\E m \\in All : NX(m) <= %d /\\ slots = [s \\in Slots |-> m]) /\\ last = <<>>
MNext == last = <<>> /\\ Query
""".replace("\\\\", "\\") % (4 if c.quick else 5)
    c.design("MCMan", "INIT MInit\nNEXT MNext\n" + t + INV, files=wrap("MCMan", "Manifolds", d), timeout=800)
    # 2. behaviours
    slots = ["a", "b", "c", "d"]
    t, d = consts(True, slots, 3, 3, range(-3, 4), 50)
    filt = ""
    gens = c.generate("GenMan", "INIT GInit\nNEXT GNext\n" + t, num=300 if c.quick else 5000, depth=52,
                      files=wrap("GenMan", "ManifoldsGen", d), seed=c.seed * 11 + (5 if structural else 0), timeout=800)
    # and on spaces of large dimension, or with many factors
    t, d = consts(True, slots, 14, 3, range(-3, 4), 25)
    gens += c.generate("GenBig", "INIT GInit\nNEXT GNext\n" + t, num=25 if c.quick else 300, depth=27,
                       files=wrap("GenBig", "ManifoldsGen", d), seed=c.seed * 13 + (5 if structural else 0), timeout=300)
    scen = (build_only(structural) if structural else []) + [[["reset"]] + g for g in gens] + many(structural)
    c.count(scen)
    c.sample(scen[-1][:10])
    exe = c.build("spaces", san="address,undefined")
    ops, res, n = c.replay(exe, scen)
    t, d = consts(True, slots, 3, 99, range(-3, 4))
    c.validate("TrMan", "INIT TInit\nNEXT TNext\n" + t + "POSTCONDITION Accepted\n",
               dict(wrap("TrMan", "ManifoldsTrace", d), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="manifolds", timeout=800)


CHECKS = {"C08": (lambda c: run(c, False), "model_checking"),
          "C09": (lambda c: run(c, True), "model_checking")}
