"""C11 functions and costs, C12 finite differences (NlpFunctions.tla)."""
import random
from groups.sets import wrap

CODES = ["v1", "v2", "v3", "hei", "par", "tb1", "v1hei", "parv1", "scl"]


def consts(rand, slots, par, coord, heap, kinds, genlen=None):
    t = "CONSTANTS\n Slots = {%s}\n Rand = %s\n Par <- PDef\n Coord <- CDef\n MaxHeap = %d\n Kinds = {%s}\n" % (
        ", ".join('"%s"' % s for s in slots), "TRUE" if rand else "FALSE", heap, ", ".join('"%s"' % k for k in kinds))
    if genlen:
        t += " GenLen = %d\n" % genlen
    return t, "PDef == {%s}\nCDef == {%s}\n" % (", ".join(map(str, par)), ", ".join(map(str, coord)))


INV = "INVARIANTS JacIsDerivative FDExact HessIsDerivative GNHess\n"
SPX = dict(v1=1, v2=2, v3=3, hei=3, par=2, tb1=2, v1hei=4, parv1=3, scl=2, v9=9, v17=17, mix=13)
SPV = dict(v1=1, v2=2, v3=3, hei=3, par=1, tb1=2, v1hei=4, parv1=2, scl=2, v9=9, v17=17, mix=12)


BIG = ["v9", "v17", "mix"]


def pt(R, m):
    if m in BIG:
        p = [R.randint(-1, 1) for _ in range(SPX[m])]
        if m == "mix":
            p[6] = p[5] ** 2
        return p
    z = lambda: R.randint(-2, 2)
    def par():
        t = z(); return [t, t * t]
    return par() if m == "par" else par() + [z()] if m == "parv1" else [z() for _ in range(SPX[m])]


def grid(R, fd, codes=CODES):
    """Every kind of object on every space, every ordered pair of query kinds at two different points."""
    out = []
    for m in codes:
        n = SPV[m]
        amp = 1 if m in BIG else 2
        vec = lambda k: [R.randint(-amp, amp) for _ in range(k)]
        def sym(k):
            M = [vec(k) for _ in range(k)]
            return [[M[min(i, j)][max(i, j)] for j in range(k)] for i in range(k)]
        tgt = pt(R, m)
        some = lambda: tgt if R.random() < .3 else pt(R, m)    # (the residuals vanish at the target)
        base = [["reset"], ["diff", "a", m, tgt], ["ldiff", "b", m, pt(R, m), [vec(n), vec(n)], vec(2)], ["qres", "c", "b", sym(2), vec(2), 1],
                ["dist", "d", m, pt(R, m), sym(n), 2], ["lin", "e", [vec(n)], vec(1)], ["comp", "f", "e", "a"], ["f2c", "g", "f"]]
        if m == "v2":
            base += [["poly", "f", 1], ["qres", "g", "f", sym(2), vec(2), -1], ["gn", "g", 0]]
        if fd:
            for fn, nr in [("a", n), ("b", 2), ("c", 1), ("d", 1), ("f", 2 if m == "v2" else 1), ("g", 1)]:
                if m in ("hei", "v1hei") and fn in ("c", "d"):
                    continue     # degree four along a degree two space
                for e in (2, 4):
                    sc = base + [["fd1", "h", m, fn, e], ["fd2", "i", m, fn, e]]
                    for x in [pt(R, m) for _ in range(4)]:
                        sc += [["v", "h", x], ["J", "h", x], ["v", "i", x], ["J", "i", x], ["H", "i", x, vec(nr)], ["J", fn, x]]
                    out.append(sc + [["dims", "h"], ["dims", "i"]])
        else:
            more = []
            if m == "v2":   # a nonlinear function of a residual
                base += [["comp", "h", "f", "a"], ["comp", "i", "f", "b"]]
                more = [("h", 0, 2), ("i", 0, 2)]
            for fn, cost, nr in [("a", 0, n), ("b", 0, 2), ("c", 1, 1), ("d", 1, 1), ("f", 0, 2 if m == "v2" else 1), ("g", 1, 1)] + more:
                kinds = ["v", "J", "H"] + (["c", "g", "h"] if cost else [])
                for q1 in kinds:
                    sc = list(base)
                    for q2 in kinds:
                        x, y = some(), some()
                        for q, z in ((q1, x), (q2, y), (q2, x), (q1, y)):
                            sc.append([q, fn, z] + ([vec(nr)] if q == "H" else []))
                        if fn == "d":
                            sc += [["settgt", "d", pt(R, m)], ["t", "d"]]
                    out.append(sc)
    return out


def run(c, fd):
    R = random.Random(c.seed * 100 + fd)
    # 1. design: derivatives are derivatives, exhaustively over small objects built in up to two steps
    t, d = consts(False, ["a", "b"], [-1, 2], [-1, 2], 3, ["v2", "par"])
    d += """MBuild == Pol \\/ F2C \\/ (Len(heap) < 2 /\\ (DiffOp \\/ (\\E s \\in Slots, f \\in Slots : Has(f) /\\ Do(<<"qres", s, f, [i \\in 1..N(f) |-> [j \\in 1..N(f) |-> i + j]], [i \\in 1..N(f) |-> 1 - i], 1>>)))) \\/ Comp \\/ FDown \\/ (\\E g \\in {0} : Do(<<"gn", "a", g>>)) \\/ (Len(heap) < 1 /\\ \\E b \\in Par : Do(<<"lin", "a", <<<<b, 2>>, <<1, -1>>>>, <<b, 1>>>>))
QQ == \\E s \\in Slots : Has(s) /\\ \\E x \\in Pts(Dom(heap, ptr[s])), q \\in {"J", "h"} : Do(<<q, s, x>>)
MNext == (IF last = <<>> THEN TRUE ELSE last[1][1] \\notin {"J", "h"}) /\\ (MBuild \\/ QQ)
Lim == TLCGet("level") < %d
""" % (4 if c.quick else 5)
    c.design("MCFun", "INIT Init\nNEXT MNext\n" + t + "CONSTRAINT Lim\n" + INV, files=wrap("MCFun", "NlpFunctions", d), timeout=850)
    slots = list("abcdefghi")
    P, X = [-2, -1, 0, 1, 2], [-2, -1, 0, 1, 2]
    t, d = consts(True, slots[:5], P, X, 30, CODES, 60)
    gens = c.generate("GenFun", "INIT GInit\nNEXT GNext\n" + t, num=250 if c.quick else 5000, depth=62,
                      files=wrap("GenFun", "NlpFunctionsGen", d), seed=c.seed * 17 + fd, timeout=800)
    scen = grid(R, fd) + grid(R, fd, BIG) + [[["reset"]] + g for g in gens]
    if not c.quick:
        for k in range(5):
            scen += grid(R, fd)
    c.count(scen)
    c.sample(scen[-1][:12])
    exe = c.build("functions", san="address,undefined")
    ops, res, n = c.replay(exe, scen)
    t, d = consts(True, slots, P, X, 60, CODES)
    c.validate("TrFun", "INIT TInit\nNEXT TNext\n" + t + "POSTCONDITION Accepted\n",
               dict(wrap("TrFun", "NlpFunctionsTrace", d), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="functions", timeout=800)


CHECKS = {"C11": (lambda c: run(c, False), "model_checking"),
          "C12": (lambda c: run(c, True), "model_checking")}
