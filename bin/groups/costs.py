"""C10 cost algebra (CostAlgebra.tla)."""
from groups.sets import wrap


def consts(rand, slots, weights, coord, heap, leafs, terms, genlen=None):
    t = "CONSTANTS\n Slots = {%s}\n Rand = %s\n Weights <- WDef\n Coord <- CDef\n MaxHeap = %d\n LeafIds = {%s}\n MaxTerms = %d\n" % (
        ", ".join('"%s"' % s for s in slots), "TRUE" if rand else "FALSE", heap, ", ".join(map(str, leafs)), terms)
    if genlen:
        t += " GenLen = %d\n" % genlen
    return t, "WDef == {%s}\nCDef == {%s}\n" % (", ".join(map(str, weights)), ", ".join(map(str, coord)))


def run(c):
    t, d = consts(False, ["a", "b"], [-1] if c.quick else [-1, 4], [1], 4, [1, 2], 3)
    c.design("MCCost", "INIT Init\nNEXT Build\n" + t + "CONSTRAINT Lim\nINVARIANTS Isolated InPlaceOnlyTarget Meaning\n",
             files=wrap("MCCost", "CostAlgebra", d + "Lim == TLCGet(\"level\") < %d\n" % 5), timeout=850)
    slots = ["a", "b", "c", "d", "e"]
    W, X, L = [-4, -3, -2, -1, 0, 1, 2, 3, 4, 6], range(-3, 4), [1, 2, 3, 5]
    t, d = consts(True, slots, W, X, 14, L, 8, 36)
    gens = c.generate("GenCost", "INIT GInit\nNEXT GNext\n" + t, num=400 if c.quick else 6000, depth=38,
                      files=wrap("GenCost", "CostAlgebraGen", d), seed=c.seed * 13, timeout=800)
    scen = [[["reset"]] + g for g in gens]
    # every pair of operations in sequence with queries of all slots in between
    ops = [["plus", "d", "a", "b"], ["rplus", "d", "a", "b"], ["cplus", "d", "a", "b"], ["smul", "d", 3, "a"], ["cmul", "d", "a", 3, 0], ["cmul", "d", "a", -1, 1],
           ["neg", "d", "a"], ["iadd", "a", "b"], ["iaddsum", "a", "c"], ["imul", "a", 3], ["addc", "a", "b", -2], ["addc", "a", "b", 2],
           ["clone", "d", "a"], ["alias", "d", "a"], ["list", "d", ["a", "b"], [1, -2]]]
    q = [["q", s, [2, -1]] for s in "abcd"]
    q3 = [["q", s, [2, -1]] for s in "abc"]
    for o1 in ops:
        for o2 in ops:
            sc = [["reset"], ["leaf", "e", 3], ["leaf", "b", 5], ["list", "a", ["e", "b"], [1, 4]], ["list", "c", ["e"], [6]], ["list", "d", ["e"], [2]]] + q3
            scen.append(sc + [o1] + q + [o2] + q)
    # sums of many terms
    import random
    R = random.Random(7)
    for n in (9, 17, 33):
        names = [R.choice("eb") for _ in range(n)]
        sc = [["reset"], ["leaf", "e", 3], ["leaf", "b", 5], ["list", "a", names, [R.choice((-4, -2, 1, 3, 2)) for _ in range(n)]], ["clone", "c", "a"], ["list", "d", [], []]] + q3
        for i in range(n):
            sc.append(["addc", "d", R.choice("eb"), R.choice((-2, 1, 3))] if i % 3 else ["iadd", "d", R.choice("eb")])
        sc += q + [["iaddsum", "a", "d"]] + q + [["imul", "a", 4], ["neg", "d", "a"]] + q + [["iaddsum", "a", "c"], ["cplus", "c", "a", "e"]] + q + [["imul", "c", -1], ["q", "a", [-1, 2]], ["q", "c", [-1, 2]]]
        scen.append(sc)
    c.count(scen)
    c.sample(scen[0][:12])
    exe = c.build("costs", san="address,undefined")
    opsf, res, n = c.replay(exe, scen)
    t, d = consts(True, slots, W, X, 60, L, 400)
    c.validate("TrCost", "INIT TInit\nNEXT TNext\n" + t + "POSTCONDITION Accepted\n",
               dict(wrap("TrCost", "CostAlgebraTrace", d), **{"ops.ndjson": opsf, "res.ndjson": res}), n, len(scen), what="cost algebra", timeout=800)


CHECKS = {"C10": (run, "model_checking")}
