"""C13 problem / workspace layout (ProblemLayout.tla)."""
from groups.sets import wrap


def consts(rand, slots, coord, nrs, ids, kinds, maxc, genlen=None):
    t = "CONSTANTS\n Slots = {%s}\n Rand = %s\n Coord <- CDef\n Nrs = {%s}\n Ids = {%s}\n SetKinds = {%s}\n MaxC = %d\n" % (
        ", ".join('"%s"' % s for s in slots), "TRUE" if rand else "FALSE", ", ".join(map(str, nrs)), ", ".join(map(str, ids)),
        ", ".join('"%s"' % k for k in kinds), maxc)
    if genlen:
        t += " GenLen = %d\n" % genlen
    return t, "CDef == {%s}\n" % ", ".join(map(str, coord))


def run(c):
    t, d = consts(False, ["a"], [2], [0, 1, 2], [3], ["eq", "exact"], 3)
    c.design("MCLay", "INIT Init\nNEXT Next\n" + t + "CONSTRAINT Lim\nINVARIANTS Partition\nPROPERTIES OwnFields\n",
             files=wrap("MCLay", "ProblemLayout", d + "Lim == TLCGet(\"level\") < %d\n" % (4 if c.quick else 5)), timeout=850)
    slots = ["a", "b"]
    K = ["eq", "neg", "exact", "box"]
    t, d = consts(True, slots, range(-3, 4), [0, 1, 2, 3], [1, 2, 5], K, 5, 60)
    gens = c.generate("GenLay", "INIT GInit\nNEXT GNext\n" + t, num=300 if c.quick else 5000, depth=62,
                      files=wrap("GenLay", "ProblemLayoutGen", d), seed=c.seed * 19, timeout=800)
    scen = [[["reset"]] + g for g in gens]
    # every pair / triple of block sizes, with every set kind in each position
    for n1 in range(4):
        for n2 in range(4):
            for k in K:
                cs = [[n1, 1, k], [n2, 2, "eq"], [1, 5, k]]
                tot = n1 + n2 + 1
                sc = [["reset"], ["newp", "a", "v2" if n1 % 2 else "parv1", 3, cs[:1]]]
                pt = [2, -1] if n1 % 2 else [2, 4, -1]
                p2 = [-1, 3] if n1 % 2 else [-1, 1, 3]
                for cc in cs[1:]:
                    sc += [["add", "a", cc]]
                sc += [["ws", "a"], ["views", "a"], ["res", "a"], ["fill", "a"], ["lams", "a", list(range(1, tot + 1))], ["eval", "a", pt], ["deriv", "a", p2],
                       ["hess", "a", pt, 0], ["hess", "a", p2, 1], ["eval", "a", p2], ["seg", "a", list(range(tot))], ["copyp", "a", "b"], ["add", "b", cs[0]],
                       ["layout", "a"], ["ws", "b"], ["fill", "b"], ["eval", "b", pt], ["deriv", "b", pt], ["views", "b"], ["hess", "a", pt, 1]]
                scen.append(sc)
    # neighbouring constraints on one function, with the same and with different sets
    for k1 in K:
        for k2 in K:
            for rep in (0, 1):   # (the driver shares function objects in every other history)
                scen.append([["reset"], ["newp", "a", "v2", 3, [[2, 5, k1], [2, 5, k2], [2, 5, k1], [1, 5, k2]]], ["ws", "a"], ["fill", "a"], ["lams", "a", [1, -2, 3, 1, 2, -1, 4]],
                             ["eval", "a", [2, -1]], ["deriv", "a", [-1, 3]], ["hess", "a", [2, 1], 0], ["hess", "a", [-1, 2], 1], ["eval", "a", [3, 0]], ["deriv", "a", [1, 1]]])
    # many constraints, large blocks
    import random
    R = random.Random(3)
    for nc, top in ((8, 5), (14, 3), (3, 19)):
        for sp, pts in (("v2", ([2, -1], [-1, 3])), ("parv1", ([2, 4, -1], [-1, 1, 3]))):
            cs = [[R.randint(0, top), R.choice((1, 2, 5)), R.choice(K)] for _ in range(nc)]
            tot = sum(x[0] for x in cs)
            sc = [["reset"], ["newp", "a", sp, 3, cs[:nc // 2]]] + [["add", "a", x] for x in cs[nc // 2:]]
            sc += [["layout", "a"], ["ws", "a"], ["views", "a"], ["res", "a"], ["fill", "a"], ["lams", "a", [R.randint(-4, 4) for _ in range(tot)]]]
            for i in (0, 1):
                sc += [["eval", "a", pts[i]], ["deriv", "a", pts[1 - i]], ["hess", "a", pts[i], i], ["seg", "a", [R.randint(-9, 9) for _ in range(tot)]]]
            scen.append(sc + [["views", "a"], ["layout", "a"]])
    c.count(scen)
    c.sample(scen[-1])
    exe = c.build("layout", libs=["block-kind"], san="address,undefined")
    ops, res, n = c.replay(exe, scen)
    t, d = consts(True, slots, range(-3, 4), [0, 1, 2, 3], [1, 2, 3, 5], K, 99)
    c.validate("TrLay", "INIT TInit\nNEXT TNext\n" + t + "POSTCONDITION Accepted\n",
               dict(wrap("TrLay", "ProblemLayoutTrace", d), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="problem layout", timeout=800)


CHECKS = {"C13": (run, "model_checking")}
