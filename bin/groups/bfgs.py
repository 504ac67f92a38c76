"""C18 quasi-Newton updates (BfgsUpdate.tla)."""
from groups.sets import wrap


def c18(c):
    q = c.quick
    t = "CONSTANTS\n Slots = {\"a\"}\n Grid <- GridDef\n Dims = {1, 2}\n MaxLen = %d\n"
    inv = "INVARIANTS Symmetric Definite\nPROPERTY Secant\n"
    c.design("MCBfgs", "INIT DInit\nNEXT DNext\n" + t % (4 if q else 5) + inv, files=wrap("MCBfgs", "BfgsUpdateDesign", "GridDef == {-1, 0, 2}\n" if q else "GridDef == {-1, 0, 2}\n"), timeout=850)
    c.design("MCBfgs", "INIT DInit\nNEXT DNext\n" + (t % (6 if q else 8)).replace("{1, 2}", "{1}") + inv, files=wrap("MCBfgs", "BfgsUpdateDesign", "GridDef == {-1, 0, 1, 2, NAN}\n"), timeout=850)
    t = "CONSTANTS\n Slots = {\"a\", \"b\", \"c\"}\n"
    gens = c.generate("GenBfgs", "INIT GInit\nNEXT GNext\n" + t + " GenLen = 60\n MaxDim = 5\n", num=400 if q else 8000, depth=62, files=wrap("GenBfgs", "BfgsUpdateGen", ""), seed=c.seed * 41, timeout=850)
    # larger dimensions
    for n in (7, 8, 12, 17):
        for typ in (0, 1):
            x, g = [i % 5 - 2 for i in range(n)], [(3 * i) % 7 - 3 for i in range(n)]
            sc = [["mk", "a", typ, n, 1], ["upd", "a", x, g]]
            for i in range(n):
                x, g = list(x), list(g)
                j = (i + n // 2) % n
                x[i] += 1
                g[i] += 1 if i % 3 else -1   # every third pair has negative curvature
                g[j] += [1, -1, 0][i % 3]
                sc.append(["upd", "a", x, g])
            gens.append(sc)
    # the update is homogeneous in the units of points and of gradients
    units = [(0, 0), (0, 0), (-25, -25), (40, -40), (0, -30), (-100, 3), (50, 60)]
    scen = [[["reset", *units[i % len(units)]]] + g for i, g in enumerate(gens)]
    c.count(scen)
    c.sample(scen[0][:10])
    exe = c.build("bfgs", san="address,undefined")
    ops, res, n = c.replay(exe, scen)
    c.validate("TrBfgs", "INIT TInit\nNEXT TNext\n" + t + "POSTCONDITION Accepted\n", dict(wrap("TrBfgs", "BfgsUpdateTrace", ""), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="quasi-Newton updates", timeout=850)


CHECKS = {"C18": (c18, "model_checking")}
