"""C23 scalar and norm helpers (MathHelpers.tla)."""
from groups.sets import wrap


def c23(c):
    q = c.quick
    c.design("MCMath", "INIT Init\nNEXT MNext\nINVARIANTS SymmetricClose NormLaws\n", files=wrap("MCMath", "MathHelpers", "MNext == UNCHANGED last\n"))
    gens = c.generate("GenMath", "INIT GInit\nNEXT GNext\nCONSTANT GenLen = 100\n", num=200 if q else 4000, depth=102, files=wrap("GenMath", "MathHelpersGen", ""), seed=c.seed * 43, timeout=800)
    # every position of a special entry in every small shape
    S = {"inf": [100000000, -100000000, 88], "chk": [100000000, -100000000, 1000000002, 99000000]}
    full = []
    for k, sp in S.items():
        for sh in range(9):
            for r, d in ((0, 1), (1, 1), (2, 1), (3, 1), (5, 1), (1, 4), (2, 3), (3, 3), (4, 4)):
                if (sh in (0, 7) and d != 1) or (sh == 1 and r != 1) or (sh == 6 and (r, d) != (3, 1)):
                    continue
                base = [[(i * d + j) % 5 - 2 for j in range(d)] for i in range(r)]
                full.append([k, sh, base])
                if k == "chk":
                    full.append([k, sh, [[99000000] * d for _ in range(r)]])
                    full.append([k, sh, [[99000000 * (-1) ** (i + j) for j in range(d)] for i in range(r)]])
                    full.append([k, sh, [[100000000 * (-1) ** (i + j) for j in range(d)] for i in range(r)]])
                for i in range(r):
                    for j in range(d):
                        for v in sp:
                            m = [list(x) for x in base]
                            m[i][j] = v
                            full.append([k, sh, m])
    for k, sp in S.items():   # larger shapes
        for sh in range(9):
            for r, d in ((9, 1), (16, 1), (67, 1), (1, 21), (6, 9), (17, 3)):
                if (sh in (0, 7) and d != 1) or (sh == 1 and r != 1) or sh == 6:
                    continue
                base = [[(i * d + j) % 5 - 2 for j in range(d)] for i in range(r)]
                full.append([k, sh, base])
                for i in range(r):
                    for j in range(d):
                        if (i * d + j) % 3 == sh % 3 or i in (0, r - 1):
                            m = [list(x) for x in base]
                            m[i][j] = sp[(i + j) % len(sp)]
                            full.append([k, sh, m])
    for n in (4, 9, 30):
        for i in range(n):
            full.append(["infl", [[(i * 3 + j) % 7 - 3] * (j % 3) + ([99 if i % 2 else -99] if i == j else []) for j in range(n)]])
    scen = [[["reset"]] + full] + [[["reset"]] + g for g in gens]
    c.count(scen)
    c.sample(scen[1][:10])
    exe = c.build("mathh", san="address,undefined")
    ops, res, n = c.replay(exe, scen)
    c.validate("TrMath", "INIT TInit\nNEXT TNext\nPOSTCONDITION Accepted\n", dict(wrap("TrMath", "MathHelpersTrace", ""), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="math helpers", timeout=850)


CHECKS = {"C23": (c23, "model_checking")}
