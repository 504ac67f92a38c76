"""C24 printed forms (Rendering.tla)."""
import itertools
from groups.sets import wrap


def c24(c):
    q = c.quick
    c.design("MCRen", "INIT Init\nNEXT MNext\nINVARIANT PatternLaws\n", files=wrap("MCRen", "Rendering", "MNext == UNCHANGED last\n"))
    gens = c.generate("GenRen", "INIT GInit\nNEXT GNext\nCONSTANT GenLen = 60\n", num=80 if q else 4000, depth=62, files=wrap("GenRen", "RenderingGen", ""), seed=c.seed * 47, timeout=800)
    # every kind in every position of every two-block structure (square and rectangular)
    full = [["pat", [r, s], [[a, b], [d, e]], 0, 2] for r, s in itertools.product((1, 2, 3), repeat=2) for a, b, d, e in itertools.product((1, 2, 4), range(5), range(5), (0, 3, 4))]
    full += [["hess", k] for k in range(4)] + [["csum", []], ["csum", [4]], ["csum", [0, 0]]]
    scen = [[["reset"]] + full] + [[["reset"]] + g for g in gens]
    c.count(scen)
    c.sample(scen[1][:6])
    exe = c.build("render", san="address,undefined", libs=["block-kind"])
    ops, res, n = c.replay(exe, scen)
    c.validate("TrRen", "INIT TInit\nNEXT TNext\nPOSTCONDITION Accepted\n", dict(wrap("TrRen", "RenderingTrace", ""), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="printed forms", timeout=850)


CHECKS = {"C24": (c24, "model_checking")}
