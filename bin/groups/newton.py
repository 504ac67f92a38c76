"""C04 Newton systems, C07 merit function (NewtonStep.tla)."""
from groups.sets import wrap
from groups import solver


def consts(rand, coord, mus, rhos, maxn, maxb, ld, qp, ap, **kw):
    s = lambda v: "{%s}" % ", ".join(map(str, v))
    t = "CONSTANTS\n Rand = %s\n Coord <- CDef\n Mus = %s\n Rhos = %s\n MaxN = %d\n MaxBlocks = %d\n Ldlts = %s\n QPool <- QDef\n APool <- ADef\n" % (
        "TRUE" if rand else "FALSE", s(mus), s(rhos), maxn, maxb, s(ld))
    for k, v in kw.items():
        t += " %s = %s\n" % (k, v)
    return t, "CDef == %s\nQDef == %s\nADef == %s\n" % (s(coord), s(qp), s(ap))


def newton(c, props, num, thorough_num):
    t, d = consts(False, [-2, -1, 0, 1, 2], [2, 4], [0, 4], 1, 1, [1], [-2, 2], [-1, 2])
    c.design("MCNew", "INIT Init\nNEXT DNext\n" + t + "CONSTRAINT Lim\nINVARIANTS GradientsExact KktSymmetric InertiaRight FixedPoint\n",
             files=wrap("MCNew", "NewtonStep", d + "Lim == TLCGet(\"level\") < %d\n" % (5 if c.quick else 6)), timeout=800)
    t, d = consts(True, [-3, -2, -1, 0, 1, 2, 3], [1, 2, 4, 8, 16], [0, 2, 4, 8], 3, 3, [1, 1, 0, 2, 3], [-4, -3, -2, -1, 0, 1, 2, 3, 4, 6], [-2, -1, 0, 1, 2], GenLen=30)
    gens = c.generate("GenNew", "INIT GInit\nNEXT GNext\n" + t, num=num if c.quick else thorough_num, depth=32,
                      files=wrap("GenNew", "NewtonStepGen", d), seed=c.seed * 23, timeout=850)
    c.count(gens)
    c.sample(gens[0][:8])
    return gens


def replay(c, props, scen, exe):
    ops, res, n = c.replay(exe, scen)
    t, d = consts(True, [-3, -2, -1, 0, 1, 2, 3], [1, 2, 4, 8, 16], [0, 2, 4, 8], 3, 3, [0, 1, 2, 3], [0], [0],
                  Props="{%s}" % ", ".join('"%s"' % p for p in props))
    c.validate("TrNew", "INIT TInit\nNEXT TNext\n" + t + "POSTCONDITION Accepted\n",
               dict(wrap("TrNew", "NewtonStepTrace", d), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="Newton iteration", timeout=850)


def exact(c, props, num, tnum):
    gens = newton(c, props, num, tnum)
    exe = c.build("newton", libs="all", defs=["PROXSUITE_NLP_ENABLE_TEMPLATE_INSTANTIATION"])
    replay(c, props, gens, exe)


def run(c, props):
    exact(c, props, 600, 8000)
    solver.run(c, props, 120, 2000)


CHECKS = {"C04": (lambda c: run(c, ["C04"]), "model_checking"),
          "C07": (lambda c: run(c, ["C07"]), "model_checking")}
