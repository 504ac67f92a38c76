"""C21 errors: refused uses of the API (ApiErrors.tla) and faults injected into complete solves (ProxSolver.tla)."""
from groups.sets import wrap


def c21(c):
    q = c.quick
    gens = c.generate("GenErr", "INIT GInit\nNEXT GNext\nCONSTANT GenLen = 100\n", num=150 if q else 4000, depth=102, files=wrap("GenErr", "ApiErrorsGen", ""), seed=c.seed * 47, timeout=800)
    scen = [[["reset"]] + g for g in gens]
    c.count(scen)
    c.sample(scen[0][:12])
    exe = c.build("errors", libs="all", defs=["PROXSUITE_NLP_ENABLE_TEMPLATE_INSTANTIATION", "_GLIBCXX_ASSERTIONS"])
    ops, res, n = c.replay(exe, scen)
    c.validate("TrErr", "INIT TInit\nNEXT TNext\nPOSTCONDITION Accepted\n", dict(wrap("TrErr", "ApiErrorsTrace", ""), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="refused uses", timeout=850)
    from groups import solver
    solver.run(c, ["C21"], num=240, fault=45)


CHECKS = {"C21": (c21, "model_checking")}
