"""C16 symmetric factorisations (Factorization.tla)."""
from groups.sets import wrap

SMALL = ["new", "fac", "fac", "fac", "sing", "kkt", "kkt", "solve", "solve", "solve", "solve", "copy", "mat", "cplx", "cplx", "tuple", "newbad"]
LARGE = ["new", "fac", "fac", "kkt", "solve", "solve", "sing", "cplx", "copy"]


def consts(sizes, weights, **kw):
    t = 'CONSTANTS\n Slots = {"a", "b", "c"}\n Sizes = {%s}\n Weights <- %s\n' % (", ".join(map(str, sizes)), weights)
    for k, v in kw.items():
        t += " %s = %s\n" % (k, v)
    return t


def body(extra=""):
    q = lambda l: "<<" + ", ".join('"%s"' % x for x in l) + ">>"
    return "WSmall == %s\nWLarge == %s\n" % (q(SMALL), q(LARGE)) + extra


def c16(c):
    c.design("MCFac", "INIT ZInit\nNEXT MNext\n" + consts([1], "WSmall") + "INVARIANTS InertiaLaw KktLaw\n",
             files=wrap("MCFac", "Factorization", body('MNext == last = <<>> /\\ last\' = <<"x">> /\\ UNCHANGED obj\n')), timeout=800)
    scen = []
    small = consts([1, 2, 3, 4, 5, 6], "WSmall", GenLen=30)
    scen += [[["reset"]] + g for g in c.generate("GenFac", "INIT GInit\nNEXT GNext\n" + small, num=500 if c.quick else 8000, depth=32,
                                                  files=wrap("GenFac", "FactorizationGen", body()), seed=c.seed * 13, timeout=800)]
    large = consts([16, 31, 32, 33, 34, 48, 63, 64, 65, 66, 97, 127, 128, 129, 130, 160] if c.quick else list(range(14, 70)) + [96, 97, 127, 128, 129, 130, 192, 255, 256, 257, 258, 300], "WLarge", GenLen=12)
    scen += [[["reset"]] + g for g in c.generate("GenFacL", "INIT GInit\nNEXT GNext\n" + large, num=60 if c.quick else 900, depth=14,
                                                  files=wrap("GenFacL", "FactorizationGen", body()), seed=c.seed * 17, timeout=850)]
    c.count(scen)
    c.sample(scen[0][:10])
    c.sample(scen[5][:10])
    exe = c.build("ldlt", libs=["block-kind"], san="address,undefined")
    ops, res, n = c.replay(exe, scen)
    c.validate("TrFac", "INIT TInit\nNEXT TNext\n" + consts([1], "WSmall") + "POSTCONDITION Accepted\n",
               dict(wrap("TrFac", "FactorizationTrace", body()), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="factorisations", timeout=850)


CHECKS = {"C16": (c16, "model_checking")}
