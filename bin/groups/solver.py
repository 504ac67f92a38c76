"""C01 C02 C19 C20 C22 (and solver parts of C03 C04 C21): complete solves (ProxSolver.tla)."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import flat, Rejected, CheckError, NCPU
from groups.sets import wrap

ALLP = range(0, 18)
LARGE = (18, 19)
NONCONVEX = (4, 5, 11, 15, 16, 17)   # the shift of the KKT matrix is chosen repeatedly


def consts(**kw):
    return "CONSTANTS\n" + "".join(" %s = %s\n" % kv for kv in kw.items())


def scenarios(c, num, length=26, pids=ALLP, fault=12, salt=0):
    t = consts(Props="{}", GenLen=length, Pids="{%s}" % ", ".join(map(str, pids)), FaultPc=fault)
    g = c.generate("GenSol", "INIT GInit\nNEXT GNext\n" + t, num=num, depth=length + 2, files=wrap("GenSol", "ProxSolverGen", ""), seed=c.seed * 97 + salt, timeout=850)
    c.count(g)
    c.sample(g[0][:8])
    return g


def record(c, exe, scen, name, timeout=300):
    """run the scenarios; the driver writes the trace of events"""
    tok = os.path.join(c.work, name + "_ops.txt")
    tr = os.path.join(c.work, name + "_trace.ndjson")
    with open(tok, "w") as f:
        for sc in scen:
            for st in sc:
                f.write(" ".join(flat(st)) + "\n")
    try:
        c.run_driver(exe, [tok, tr], timeout=timeout)
    except Rejected as e:
        last = open(tr).read().splitlines()[-1:] if os.path.exists(tr) else []
        e.what += "\n  last event: %s" % last
        e.files += [tok, tr]
        raise
    return tok, tr


def solver(c, props, scen, chunks=8, what="solve"):
    exe = c.build("solver", libs="all", defs=["PROXSUITE_NLP_ENABLE_TEMPLATE_INSTANTIATION", "_GLIBCXX_ASSERTIONS"])
    size = (len(scen) + chunks - 1) // chunks
    parts = [scen[i:i + size] for i in range(0, len(scen), size)]
    t = consts(Props="{%s}" % ", ".join('"%s"' % p for p in props))

    def one(k):
        tok, tr = record(c, exe, parts[k], "sol%d" % k)
        n = sum(1 for _ in open(tr))
        c.validate("TrSol", "INIT TInit\nNEXT TNext\n" + t + "VIEW View\nPOSTCONDITION Accepted\n",
                   dict(wrap("TrSol", "ProxSolverTrace", ""), **{"trace.ndjson": tr}), n, len(parts[k]), what=what, timeout=850)
        return n
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(one, range(len(parts))))


def design(c):
    """every behaviour of one solve for abstract residuals satisfies the invariants"""
    body = "McRes == {-3072, 0, 3072}\n" if c.quick else "McRes == {-3072, -1024, 0, 3072}\n"
    cfg = "INIT DInit\nNEXT DNext\n" + consts(Props='{"C01", "C02", "C19"}', Maxits="{0, 1, 2}" if c.quick else "{0, 1, 2, 3, 4}", Maxals="{0, 1, 3}" if c.quick else "{0, 1, 2, 3, 4}",
                                             Mul="{0, 2}", NCb=2) + " Res <- McRes\nINVARIANTS BudgetInv VerdictInv ScheduleInv CountInv RowsInv Progress\nVIEW View\n"
    c.design("MCSol", cfg, files=wrap("MCSol", "ProxSolverDesign", body))


def run(c, props, num=240, tnum=4000, **kw):
    if props[0] in ("C01", "C02", "C19"):
        design(c)
    scen = scenarios(c, num if c.quick else tnum, **kw)
    if "C04" in props:
        scen += scenarios(c, num // 2 if c.quick else tnum // 2, pids=NONCONVEX[2:], fault=2, salt=5)
    scen += scenarios(c, 24 if c.quick else 200, length=18, pids=LARGE, salt=7)
    solver(c, props, scen, chunks=8 if c.quick else 64)


def both(c, props):
    """complete solves, and the exact values of single iterations"""
    from groups import newton
    run(c, props)
    newton.exact(c, props, 150, 3000)


CHECKS = {p: ((lambda c, p=p: both(c, [p])) if p in ("C01", "C02") else (lambda c, p=p: run(c, [p])), "model_checking") for p in ("C01", "C02", "C19", "C20", "C22")}
