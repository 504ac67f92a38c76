"""C03 line search (ArmijoSearch.tla), scripted merit functions and complete solves."""
import os
from vlib import flat, Rejected
from groups.sets import wrap


def record(c, exe, scen, name):
    tok, tr = os.path.join(c.work, name + "_ops.txt"), os.path.join(c.work, name + "_trace.ndjson")
    with open(tok, "w") as f:
        for st in scen:
            f.write(" ".join(flat(st)) + "\n")
    try:
        c.run_driver(exe, [tok, tr], timeout=300)
    except Rejected as e:
        e.files += [tok, tr]
        raise
    return tok, tr


def c03(c):
    q = c.quick
    grid = [4194304 * k // d for d in (1, 2, 4, 8, 16, 32) for k in (1, 3) if k <= d]
    t = "CONSTANTS\n Grid = {%s}\n Ds <- DsDef\n Maxes = {0, 1, %d}\n Amins = {131072, 1048576, 4194304}\n Ss <- SsDef\n" % (", ".join(map(str, sorted(set(grid)))), 3 if q else 5)
    c.design("MCArm", "INIT Init\nNEXT DNext\n" + t + "INVARIANTS BudgetInv ReturnInv ArmijoInv MonoInv ThrowInv NoStuck\nVIEW V\n",
             files=wrap("MCArm", "ArmijoSearchDesign", "DsDef == {-65536, -2048, 0, 4096}\nSsDef == {-16, -2, 0, 5}\nV == IF st.ph = \"idle\" THEN <<>> ELSE <<st.ph, st.o, st.i, st.lat, st.prv, IF st.n = 0 THEN 0 ELSE <<st.calls[st.n], IF st.lat = 0 THEN 0 ELSE st.calls[st.lat]>>>>\n"), timeout=800)
    gens = c.generate("GenArm", "INIT GInit\nNEXT GNext\nCONSTANT GenLen = 60\n", num=240 if q else 2000, depth=62, files=wrap("GenArm", "ArmijoSearchGen", ""), seed=c.seed * 31)
    c.count(gens)
    c.sample(gens[0][:5])
    exe = c.build("search", san="address,undefined")
    parts = [gens[i:i + 80] for i in range(0, len(gens), 80)]
    for k, p in enumerate(parts):
        tok, tr = record(c, exe, [st for g in p for st in g], "ls%d" % k)
        n = sum(1 for _ in open(tr))
        c.validate("TrArm", "INIT TInit\nNEXT TNext\nVIEW View\nPOSTCONDITION Accepted\n", dict(wrap("TrArm", "ArmijoSearchTrace", ""), **{"trace.ndjson": tr}), n, len(p), what="line search", timeout=600)
    from groups import solver
    solver.run(c, ["C03"], num=160)


CHECKS = {"C03": (c03, "model_checking")}
