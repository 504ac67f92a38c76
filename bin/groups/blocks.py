"""C14 symbolic block structures (BlockStructure.tla), C15 block-sparse LDLT and kernels (BlockFactor.tla)."""
import itertools, random
from groups.sets import wrap


def consts(rand, slots, lens, maxb, **kw):
    t = "CONSTANTS\n Slots = {%s}\n Rand = %s\n Lens = {%s}\n MaxBlocks = %d\n" % (
        ", ".join('"%s"' % s for s in slots), "TRUE" if rand else "FALSE", ", ".join(map(str, lens)), maxb)
    for k, v in kw.items():
        t += " %s = %s\n" % (k, v)
    return t


def build(c):
    return c.build("blocks", libs=["block-kind"], san="address,undefined", extra_src=["blocks_gemmt", "blocks_tri"])


def trans(k):
    return {2: 3, 3: 2}.get(k, k)


def sym(lens, dk, off):
    n = len(lens)
    k = [[0] * n for _ in range(n)]
    it = iter(off)
    for i in range(n):
        k[i][i] = dk[i]
        for j in range(i):
            o = next(it)
            if lens[i] != lens[j]:
                o = 4 if o >= 3 else 0
            k[i][j], k[j][i] = o, trans(o)
    return k


def structures(R, quick):
    """all symmetric structures of two blocks, and many of three and four"""
    out = []
    for lens in itertools.product((1, 2, 3), repeat=2):
        for dk in itertools.product(range(5), repeat=2):
            for off in range(5):
                if lens[0] == lens[1] or off in (0, 4):
                    out.append((list(lens), sym(lens, dk, [off])))
    three = [(lens, dk, off) for lens in itertools.product((1, 2), repeat=3) for dk in itertools.product((1, 4), repeat=3)
             for off in itertools.product(range(5), repeat=3) if all(lens[i] == lens[j] or o in (0, 4) for (i, j), o in zip(((1, 0), (2, 0), (2, 1)), off))]
    if quick:
        three = R.sample(three, 500)
    out += [(list(l), sym(l, d, o)) for l, d, o in three]
    for n, num in ((3, 300 if quick else 6000), (4, 120 if quick else 2500)):
        for _ in range(num):
            lens = [R.choice((1, 2, 2, 2, 3)) for _ in range(n)]
            out.append((lens, sym(lens, [R.choice((1, 1, 4, 4, 4, 0, 2, 3)) for _ in range(n)], [R.choice((0, 0, 1, 2, 3, 4)) for _ in range(n * n)])))
    return out


def c14(c):
    R = random.Random(c.seed)
    t = consts(False, ["a"], [1, 2] if c.quick else [1, 2, 3], 2)
    c.design("MCBlk", "INIT BInit\nNEXT MNext\n" + t + "CONSTRAINT Lim\nINVARIANTS AlgebraSound AlgebraLeast CoverInv\n",
             files=wrap("MCBlk", "BlockStructure", "MNext == IF Live = {} THEN NewB ELSE PermB\nLim == TLCGet(\"level\") < 3\n"), timeout=800)
    t = consts(True, ["a"], [1, 2, 3], 4 if not c.quick else 3)
    r = c.tlc("MCBlk", "INIT BInit\nNEXT NewB\n" + t + "INVARIANT CoverInv\n", args=["-simulate", "num=%d" % (40 if c.quick else 1500), "-depth", "20", "-seed", str(c.seed)],
              files=wrap("MCBlk", "BlockStructure", ""), timeout=800)
    if "violated" in r["out"] or "Error" in r["out"]:
        from vlib import CheckError
        raise CheckError("design simulation failed:\n" + r["out"][-3000:])
    c.cov["transitions"] += r["generated"]
    scen = []
    for lens, k in structures(R, c.quick):
        n = len(lens)
        sc = [["reset"], ["bnew", "a", lens, k], ["bsym", "a"], ["bnnz", "a"], ["bbest", "a"], ["bcopy", "b", "a"], ["bllt", "b"], ["bnnz", "b"]]
        p = list(range(n))
        R.shuffle(p)
        sc += [["bperm", "c", "a", p], ["bllt", "c"], ["bnnz", "c"], ["bget", "a"]]
        scen.append(sc)
    scen.append([["reset"], ["alg"]])
    t = consts(True, list("abcd"), [1, 2, 3], 4, GenLen=30)
    gens = c.generate("GenBlk", "INIT GInit\nNEXT GNext\n" + t, num=120 if c.quick else 3000, depth=32, files=wrap("GenBlk", "BlockStructureGen", ""), seed=c.seed * 7, timeout=800)
    # ... and on larger blocks, five at a time
    t = consts(True, list("abcd"), [2, 3, 8, 17], 5, GenLen=20)
    gens += c.generate("GenBlkL", "INIT GInit\nNEXT GNext\n" + t, num=10 if c.quick else 100, depth=22, files=wrap("GenBlkL", "BlockStructureGen", ""), seed=c.seed * 5, timeout=300)
    scen += [[["reset"]] + g for g in gens]
    for p, d in itertools.product(([3], [2, 5]), ([], [4], [1, 6], [3, 3, 2], [1, 5, 2, 4])):
        scen.append([["reset"], ["bkkt", "a", p, d], ["bget", "a"], ["bsym", "a"], ["bnnz", "a"], ["bbest", "a"], ["bllt", "a"]])
    c.count(scen)
    c.sample(scen[700])
    c.sample(scen[-1][:12])
    ops, res, n = c.replay(build(c), scen)
    c.validate("TrBlk", "INIT TInit\nNEXT TNext\n" + consts(True, list("abcd"), [1, 2, 3], 4) + "POSTCONDITION Accepted\n",
               dict(wrap("TrBlk", "BlockStructureTrace", ""), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="block structures", timeout=850)


def c15(c):
    base = consts(True, ["a", "b"], [1, 2], 3)
    from vlib import CheckError
    r = c.tlc("MCBf", "INIT FInit\nNEXT MNext\n" + base + "INVARIANTS Fits Covered PermOk\n", args=["-simulate", "num=%d" % (60 if c.quick else 2500), "-depth", "15", "-seed", str(c.seed)],
              files=wrap("MCBf", "BlockFactor", "MNext == FNext\n"), timeout=800)
    if "violated" in r["out"] or "Error" in r["out"]:
        raise CheckError("design simulation failed:\n" + r["out"][-3000:])
    c.cov["transitions"] += r["generated"]
    t = consts(True, list("abc"), [1, 2, 3], 4, GenLen=40)
    gens = c.generate("GenBf", "INIT GInit\nNEXT GNext\n" + t, num=800 if c.quick else 12000, depth=42, files=wrap("GenBf", "BlockFactorGen", ""), seed=c.seed * 11, timeout=800)
    t = consts(True, list("abc"), [1, 2, 5, 9, 14], 5, GenLen=40)
    gens += c.generate("GenBfL", "INIT GInit\nNEXT GNext\n" + t, num=60 if c.quick else 600, depth=42, files=wrap("GenBfL", "BlockFactorGen", ""), seed=c.seed * 3, timeout=500)
    scen = [[["reset"]] + g for g in gens]
    # a block above the threshold of the recursive dense algorithm, alone and next to others
    R = random.Random(c.seed)
    for lens, k in (([140], [[4]]), ([133, 2], [[4, 4], [4, 1]]), ([2, 130], [[1, 4], [4, 4]])):
        n = sum(lens)
        A = [[0] * n for _ in range(n)]
        off = [sum(lens[:i]) for i in range(len(lens))]
        blk = [i for i, l in enumerate(lens) for _ in range(l)]
        for i in range(n):
            for j in range(i):
                if (blk[i] != blk[j] or k[blk[i]][blk[i]] == 4) and R.random() < 0.3:
                    A[i][j] = A[j][i] = R.choice((-2, -1, 1, 2))
        for i in range(n):
            A[i][i] = R.choice((-1, 1)) * (sum(map(abs, A[i])) + R.randint(1, 4))
        sc = [["reset"], ["fnew", "a", lens, k]]
        for p in itertools.permutations(range(len(lens))):
            X = [[R.randint(-3, 3)] for _ in range(n)]
            B = [[sum(A[i][j] * X[j][0] for j in range(n))] for i in range(n)]
            sc += [["fperm", "a", list(p)], ["fcomp", "a", A, 0, 0], ["fsolve", "a", len(lens) % 3, B], ["frec", "a"], ["fsig", "a"]]
        scen.append(sc)
    c.count(scen)
    c.sample(scen[0][:12])
    c.sample(scen[1][:12])
    ops, res, n = c.replay(build(c), scen)
    c.validate("TrBf", "INIT TInit\nNEXT TNext\n" + consts(True, list("abc"), [1, 2, 3], 4) + "POSTCONDITION Accepted\n",
               dict(wrap("TrBf", "BlockFactorTrace", ""), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="block factorisations", timeout=850)


CHECKS = {"C14": (c14, "model_checking"), "C15": (c15, "model_checking")}
