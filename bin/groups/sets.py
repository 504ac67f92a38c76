"""C05 constraint sets, C06 products of constraint sets (ConstraintSets.tla)."""

def consts(rand, slots, vals, mus, boxes, jcols, nest, sizes, genlen=None):
    def s(x): return "{" + ", ".join(x) + "}"
    t = "CONSTANTS\n Slots = %s\n Rand = %s\n MaxNest = %d\n" % (s('"%s"' % q for q in slots), "TRUE" if rand else "FALSE", nest)
    t += " JCols = %s\n Sizes = %s\n" % (s(map(str, jcols)), s(map(str, sizes)))
    t += " Vals <- ValsDef\n Mus <- MusDef\n Boxes <- BoxesDef\n"
    if genlen is not None:
        t += " GenLen = %d\n" % genlen
    defs = "ValsDef == {%s}\nMusDef == {%s}\nBoxesDef == {%s}\n" % (
        ", ".join(map(str, vals)), ", ".join(map(str, mus)), ", ".join(boxes))
    return t, defs


def wrap(name, base, defs):
    return {name + ".tla": "---- MODULE %s ----\nEXTENDS %s\n%s====\n" % (name, base, defs)}


BOX = ["<<<<-3, 2>>>>", "<<<<-INF, 1>>, <<0, INF>>>>", "<<<<0, 0>>, <<-2, 5>>, <<1, 1>>>>"]
BOXR = BOX + ["<<<<-INF, INF>>>>", "<<<<-1, 4>>, <<-4, -1>>>>", "<<>>"]


def run(c, product):
    # 1. design: exhaustive over small constants, all laws
    t, d = consts(False, ["a"], [-6, -1, 0, 1, 2, 5], [0, 1, 4], BOX[:2], [1], 0, [1, 2])
    c.design("MCSets", "INIT Init\nNEXT Next\n" + t +
             "INVARIANTS ProxIsMinimiser Decomposition Idempotent JacobiansPartition MuPropagated\n",
             files=wrap("MCSets", "ConstraintSets", d))
    t, d = consts(False, ["a", "p"], [-5, 0, 3], [1, 4], BOX[:1], [1], 1, [0, 1])
    c.design("MCSets", "INIT Init\nNEXT Next\n" + t +
             "CONSTRAINT Small\nINVARIANTS ProxIsMinimiser Decomposition Idempotent JacobiansPartition MuPropagated\n",
             files=wrap("MCSets", "ConstraintSets", d + "Small == TLCGet(\"level\") < %d\n" % (5 if c.quick else 6)))
    # 2. behaviours of the specification
    vals = list(range(-12, 13)) + [40, -40]
    t, d = consts(True, ["a", "b", "c", "d"], vals, [0, 1, 2, 4, 8], BOXR, [0, 1, 3], 3 if product else 0, [0, 1, 2, 3], 60)
    gens = c.generate("GenSets", "INIT GInit\nNEXT GNext\n" + t, num=400 if c.quick else 6000, depth=62,
                      files=wrap("GenSets", "ConstraintSetsGen", d), seed=c.seed * 7 + (3 if product else 0), timeout=800)
    scen = [[["reset"]] + g for g in gens]
    if not product:   # plus every leaf set on every small value, exhaustively
        ex = []
        for k, lo, hi in [("eq", [], []), ("neg", [], []), ("l1", [], []), ("box", [-4], [6]), ("box", [-100000000], [3]), ("box", [2], [2])]:
            for mu in (0, 1, 2, 4, 8):
                sc = [["reset"], ["new", "a", k, lo, hi], ["mu", "a", mu]]
                for v in range(-14, 15):
                    sc.append(["q", "a", [v], [[5, 7]]])
                ex.append(sc)
        scen = ex + scen
    else:   # every ordered pair of leaf sets as a product, parameter changed through the product
        leaves = [("eq", [], [], 1), ("neg", [], [], 2), ("l1", [], [], 2), ("box", [-4, 0], [6, 0], 2)]
        for a in leaves:
            for b in leaves:
                sc = [["reset"], ["new", "a"] + list(a[:3]), ["new", "b"] + list(b[:3]), ["prod", "c", ["a", "b"], [a[3], b[3]]],
                      ["prod", "d", ["c", "a"], [a[3] + b[3], a[3]]]]
                for m in (4, 1, 8):
                    sc += [["mu", "c", m], ["mu", "d", 8 // m]]
                    for z in ([-9, 3, 0, 5, 7, -2], [1, -1, 2, -6, 0, 11], [4, 4, -4, 8, -8, 1]):
                        n = a[3] + b[3]
                        sc.append(["q", "c", z[:n], [[i + 1, i + 2] for i in range(n)]])
                        n += a[3]
                        sc.append(["q", "d", z[:n], [[i + 1, i + 2] for i in range(n)]])
                scen.append(sc)
        # components which were given parameters of their own before, or not, at every position and nesting level
        import itertools
        for pre in itertools.product((None, 1, 4), repeat=3):
            for m in (1, 4, 0):
                sc = [["reset"]] + [["new", x, "l1", [], []] for x in "abc"]
                sc += [["mu", x, v] for x, v in zip("abc", pre) if v is not None]
                z, q = [3, -7, 11, 2], [[1, 2], [3, 4], [5, 6], [7, 8]]
                sc += [["prod", "d", ["a", "b", "c"], [1, 1, 2]], ["mu", "d", m], ["q", "d", z, q], ["mu", "d", 2], ["q", "d", z, q]]
                sc += [["prod", "d", ["a", "b"], [1, 1]]] + ([["mu", "d", pre[2]]] if pre[2] is not None else [])
                sc += [["prod", "d", ["c", "d"], [2, 2]], ["mu", "d", m], ["q", "d", z, q], ["prod", "a", ["d", "c"], [4, 0]], ["mu", "a", m], ["q", "a", z, q]]
                scen.append(sc)
    # long vectors, and products of many components
    import random
    R = random.Random(11)
    big = []
    for n in (17, 40):
        for k, lo, hi in (("eq", [], []), ("neg", [], []), ("l1", [], []), ("box", [R.choice((-100000000, -5, 0, 2)) for _ in range(n)], [R.choice((2, 3, 9, 100000000)) for _ in range(n)])):
            for cols in (1, 6):
                sc = [["reset"], ["new", "a", k, lo, hi]]
                for m in (4, 1, 8):
                    sc += [["mu", "a", m]] + [["q", "a", [R.randint(-14, 14) for _ in range(n)], [[R.randint(1, 9) for _ in range(cols)] for _ in range(n)]] for _ in range(2)]
                big.append(sc)
    if product:
        for nc in (7, 12, 20):
            sc, names, sz = [["reset"], ["new", "a", "box", [-3, 0], [2, 7]], ["new", "b", "l1", [], []], ["new", "c", "neg", [], []], ["new", "d", "eq", [], []]], [], []
            for i in range(nc):
                x = R.choice("abcd")
                names.append(x)
                sz.append(2 if x == "a" else R.randint(0, 6))
            n = sum(sz)
            sc += [["prod", "d", names, sz], ["prod", "c", ["d", "b", "d", "a"], [n, 3, n, 2]], ["prod", "b", ["c", "c", "a"], [2 * n + 5, 2 * n + 5, 2]]]
            for m in (4, 1, 8):
                for x, w in (("d", n), ("c", 2 * n + 5), ("b", 4 * n + 12)):
                    sc += [["mu", x, m], ["q", x, [R.randint(-14, 14) for _ in range(w)], [[R.randint(1, 9) for _ in range(2)] for _ in range(w)]]]
            big.append(sc)
    scen += big
    # the operations are homogeneous: histories are replayed in units from 2^-300 to 2^300
    units = [2, 2, 2, 60, -50, 300, -300, 2, 20, -2]
    scen = [[["reset", units[(i + i // len(units)) % len(units)]]] + s[1:] for i, s in enumerate(scen)]
    if not product:
        scen += [[["reset", u]] + s[1:] for s in scen if len(s) == 32 and s[1][1] == "a" for u in (60, -50, 300, -300)]
    c.count(scen)
    for s in scen[-2:]:
        c.sample(s[:12])
    # 3. replay on the code, 4. validate the recorded behaviour
    exe = c.build("sets", san="address,undefined")
    ops, res, n = c.replay(exe, scen)
    t, d = consts(True, ["a", "b", "c", "d"], vals, [0, 1, 2, 4, 8], BOXR, [0, 1, 3], 3, [0, 1, 2, 3])
    c.validate("TrSets", "INIT TInit\nNEXT TNext\n" + t + "POSTCONDITION Accepted\n",
               dict(wrap("TrSets", "ConstraintSetsTrace", d), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen),
               what="constraint sets", timeout=800)


CHECKS = {"C05": (lambda c: run(c, False), "model_checking"),
          "C06": (lambda c: run(c, True), "model_checking")}
