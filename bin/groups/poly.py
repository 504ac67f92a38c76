"""C17 polymorphic values (PolyValue.tla)."""
from groups.sets import wrap


def consts(slots, types, allocs, cfgs, vals, fuse, **kw):
    t = "CONSTANTS\n Slots = {%s}\n Types = {%s}\n Allocs = {%s}\n Cfgs = {%s}\n Vals = {%s}\n MaxFuse = %d\n" % (
        ", ".join('"%s"' % s for s in slots), *[", ".join(map(str, x)) for x in (types, allocs, cfgs, vals)], fuse)
    for k, v in kw.items():
        t += " %s = %s\n" % (k, v)
    return t


ALL = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16]


def c17(c):
    t = consts(["a", "b"], [0, 2], [1, 2], ALL, [1], 1) if c.quick else consts(["a", "b"], [0, 2], [1, 2], ALL, [1, 2], 1)
    c.design("MCPol", "INIT PInit\nNEXT PNext\nVIEW V\n" + t + "INVARIANTS TypeOk Consistent\nPROPERTY StrongGuarantee\n",
             files=wrap("MCPol", "PolyValue", "V == <<cfg, slot>>\n"), timeout=800)
    t = consts("abcd", range(5), [1, 2, 3], ALL, range(1, 7), 4, GenLen=40)
    gens = c.generate("GenPol", "INIT GInit\nNEXT GNext\n" + t, num=3000 if c.quick else 40000, depth=42, files=wrap("GenPol", "PolyValueGen", ""), seed=c.seed * 19, timeout=800)
    scen = [[["reset", g[0]]] + g[1] for g in gens] + [[["reset", 0]]]
    c.count(scen)
    c.sample(scen[0][:12])
    c.sample(scen[-1][:12])
    exe = c.build("poly", libs=[], san="address,undefined")
    ops, res, n = c.replay(exe, scen)
    c.validate("TrPol", "INIT TInit\nNEXT TNext\n" + consts("abcd", range(5), [1, 2, 3], ALL, range(1, 7), 4) + "POSTCONDITION Accepted\n",
               dict(wrap("TrPol", "PolyValueTrace", ""), **{"ops.ndjson": ops, "res.ndjson": res}), n, len(scen), what="polymorphic values", timeout=850)


CHECKS = {"C17": (c17, "model_checking")}
