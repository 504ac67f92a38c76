T = "explicit TLA+ specification (%s) checked with TLC; %s"
REPLAY = "exhaustive TLC exploration of the design within small constants, plus specification-generated behaviours replayed into the compiled code, every recorded result accepted or rejected by TLC (trace validation)"
DES = REPLAY
REC = "complete executions recorded from the compiled code (every user-function call, callback and result), each event accepted or rejected by TLC against the specification's transition relation"
TECH.update({
 "C01": T % ("ProxSolver, NewtonStep", DES + "; " + REC),
 "C02": T % ("ProxSolver, NewtonStep", DES + "; " + REC),
 "C03": T % ("ArmijoSearch, ProxSolver", "exhaustive TLC exploration of the search against an adversarial merit function; " + REC),
 "C04": T % ("NewtonStep, Factorization, ProxSolver", REPLAY + "; " + REC),
 "C05": T % ("ConstraintSets", REPLAY), "C06": T % ("ConstraintSets", REPLAY),
 "C07": T % ("NewtonStep", REPLAY), "C08": T % ("Manifolds", REPLAY), "C09": T % ("Manifolds", REPLAY),
 "C10": T % ("CostAlgebra", DES), "C11": T % ("NlpFunctions", REPLAY), "C12": T % ("NlpFunctions", REPLAY),
 "C13": T % ("ProblemLayout", REPLAY), "C14": T % ("BlockStructure", REPLAY), "C15": T % ("BlockFactor", REPLAY),
 "C16": T % ("Factorization", REPLAY), "C17": T % ("PolyValue", DES), "C18": T % ("BfgsUpdate", DES),
 "C19": T % ("ProxSolver", DES + "; " + REC), "C20": T % ("ProxSolver", REC), "C21": T % ("ApiErrors, ProxSolver", REPLAY + "; " + REC),
 "C22": T % ("ProxSolver", REC), "C23": T % ("MathHelpers", REPLAY), "C24": T % ("Rendering, BlockStructure", REPLAY),
})
NOTE.update({
 "C01": "Residuals are recomputed by the specification from the recorded user-function values (relative tolerance for rounding); verdicts and counters are exact.",
 "C02": "The schedule is recomputed by the specification from the recorded tolerances and penalties with a relative rounding allowance; the branch taken is exact away from ties.",
 "C03": "Scripted merit functions (dyadic values, throws, NaN, infinities); positions of trials compared with a small relative allowance.",
 "C04": "Exact on dyadic unimodular systems; complete solves checked through residual of the Newton system with a relative tolerance.",
 "C05": "Exact: all values are dyadic, results compared bit for bit; leaf sets enumerated exhaustively on a grid of values and parameters.",
 "C06": "Exact: all ordered pairs of leaf sets and random nested products with parameter-change histories.",
 "C07": "Exact on dyadic problems. The gradient claim is for the default dual weight one half.",
 "C08": "Exact on flat spaces, polynomial curved test spaces and their nestings.", "C09": "Exact; includes writes through views.",
 "C10": "Exact; histories over shared leaves and up to several sums.", "C11": "Exact; histories on shared objects.", "C12": "Exact for polynomial functions and dyadic steps.",
 "C13": "Exact; aliasing tested by writing through views.", "C14": "Exact; all symmetric patterns of up to four blocks and their permutations.",
 "C15": "Integer-exact factors; reconstruction and solves checked against exact solutions with a small tolerance. Symmetric inputs only.",
 "C16": "Matrices built from exact integer factors so the true inertia is known; solutions compared with a small relative tolerance.",
 "C17": "Lifetimes are counted by instrumented element types and allocators; a throw is injected at every copy position generated.",
 "C18": "Exact rational updates on small dimensions; larger random histories with relative tolerance.",
 "C19": "Bitwise comparison of snapshots.", "C20": "Bitwise comparison of complete runs.",
 "C21": "Each refusal is required exactly when the specification's precondition fails; faults injected at every kind of evaluation.",
 "C22": "Rows parsed from the captured log and compared with the recorded iteration at the printed precision.", "C23": "Exact.", "C24": "Numbers compared at the four significant digits the formats promise; layout and spacing are free.",
})
