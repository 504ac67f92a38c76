-------------------------- MODULE BfgsUpdateDesign --------------------------
(* every short history over a small grid: symmetry, definiteness and, as a     *)
(* step property, the secant equation and the treatment of bad curvature       *)
EXTENDS BfgsUpdate
CONSTANTS Grid, Dims, MaxLen
VARIABLE len
Vecs(n) == [1..n -> Grid]
DInit == Init /\ len = 0
DNext == len < MaxLen /\ len' = len + 1 /\ \E s \in Slots :
   IF slots[s].k = "none" THEN \E n \in Dims, t \in {0, 1}, v \in {0, 1} : Make(<<"mk", s, t, n, v>>)
   ELSE LET sl == slots[s] IN \E x \in Vecs(sl.n), g \in Vecs(sl.n) :
        LET a == Diff(x, sl.xp) b == Diff(g, sl.gp) IN
        (~sl.init \/ Bad(a) \/ Bad(b) \/ Dot(a, b) <= 0 \/ (PosPow(a, b) /\ Fits(sl, a, b))) /\ Update(<<"upd", s, x, g>>)
Secant == [][LET s == last'[1][2] IN (last'[1][1] = "upd" /\ slots[s].init) =>
   LET a == Diff(last'[1][3], slots[s].xp) b == Diff(last'[1][4], slots[s].gp) n == slots'[s] IN
   /\ n.xp = last'[1][3] /\ n.gp = last'[1][4]
   /\ IF Bad(a) \/ Bad(b) THEN n.M = slots[s].M /\ ~n.psd
      ELSE IF Dot(a, b) <= 0 THEN n.M = slots[s].M /\ n.e = slots[s].e /\ ~n.psd
      ELSE n.psd /\ (IF n.t = 0 THEN MatVec(n.M, b) = VScale(Pow2(n.e), a) ELSE MatVec(n.M, a) = VScale(Pow2(n.e), b))]_<<slots, last, len>>
=============================================================================
