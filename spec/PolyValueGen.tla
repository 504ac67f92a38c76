----------------------------- MODULE PolyValueGen -----------------------------
EXTENDS PolyValue, Json
CONSTANT GenLen
VARIABLE h
RInt(Z) == RandomElement(Z)
F(d) == IF RInt(1..3) = 1 THEN RInt(1..MaxFuse) ELSE 0
\* the generated behaviour follows the run without faults; a fault that strikes makes the recorded run differ, so the
\* operations that follow are guarded by the driver (an operation on a slot without a value is skipped by both sides)
R == IF Full = {} THEN {} ELSE {RInt(Full)}
One(w, k) == \E d \in {RInt(Slots)}, t \in {RInt(Types)}, v \in {RInt(Vals)}, a \in {RInt(Allocs)}, m \in {RInt(0..6)} :
   IF Full = {} \/ w <= 3 THEN PStep(<<"mk", d, m, IF m = 6 THEN 3 ELSE t, v, IF m \in {3, 4} THEN a ELSE 1, k>>, Guess(FALSE))
   ELSE \E s \in R, f \in R : IF slot[s].st = "none" \/ slot[f].st = "none" THEN PStep(<<"mk", d, 0, t, v, 1, k>>, Guess(FALSE)) ELSE
     CASE w = 4 -> PStep(<<"cc", d, s, k>>, Guess(FALSE))
       [] w = 5 -> PStep(<<"cca", d, s, a, k>>, Guess(FALSE))
       [] w = 6 /\ d # s -> PStep(<<"mc", d, s, k>>, Guess(FALSE))
       [] w = 7 /\ d # s -> PStep(<<"mca", d, s, a, k>>, Guess(FALSE))
       [] w \in 8..10 -> PStep(<<"ca", f, s, k>>, Guess(FALSE))
       [] w \in 11..13 -> PStep(<<"ma", f, s, k>>, Guess(FALSE))
       [] w = 14 -> PStep(<<"as", f, t, v, k>>, Guess(FALSE))
       [] w = 15 /\ slot[s].st = "obj" -> PStep(<<"asown", s, k>>, Guess(FALSE))
       [] w = 16 /\ (Bit(4) \/ slot[f].al = slot[s].al) -> PStep(<<"sw", f, s, 0>>, Guess(FALSE))
       [] w = 17 /\ slot[s].st = "obj" -> PStep(<<"set", s, v, 0>>, Guess(FALSE))
       [] w = 18 -> PStep(<<"del", s, 0>>, Guess(FALSE))
       [] OTHER -> PStep(<<"ca", f, s, k>>, Guess(FALSE))
GInit == PInit /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(<<cfg, h>>)>>) /\ h' = <<>> /\ UNCHANGED pvars
         ELSE \E w \in {RInt(1..18)}, k \in {F(0)} : One(w, k) /\ h' = Append(h, last'[1])
=============================================================================
