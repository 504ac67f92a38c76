---------------------------- MODULE ApiErrorsGen ----------------------------
EXTENDS ApiErrors, Json
CONSTANT GenLen
VARIABLE h
R(seq) == seq[RandomElement(1..Len(seq))]
Leaf(z) == R(<<<<"vs", RandomElement(0..3)>>, <<"vs", RandomElement(1..4)>>, <<"par">>, <<"hei">>>>)
RECURSIVE Tree(_)
Tree(d) == IF d = 0 THEN Leaf(0) ELSE
  LET k == RandomElement(1..6) IN
  IF k = 1 THEN <<"tb", Leaf(0)>> ELSE IF k = 2 THEN <<"tb", <<"prod", <<Leaf(0), Leaf(0)>>>>>> ELSE IF k = 3 THEN Leaf(0)
  ELSE LET n == RandomElement(0..3) IN <<"prod", TLCEval([i \in 1..n |-> Tree(d - 1)])>>
Near(n) == IF RandomElement(1..2) = 1 THEN n ELSE Max2(0, n + R(<<-2, -1, 1, 2, 5>>))
Prod(z) == LET n == RandomElement(0..3) IN <<"prod", TLCEval([i \in 1..n |-> Tree(1)])>>
Seq1(lo, hi, n) == TLCEval([i \in 1..n |-> RandomElement(lo..hi)])
Bad1(s, b) == IF s = <<>> \/ RandomElement(1..2) = 1 THEN s ELSE LET i == RandomElement(1..Len(s)) IN TLCEval([s EXCEPT ![i] = b])
One(w) ==
  CASE w = 1 -> \E t \in {Tree(2)} : Step(<<"space", t>>)
    [] w = 2 -> \E t \in {Prod(0)} : Step(<<"space", t>>)
    [] w \in {3, 4, 5} -> IF ~IsProd THEN (\E t \in {Prod(0)} : Step(<<"space", t>>)) ELSE \E k \in {RandomElement(0..3)} : \E n \in {Near(IF k < 2 THEN NX(space) ELSE NDX(space))} : Step(<<"split", k, n>>)
    [] w = 6 -> IF ~IsProd THEN (\E t \in {Prod(0)} : Step(<<"space", t>>)) ELSE \E n \in {Near(NX(space))} : Step(<<"norm", n>>)
    [] w = 7 -> IF space = NoSpace THEN (\E t \in {Tree(2)} : Step(<<"space", t>>)) ELSE \E a \in {R(<<0, 1, 2, 3, -1, 100>>)} : Step(<<"jdiff", a>>)
    [] w \in {8, 9, 10} -> IF space = NoSpace THEN (\E t \in {Tree(2)} : Step(<<"space", t>>)) ELSE
         \* which: 0 difference to a point, 1 composed with a linear map, 2 distance cost; how: 0 a point, 1 off the space, 2 + k: size k
         \E wh \in {RandomElement(0..2)}, q \in {RandomElement(1..3)} :
           IF q = 1 /\ HasPar(space) THEN Step(<<"target", wh, 1, 0>>)
           ELSE IF q = 2 /\ (IsProd \/ (space[1] = "vs" /\ wh = 1)) THEN (\E n \in {Near(NX(space))} : Step(<<"target", wh, IF n = NX(space) THEN 0 ELSE 2, n>>))
           ELSE Step(<<"target", wh, 0, 0>>)
    [] w = 11 -> \E a \in {RandomElement(0..4)} : \E b \in {Near(a)} : Step(<<"pset", a, b>>)
    [] w = 12 -> \E way \in {RandomElement(0..1)}, a \in {RandomElement(0..4)}, o \in {RandomElement(0..3)} : \E b \in {Near(a)} : Step(<<"compose", way, a, b, o>>)
    [] w = 13 -> \E n \in {R(<<0, 1, 1, 1, 2, 3, 7>>)} : Step(<<"cast", n>>)
    [] w = 14 -> \E n \in {RandomElement(0..6)} : \E s \in {Seq1(-1, 1, n)} : \E v \in {Bad1(s, R(<<2, -2, 3, 100, -7>>))} : Step(<<"sig", v>>)
    [] w = 15 -> \E c \in {R(<<0, 1, 2, 3, 4, 7>>)}, n \in {RandomElement(1..2)}, m \in {RandomElement(0..2)} : \E p \in {Seq1(1, 3, n)}, d \in {Seq1(1, 3, m)} : Step(<<"ldlt", c, p, d>>)
    [] w = 16 -> \E a \in {RandomElement(0..5)} : \E b \in {Near(a)} : Step(<<"dim", a, b>>)
    [] w = 17 -> \E nm \in {RandomElement(0..1)}, n \in {RandomElement(0..6)} : \E s \in {Seq1(-9, 9, n)} : \E v \in {Bad1(s, R(<<INF, -INF, 1000000002>>))} : Step(<<"nan", nm, v>>)
    [] w = 18 -> \E k \in {R(<<0, 1, 2, 3, 9>>)} : Step(<<"interp", k>>)
    [] w = 19 -> Step(<<"mk", RandomElement(0..2)>>)
    [] w \in {20, 21} -> IF solver = "none" THEN Step(<<"mk", RandomElement(0..2)>>) ELSE \E c \in {R(<<0, 1, 1, 3, 4, 9>>)} : Step(<<"setup", c>>)
    [] OTHER -> IF solver = "none" THEN Step(<<"mk", RandomElement(0..2)>>) ELSE \E c \in {R(<<0, 0, 1, 5>>)} : Step(<<"slv", c>>)
GInit == Init /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ space' = NoSpace /\ solver' = "none" /\ last' = <<>>
         ELSE \E w \in {RandomElement(1..24)} : One(w) /\ h' = Append(h, last'[1])
=============================================================================
