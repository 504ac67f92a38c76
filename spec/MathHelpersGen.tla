--------------------------- MODULE MathHelpersGen ---------------------------
EXTENDS MathHelpers, Json
CONSTANT GenLen
VARIABLE h
R(seq) == seq[RandomElement(1..Len(seq))]
Ent(inf, nan) == LET k == RandomElement(1..30) IN IF inf /\ k = 1 THEN R(<<INF, -INF>>) ELSE IF nan /\ k = 2 THEN NANV ELSE IF k < 6 THEN R(<<0, 1, -1>>) ELSE RandomElement(-400..400)
RM(r, c, inf, nan) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> Ent(inf, nan)])])
\* shapes: 0 vector, 1 row vector, 2 matrix, 3 row-major matrix, 4 block of a larger matrix, 5 float matrix, 6 fixed size 3, 7 strided map, 8 expression
Dims(sh) == CASE sh \in {0, 7} -> <<RandomElement(0..6), 1>> [] sh = 1 -> <<1, RandomElement(0..6)>> [] sh = 6 -> <<3, 1>> [] OTHER -> <<RandomElement(0..4), RandomElement(1..4)>>
RFull(d, f, s) == \* one special entry in an otherwise harmless matrix, at any position
  LET M == RM(d[1], d[2], FALSE, FALSE) IN IF d[1] = 0 \/ d[2] = 0 \/ f = 0 THEN M ELSE LET i == RandomElement(1..d[1]) j == RandomElement(1..d[2]) IN TLCEval([M EXCEPT ![i][j] = s])
\* several special entries: finite but so large that sums overflow, and infinities which cancel
RMany(d) == TLCEval([i \in 1..d[1] |-> TLCEval([j \in 1..d[2] |-> R(<<HUGE, HUGE, -HUGE, 0, 3>>)])])
RMix(d) == TLCEval([i \in 1..d[1] |-> TLCEval([j \in 1..d[2] |-> R(<<HUGE, -HUGE, INF, -INF, 0, 3>>)])])
One(w) ==
  CASE w <= 4 -> \E sh \in {RandomElement(0..8)} : \E d \in {Dims(sh)} : \E M \in {RFull(d, R(<<0, 1>>), R(<<INF, -INF, 5000, -5000>>))} : Step(<<"inf", sh, M>>)
    [] w = 5 -> \E n \in {RandomElement(0..5)} : \E L \in {TLCEval([i \in 1..n |-> (RM(1, RandomElement(0..4), TRUE, FALSE))[1]])} : Step(<<"infl", L>>)
    [] w = 6 -> \E t \in {RandomElement(0..2)} : \E v \in {IF t = 2 THEN 8 * RandomElement(-3..3) ELSE Ent(TRUE, TRUE)} : Step(<<"sign", t, v>>)
    [] w = 7 -> \E sh \in {RandomElement(0..8)} : \E d \in {Dims(sh)} : \E M \in {IF RandomElement(0..2) = 0 THEN RMix(d) ELSE RMany(d)} : Step(<<"chk", sh, M>>)
    [] w <= 9 -> \E sh \in {RandomElement(0..8)} : \E d \in {Dims(sh)} : \E M \in {RFull(d, R(<<0, 1, 1>>), R(<<INF, -INF, NANV>>))} : Step(<<"chk", sh, M>>)
    [] w = 10 -> \E t \in {RandomElement(0..1)} : \E v \in {R(<<INF, -INF, NANV, HUGE, -HUGE, 0, 5, -7>>)} : Step(<<"chks", t, v>>)
    [] OTHER -> \E a \in {RandomElement(-80..80)}, dd \in {RandomElement(-12..12)}, p \in {RandomElement(0..7)}, k \in {RandomElement(0..8)} : Step(<<"close", a, a + dd, p, k>>)
GInit == Init /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ last' = <<>>
         ELSE \E w \in {RandomElement(1..12)} : One(w) /\ h' = Append(h, last'[1])
=============================================================================
