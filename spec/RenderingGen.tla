---------------------------- MODULE RenderingGen ----------------------------
EXTENDS Rendering, Json
CONSTANT GenLen
VARIABLE h
R(seq) == seq[RandomElement(1..Len(seq))]
Real(x) == IF RandomElement(1..8) = 1 THEN <<0, 0>> ELSE <<R(<<1, -1>>) * RandomElement(1000..9999), RandomElement(-20..12)>>
Pos(x) == LET v == Real(x) IN <<Abs(v[1]), v[2]>>
RStruct(n) == [lens |-> TLCEval([i \in 1..n |-> RandomElement(1..4)]), k |-> TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> RandomElement(0..4)])])]
One(w) ==
  CASE w <= 5 -> \E n \in {RandomElement(1..4)} : \E s \in {RStruct(n)}, a \in {R(<<0, 0, RandomElement(0..(n - 1))>>)} :
                  \E k \in {R(<<n - a, n - a, RandomElement(1..(n - a))>>)} : Step(<<"pat", s.lens, s.k, a, k>>)
    [] w <= 7 -> \E n \in {RandomElement(0..5)} : \E q \in {TLCEval([i \in 1..n |-> RandomElement(-40..40)])} : Step(<<"csum", q>>)
    [] w <= 10 -> \E n \in {RandomElement(0..4)} : \E d \in {TLCEval([i \in 1..n |-> RandomElement(0..4)])} :
                  Step(<<"res", RandomElement(0..1), d, TLCEval(<<R(<<<<-1, 0>>, <<0, 0>>, <<1, 0>>>>), Real(1), Real(2), <<RandomElement(0..1000), 0>>, Pos(3), Pos(4), Pos(5), Pos(6)>>),
                         TLCEval([i \in 1..n |-> RandomElement(-30..30)]), TLCEval([i \in 1..n |-> TLCEval([j \in 1..d[i] |-> RandomElement(0..1)])])>>)
    [] w = 11 -> Step(<<"hess", RandomElement(0..3)>>)
    [] OTHER -> Step(<<"lso", Pos(1), Pos(2), Pos(3)>>)
GInit == Init /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ last' = <<>>
         ELSE \E w \in {RandomElement(1..12)} : One(w) /\ h' = Append(h, last'[1])
=============================================================================
