--------------------------- MODULE ArmijoSearchGen ---------------------------
(* random options and scripts of merit values; kinds: 0 value v/16, 1 NaN, 2 +inf, 3 -inf, 4 runtime_error, 5 logic_error, *)
(* 6 the value of the cubic  phi0 + s a + b a^2 + c a^3, 7 a RuntimeError of the library *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT GenLen
VARIABLE h
R(seq) == seq[RandomElement(1..Len(seq))]
Slope(z) == R(<<-1, -1, -2, -3, -5, -16, -16, -64, -200, 0, 3, 40>>)
Tok(m, S) ==
  CASE m = 0 -> <<0, RandomElement(0..60)>>                                       \* never good enough
    [] m = 1 -> <<0, RandomElement(-60..60)>>
    [] m = 2 -> <<R(<<0, 0, 0, 0, 1, 2, 4, 7>>), RandomElement(-20..200)>>
    [] m = 3 -> <<R(<<0, 0, 0, 0, 0, 0, 0, 3, 5>>), RandomElement(-3..30)>>
    [] m = 4 -> <<R(<<4, 4, 7, 0>>), RandomElement(1..30)>>
    [] m = 5 -> <<R(<<6, 6, 6, 6, 4, 1>>), 0>>
    [] OTHER -> <<6, 0>>
Script(m, S) == [i \in 1..RandomElement(1..26) |-> Tok(m, S)]
OpLs(z) == \E m \in {RandomElement(0..8)}, S \in {Slope(0)} :
  \E cm \in {R(<<<<8, 12>>, <<8, 13>>, <<4, 8>>, <<8, 8>>, <<2, 15>>, <<1, 4>>>>)} :
  \E sc \in {Script(m, S)}, ip \in {R(<<0, 1, 1, 2, 2, 2>>)}, a \in {R(<<1, 2, 4, 10, 13, 13>>)}, am \in {R(<<12, 12, 20, 4, 1, 0>>)},
     mx \in {R(<<20, 20, 20, 0, 1, 2, 5>>)}, thr \in {R(<<1, 1, 1, 4>>)}, b \in {RandomElement(1..200)}, c \in {R(<<0, 1, 3, 20, 60, -1, -4>>)}, phi0 \in {RandomElement(-40..40)}, fresh \in {R(<<0, 1>>)} :
     h' = Append(h, <<"ls", ip, a, am, mx, cm[1], cm[2], S, thr, phi0, b, c, fresh, sc>>)
OpPoly(z) == \E n \in {RandomElement(1..5)} : \E p \in {[i \in 1..n |-> RandomElement(-9..9)]}, x \in {RandomElement(-4..4)} : h' = Append(h, <<"poly", p, x>>)
GInit == h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>>
         ELSE \E w \in {RandomElement(1..12)} : CASE w = 1 -> OpPoly(0) [] OTHER -> OpLs(0)
=============================================================================
