------------------------- MODULE NewtonStepGen -------------------------
(* random behaviours: a problem, then changes of parameters, queries and steps *)
EXTENDS NewtonStep, Json
CONSTANT GenLen
VARIABLE h
GInit == Init /\ h = <<>>
Step == \E r \in {RandomElement(1..20)} :
  CASE r = 1 -> \E m \in Pick(Mus) : Pen(m)
    [] r \in {2, 3} -> \E m \in Pick({2, 4, 8}) : Pen(m)
    [] r \in {4, 5} -> \E m \in Pick(Rhos) : Rho(m)
    [] r = 6 -> \E x \in RVec(Coord, pb.n) : Cen(x)
    [] r \in {7, 8} -> \E v \in RVec(-2..2, NC(pb)) : Lp(v)
    [] r = 9 -> \E k \in Pick({0, 1}), hh \in Pick({0, 1, 3}) : Mode(k, IF ModeOk(hh) THEN hh ELSE 1)
    [] r = 10 -> \E s \in RSig(h) : \E n \in Pick({InertiaOf(s)[1], InertiaOf(s)[1], 1}), m \in Pick({InertiaOf(s)[2], InertiaOf(s)[2], 2}) : CI(n, m, s)
    [] r \in 11..14 -> \E x \in RVec(Coord, pb.n), v \in RVec(-2..2, NC(pb)) : Qry(x, v)
    [] OTHER -> \E x \in RVec(Coord, pb.n), v \in RVec(-2..2, NC(pb)), o \in Opts(h) :
                  IF Usable(pb, pr, x, v, o) THEN Inner(x, v, o) ELSE Qry(x, v)
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ pb' = NoP /\ pr' = <<>> /\ last' = <<>>
         ELSE (IF pb = NoP THEN \E p \in RProb(h) : NewP(p) ELSE Step) /\ h' = Append(h, last'[1])
=============================================================================
