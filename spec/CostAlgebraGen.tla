------------------------- MODULE CostAlgebraGen -------------------------
EXTENDS CostAlgebra, Json
CONSTANT GenLen
VARIABLE h
GInit == Init /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ UNCHANGED vars
         ELSE (Build \/ Quer \/ Quer) /\ h' = Append(h, last'[1])
=============================================================================
