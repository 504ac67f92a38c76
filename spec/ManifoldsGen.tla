------------------------- MODULE ManifoldsGen -------------------------
EXTENDS Manifolds, Json
CONSTANT GenLen
VARIABLE h
GInit == Init /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ UNCHANGED vars
         ELSE (Build \/ Query \/ Query \/ Query) /\ h' = Append(h, last'[1])
=============================================================================
