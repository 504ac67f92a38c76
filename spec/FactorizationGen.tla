------------------------- MODULE FactorizationGen -------------------------
EXTENDS Factorization, Json
CONSTANT GenLen
VARIABLE h
GInit == ZInit /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ UNCHANGED zvars
         ELSE ZNext /\ h' = Append(h, last'[1])
=============================================================================
