------------------------- MODULE ConstraintSetsGen -------------------------
EXTENDS ConstraintSets, Json
CONSTANT GenLen
VARIABLE h
GInit == Init /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ UNCHANGED vars
         ELSE (Next \/ QueryOp \/ QueryOp) /\ h' = Append(h, last'[1])
=============================================================================
