------------------------- MODULE BlockStructureGen -------------------------
EXTENDS BlockStructure, Json
CONSTANT GenLen
VARIABLE h
GInit == BInit /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ UNCHANGED bvars
         ELSE (BNext \/ (IF Live = {} THEN AlgB ELSE Query \/ LltB \/ BestB \/ NewB)) /\ h' = Append(h, last'[1])
=============================================================================
