------------------------- MODULE BlockFactorGen -------------------------
EXTENDS BlockFactor, Json
CONSTANT GenLen
VARIABLE h
GInit == FInit /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ UNCHANGED fvars
         ELSE FNext /\ h' = Append(h, last'[1])
=============================================================================
