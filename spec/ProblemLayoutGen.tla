------------------------- MODULE ProblemLayoutGen -------------------------
EXTENDS ProblemLayout, Json
CONSTANT GenLen
VARIABLE h
GInit == Init /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ UNCHANGED vars
         ELSE (Build \/ CopyP \/ Quer \/ Quer \/ Quer \/ Quer) /\ h' = Append(h, last'[1])
=============================================================================
