------------------------ MODULE BlockFactorTrace ------------------------
EXTENDS BlockFactor, Json
Ops == ndJsonDeserialize("ops.ndjson")
Res == ndJsonDeserialize("res.ndjson")
VARIABLE l
TInit == FInit /\ l = 1 /\ TLCSet(1, 0)
TNext == /\ l <= Len(Ops)
         /\ LET op == Ops[l] IN
            IF op[1] = "reset" THEN FClear
            ELSE /\ FStep(op, Res[l])
                 /\ IF Res[l] = last'[2] THEN TRUE ELSE PrintT(<<"EXPECTED", last'[2]>>) /\ FALSE
         /\ l' = l + 1
         /\ TLCSet(1, l)
Expected(n) == IF n > Len(Ops) THEN "end" ELSE <<Ops[n], Res[n]>>
Accepted == IF TLCGet(1) = Len(Ops) THEN PrintT("TRACE-ACCEPTED")
            ELSE PrintT(<<"TRACE-REJECTED", TLCGet(1) + 1, Expected(TLCGet(1) + 1)>>) /\ FALSE
=============================================================================
