---------------------------- MODULE PolyValueTrace ----------------------------
EXTENDS PolyValue, Json
Ops == ndJsonDeserialize("ops.ndjson")
Res == ndJsonDeserialize("res.ndjson")
VARIABLE l
\* after a fault an operation may find no value to work on: both sides skip it
Usable(op) == CASE op[1] = "mk" -> TRUE
   [] op[1] \in {"cc", "cca", "mc", "mca"} -> slot[op[3]].st # "none"
   [] op[1] \in {"ca", "ma"} -> slot[op[2]].st # "none" /\ slot[op[3]].st # "none"
   [] op[1] = "sw" -> slot[op[2]].st # "none" /\ slot[op[3]].st # "none" /\ (Bit(4) \/ slot[op[2]].al = slot[op[3]].al)
   [] op[1] \in {"as", "del"} -> slot[op[2]].st # "none"
   [] OTHER -> slot[op[2]].st = "obj"
TInit == cfg = 0 /\ slot = [s \in Slots |-> None] /\ last = <<>> /\ l = 1 /\ TLCSet(1, 0)
TNext == /\ l <= Len(Ops)
         /\ LET op == Ops[l] IN
            IF op[1] = "reset" THEN PReset(op[2])
            ELSE IF ~Usable(op) THEN Res[l] = <<"skip">> /\ UNCHANGED pvars
            ELSE /\ Res[l] # <<"skip">> /\ PStep(op, Res[l])
                 /\ IF Res[l] = last'[2] THEN TRUE ELSE PrintT(<<"EXPECTED", last'[2]>>) /\ FALSE
         /\ l' = l + 1
         /\ TLCSet(1, l)
Expected(n) == IF n > Len(Ops) THEN "end" ELSE <<Ops[n], Res[n]>>
Accepted == IF TLCGet(1) = Len(Ops) THEN PrintT("TRACE-ACCEPTED")
            ELSE PrintT(<<"TRACE-REJECTED", TLCGet(1) + 1, Expected(TLCGet(1) + 1)>>) /\ FALSE
=============================================================================
