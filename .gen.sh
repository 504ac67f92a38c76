gen () 
{ 
    m=$1;
    init="$2";
    extra="$3";
    wt="$4";
    cat > spec/${m}Gen.tla <<E
------------------------- MODULE ${m}Gen -------------------------
EXTENDS ${m}, Json
CONSTANT GenLen
VARIABLE h
GInit == Init /\ h = <<>>
GNext == IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(h)>>) /\ h' = <<>> /\ UNCHANGED vars
         ELSE ($wt) /\ h' = Append(h, last'[1])
=============================================================================
E

    cat > spec/${m}Trace.tla <<E
------------------------ MODULE ${m}Trace ------------------------
EXTENDS ${m}, Json
Ops == ndJsonDeserialize("ops.ndjson")
Res == ndJsonDeserialize("res.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(1, 0)
TNext == /\ l <= Len(Ops)
         /\ LET op == Ops[l] IN
            IF op[1] = "reset" THEN $init
            ELSE /\ Do(op)
                 /\ IF Res[l] = last'[2] THEN TRUE ELSE PrintT(<<"EXPECTED", last'[2]>>) /\ FALSE
         /\ l' = l + 1
         /\ TLCSet(1, l)
Expected(n) == IF n > Len(Ops) THEN "end" ELSE <<Ops[n], Res[n]>>
Accepted == IF TLCGet(1) = Len(Ops) THEN PrintT("TRACE-ACCEPTED")
            ELSE PrintT(<<"TRACE-REJECTED", TLCGet(1) + 1, Expected(TLCGet(1) + 1)>>) /\ FALSE
=============================================================================
E

}
