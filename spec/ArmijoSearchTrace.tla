-------------------------- MODULE ArmijoSearchTrace --------------------------
EXTENDS ArmijoSearch, Json
Events == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(1, 0)
TNext == /\ l <= Len(Events)
         /\ LET e == Events[l] IN
            CASE e.ev = "ls" -> Begin(e) [] e.ev = "call" -> Call(e) [] e.ev = "end" -> End(e)
              [] e.ev = "poly" -> st.ph = "idle" /\ Poly(e) /\ UNCHANGED st [] OTHER -> FALSE
         /\ l' = l + 1
         /\ TLCSet(1, Max2(TLCGet(1), l))
View == <<l, IF st.ph = "idle" THEN <<>> ELSE <<st.ph, st.i, st.lat, st.prv>>>>
Accepted == IF TLCGet(1) = Len(Events) THEN PrintT("TRACE-ACCEPTED")
            ELSE PrintT(<<"TRACE-REJECTED", TLCGet(1) + 1, IF TLCGet(1) < Len(Events) THEN Events[TLCGet(1) + 1] ELSE "end">>) /\ FALSE
=============================================================================
