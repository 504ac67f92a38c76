------------------------ MODULE ProxSolverTrace ------------------------
EXTENDS ProxSolver, Json
Events == ndJsonDeserialize("trace.ndjson")
VARIABLE l
TInit == Init /\ l = 1 /\ TLCSet(1, 0)
TNext == /\ l <= Len(Events)
         /\ LET e == Events[l] IN
            CASE e.ev = "reset" -> Reset [] e.ev = "prob" -> NewProb(e) [] e.ev = "newcb" -> NewCb(e) [] e.ev = "mk" -> Mk(e)
              [] e.ev = "setup" -> Setup(e) [] e.ev = "reg" -> Reg(e) [] e.ev = "clr" -> Clr(e) [] e.ev = "set" -> SetField(e) [] e.ev = "hist" -> Hist(e)
              [] e.ev = "solve" -> Begin(e) [] e.ev = "it" -> It(e) [] e.ev = "cb" -> Cb(e) [] e.ev = "end" -> End(e) [] OTHER -> FALSE
         /\ l' = l + 1
         /\ TLCSet(1, Max2(TLCGet(1), l))
\* everything but the run itself is a function of the events read so far
View == <<l, run>>
Accepted == IF TLCGet(1) = Len(Events) THEN PrintT("TRACE-ACCEPTED")
            ELSE PrintT(<<"TRACE-REJECTED", TLCGet(1) + 1, IF TLCGet(1) < Len(Events) THEN Events[TLCGet(1) + 1] ELSE "end">>) /\ FALSE
=============================================================================
