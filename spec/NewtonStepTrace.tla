------------------------ MODULE NewtonStepTrace ------------------------
EXTENDS NewtonStep, Json
CONSTANT Props       \* the properties whose conjuncts are decided
Ops == ndJsonDeserialize("ops.ndjson")
Res == ndJsonDeserialize("res.ndjson")
VARIABLE l
Fields(op) ==
  (IF "C07" \in Props THEN (CASE op = "q" -> {"f2", "g", "c", "J", "sh", "sp", "pl", "pd", "m2", "mg", "md"} [] op = "i" -> {"val2", "m2", "mg", "md", "stop"} [] OTHER -> {"ok"}) ELSE {}) \cup
  (IF "C04" \in Props THEN (CASE op = "q" -> {"plr", "pdr", "Jp", "K", "H", "w"} [] op = "i" -> {"stop", "rhs", "K", "sig", "act"} [] op = "ci" -> {"thrown", "t", "fl"} [] OTHER -> {"ok"}) ELSE {}) \cup
  (IF "C01" \in Props THEN (CASE op = "q" -> {"viol"} [] op = "i" -> {"stop", "pe", "de", "viol", "cbs", "it", "flag"} [] OTHER -> {"ok"}) ELSE {}) \cup
  (IF "C02" \in Props THEN (CASE op = "q" -> {"mus", "w"} [] OTHER -> {"ok"}) ELSE {})
Same(m, r, F) == \A f \in F \cap DOMAIN m :
  IF f \in DOMAIN r /\ r[f] = m[f] THEN TRUE ELSE PrintT(<<"EXPECTED", f, m[f], "GOT", IF f \in DOMAIN r THEN r[f] ELSE "absent">>) /\ FALSE
\* (K + delta E) p + rhs = 0 : the recorded K p + rhs equals -delta p on the primal rows and 0 on the dual ones
StepOk(m, r) == IF "C04" \notin Props \/ m.stop THEN TRUE ELSE
  (/\ r.dd <= 2                  \* slope of the merit along the step = <gradient, step>
   /\ \A i \in 1..Len(r.p) :
     IF Abs(r.s0[i] + (IF i <= pb.n THEN (m.delta * r.p[i]) \div 4 ELSE 0)) <= 2 + (IF i <= pb.n THEN m.delta \div 4 ELSE 0) THEN TRUE
     ELSE PrintT(<<"STEP", m.delta, r.p, r.s0>>) /\ FALSE)
TInit == Init /\ l = 1 /\ TLCSet(1, 0)
Do(op) == CASE op[1] = "new" -> NewP([n |-> op[2], par |-> op[3], Q |-> op[4], q |-> op[5], k3 |-> op[6], kkt |-> op[8], hess |-> op[9], ldlt |-> op[10],
                 blk |-> [i \in 1..Len(op[7]) |-> LET b == op[7][i] IN [k |-> b[1], lo |-> b[2], hi |-> b[3], gn |-> b[4], prod |-> b[5], A |-> b[6], b |-> b[7], w |-> b[8], j |-> b[9]]]])
            [] op[1] = "pen" -> Pen(op[2]) [] op[1] = "rho" -> Rho(op[2]) [] op[1] = "cen" -> Cen(op[2]) [] op[1] = "lp" -> Lp(op[2])
            [] op[1] = "mode" -> Mode(op[2], op[3]) [] op[1] = "q" -> Qry(op[2], op[3]) [] op[1] = "ci" -> CI(op[2], op[3], op[4])
            [] op[1] = "i" -> Inner(op[2], op[3], [itol |-> op[4], ttol |-> op[5], d0 |-> op[6], dnz |-> op[7], big |-> op[8], dmax |-> op[9]])
TNext == /\ l <= Len(Ops)
         /\ Do(Ops[l])
         /\ Same(last'[2], Res[l], Fields(Ops[l][1]))
         /\ (Ops[l][1] = "i" => ("stop" \in DOMAIN Res[l] /\ StepOk(last'[2], Res[l])))
         /\ l' = l + 1
         /\ TLCSet(1, l)
Expected(n) == IF n > Len(Ops) THEN "end" ELSE <<Ops[n], Res[n]>>
Accepted == IF TLCGet(1) = Len(Ops) THEN PrintT("TRACE-ACCEPTED")
            ELSE PrintT(<<"TRACE-REJECTED", TLCGet(1) + 1, Expected(TLCGet(1) + 1)>>) /\ FALSE
=============================================================================
