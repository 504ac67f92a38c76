------------------------- MODULE ArmijoSearchDesign -------------------------
(* The search in an environment which may answer anything *)
EXTENDS ArmijoSearch
CONSTANTS Grid, Ds, Maxes, Amins, Ss
None == [cls |-> "skip", near |-> FALSE, left |-> 0]
Opts == [ip : {BIS, CUB}, S : Ss, a : {1, 8}, thr : {1}, max : Maxes, amin : Amins, cmin : {4}, cmax : {8, 12}]
Kinds == {"val", "nan", "pinf", "ninf", "rerr", "lerr"}
PrevA == IF st.n = 0 THEN 0 ELSE st.calls[st.n].A
One == 4194304
Ev(A, kind, d) == LET o == st.o IN
  [A |-> A, aex |-> TRUE, one |-> A = One, half |-> A = Max2(PrevA \div 2, o.amin), le |-> A <= o.amin, lt |-> A < o.amin,
   in |-> 16 * A > o.cmin * PrevA /\ 16 * A < o.cmax * PrevA, loE |-> 16 * A = o.cmin * PrevA, hiE |-> 16 * A = o.cmax * PrevA, fl |-> A = o.amin,
   kind |-> kind, D |-> d, dex |-> TRUE, lat |-> st.lat, prv |-> st.prv, quad |-> None, cub |-> None]
\* (Chk prints: candidate trials are filtered first)
CanTry(c) == IF st.ph = "first" THEN First(st, c) ELSE ~c.lt /\ c.A < PrevA /\ IF st.o.ip = BIS THEN c.half ELSE (c.in \/ c.loE \/ c.hiE \/ c.fl)
DNext == \/ \E o \in Opts : Begin(o)
         \/ /\ st.ph \in {"first", "search"}
            /\ \E A \in Grid, k \in Kinds, d \in Ds : LET c == Ev(A, k, IF k = "val" THEN d ELSE 0) IN CanTry(c) /\ (k # "val" => d = CHOOSE z \in Ds : TRUE) /\ Call(c)
         \/ st.ph = "ret" /\ End([thrown |-> "none", idx |-> st.lat, same |-> TRUE])
         \/ st.ph = "rthrow" /\ End([thrown |-> "runtime_error"])
         \/ st.ph = "lthrow" /\ End([thrown |-> "logic_error"])
\* a search never gets stuck and always ends
NoStuck == st.ph \in {"first", "search"} => ENABLED DNext
Fairness == WF_st(DNext)
=============================================================================
