------------------------- MODULE ProxSolverGen -------------------------
(* random API histories: problems, solvers, callbacks, solves with and without faults *)
EXTENDS ProxSolver, Json
CONSTANTS GenLen, Pids, FaultPc
VARIABLES h, g
Pick(S) == {RandomElement(S)}
R(seq) == seq[RandomElement(1..Len(seq))]
NonFlat == {8}
Solvers == {"A", "B"}
Probs == {"P", "Q"}
MkCfg(mulow, mu0) == <<IF mu0 < mulow THEN mulow ELSE mu0, R(<<99, 99, -10, -3, 0>>), R(<<-10, -20, -20, -28>>), mulow,
    R(<<1, 1, 5, 9>>), R(<<9, 5, 1>>), R(<<10, 5>>), R(<<10, 5>>), R(<<0, 1, 1, 2>>), R(<<1, 1, 1, 0, 2, 3>>),
    R(<<-1, -3, -7>>), R(<<0, 0, -1, 1>>), R(<<0, 0, -2, 2>>), R(<<0, 0, -3, 2>>), R(<<-30, -30, -12>>), R(<<0, 0, 1>>),
    R(<<0, 0, 1, 2>>), R(<<0, 1>>), R(<<0, 0, 1, 1, 2, 3>>), R(<<99, 99, 99, -20, -4>>), R(<<-13, -7, 0>>), R(<<-40, -10, -10, -2, 2>>), R(<<20, 20, 20, 3, -3>>),
    R(<<3, 1>>), R(<<6, 3>>), R(<<-1, -2>>), R(<<0, 1, 2, 5, 9, 30, 60, 60>>), R(<<0, 1, 2, 5, 100, 100, 100>>), R(<<0, 1, 2>>)>>
RCfg(x) == {MkCfg(a, b) : a \in {R(<<-20, -30, -30, -8>>)}, b \in {R(<<0, -1, -3, -6, -7, -10, -99>>)}}
GInit == Init /\ h = <<>> /\ g = [pid |-> <<>>, sol |-> <<>>, cb |-> <<>>]
Do(op, g2) == h' = Append(h, op) /\ g' = g2
SetP(P, i) == Do(<<"prob", P, i>>, [g EXCEPT !.pid = Put(@, P, i), !.sol = [s \in {t \in DOMAIN @ : @[t].p # P} |-> @[s]]])
\* the LP without proximal term has a zero leading pivot: outside the domain of the unpivoted backends
Dom(P, c) == IF g.pid[P] = 10 THEN [c EXCEPT ![10] = 1] ELSE c
MkS(s, P, c) == \E c2 \in {Dom(P, c)} : Do(<<"mk", s, P, c2>>, [g EXCEPT !.sol = Put(@, s, [p |-> P, c |-> c2])])
MkCb(i, k) == Do(<<"newcb", i, k>>, [g EXCEPT !.cb = Put(@, i, k)])
Bad(s) == g.sol[s].c[19] = 2 /\ g.pid[g.sol[s].p] \in NonFlat
SolveS(s) == \E x \in Pick(1..3), m \in Pick({0, 1, 1, 2, 2, 3}), ll \in Pick(1..3), f \in Pick(1..100), k \in Pick(1..8), a \in Pick({1, 2, 2, 3, 5, 9}) :
  \E m2 \in {IF Bad(s) THEN 3 ELSE IF m = 3 THEN R(<<1, 2, 3, 4>>) ELSE m} :
  Do(<<"solve", s, x, m2, ll, IF f <= FaultPc THEN k ELSE 0, a>>, g)
Hists == {i \in DOMAIN g.cb : g.cb[i] > 0}
Step == LET n == Len(h) + 1 IN
  CASE n = 1 -> \E i \in Pick(Pids) : SetP("P", i)
    [] n = 2 -> MkCb(1, 0)
    [] n = 3 -> \E k \in Pick(1..8) : MkCb(2, k)
    [] n = 4 -> \E c \in RCfg(h) : MkS("A", "P", c)
    [] n = 5 -> IF RandomElement(1..12) = 1 THEN SolveS("A") ELSE Do(<<"setup", "A">>, g)
    [] n = 6 -> Do(<<"reg", "A", 1>>, g)
    [] n = 7 -> IF RandomElement(1..3) > 1 THEN Do(<<"reg", "A", 2>>, g) ELSE SolveS("A")
    [] OTHER -> \E r \in {RandomElement(1..40)}, s \in {RandomElement(DOMAIN g.sol)} :
       CASE r = 1 -> \E P \in {"Q"}, i \in Pick(Pids) : SetP(P, i)
         [] r = 2 -> \E k \in Pick(0..8) : MkCb(1 + Cardinality(DOMAIN g.cb), k)
         [] r \in {3, 4} -> \E i \in Pick(DOMAIN g.cb) : Do(<<"reg", s, i>>, g)
         [] r = 5 -> Do(<<"clr", s>>, g)
         [] r \in {6, 7} -> \E t \in Pick(Solvers), P \in {RandomElement(DOMAIN g.pid)}, k \in Pick(1..4) :
              (\E c \in (IF k > 1 /\ "A" \in DOMAIN g.sol THEN {IF k = 2 THEN [g.sol["A"].c EXCEPT ![9] = 1 - Min2(1, @)] ELSE g.sol["A"].c} ELSE RCfg(h)) : MkS(t, P, c))
         [] r \in {14, 15, 16, 17} -> \E k \in {R(<<9, 9, 9, 11, 17, 18, 27, 28, 29>>)} :
              \E v \in {CASE k = 9 -> IF g.sol[s].c[9] = 0 THEN R(<<1, 2, 1, 3>>) ELSE 0 [] k = 11 -> R(<<-1, -3, -7>>) [] k = 17 -> R(<<0, 1, 2>>) [] k = 18 -> R(<<0, 1>>)
                           [] k = 27 -> R(<<0, 1, 3, 10, 60>>) [] k = 28 -> R(<<0, 1, 3, 100>>) [] OTHER -> R(<<0, 1, 2>>)} :
              Do(<<"set", s, k, v>>, [g EXCEPT !.sol[s].c[k] = v])
         [] r \in {8, 9, 10} -> Do(<<"setup", s>>, g)
         [] r \in {11, 12, 13} -> IF Hists # {} THEN \E i \in {RandomElement(Hists)} : Do(<<"hist", i>>, g) ELSE SolveS(s)
         [] OTHER -> SolveS(s)
\* a solver is never left without having been set up for long; solves on one whose setup was refused are not attempted
Fix == LET op == h[Len(h)] IN op
GNext == /\ UNCHANGED vars
         /\ IF Len(h) = GenLen THEN PrintT(<<"GEN", ToJson(<<<<"reset">>>> \o h)>>) /\ h' = <<>> /\ g' = [pid |-> <<>>, sol |-> <<>>, cb |-> <<>>]
            ELSE IF g.sol = <<>> /\ Len(h) >= 4 THEN \E c \in RCfg(h) : MkS("A", "P", c)
            ELSE LET lastop == IF h = <<>> THEN <<"none">> ELSE h[Len(h)] IN
                 IF lastop[1] = "mk" /\ Len(h) > 4 THEN Do(<<"setup", lastop[2]>>, g) ELSE Step
=============================================================================
