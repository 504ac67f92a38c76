------------------------- MODULE ProxSolverDesign -------------------------
(* The run state machine with arbitrary residuals: every behaviour of a solve *)
(* whose residuals are drawn from a small domain is explored, and the         *)
(* guarantees (C01, C02, C19) are invariants of it.                           *)
EXTENDS ProxSolver
CONSTANTS Res, Maxits, Maxals, Mul, NCb
VARIABLES inv, done        \* inv: number of callback invocations; done: the solve ended
dvars == <<vars, inv, done>>
C0 == [f \in {CFields[i] : i \in 1..Len(CFields)} |-> 0]
Cfgs == {[C0 EXCEPT !.mu0 = 0, !.mulow = -2, !.fac = fc, !.ttol = -2, !.itmin = -2, !.pa = 10, !.pb = 10, !.da = 10, !.db = 10, !.muup = 1, !.maxit = a, !.maxal = b, !.mul = u, !.rho0 = -1, !.rfac = -1,
          !.d0 = 99, !.dnz = -1, !.dmax = 2, !.big = 1, !.kinc = 1, !.kdec = -1, !.dmin = -3] : fc \in {-1, -3}, a \in Maxits, b \in Maxals, u \in Mul}
DInit == /\ probs = ("P" :> [pid |-> 0, flat |-> TRUE, nb |-> 1, n |-> 1, m |-> 1])
         /\ \E c \in Cfgs, n \in 0..NCb : sols = ("S" :> [p |-> "P", c |-> c, seq |-> <<>>, setup |-> TRUE, fresh |-> TRUE, cbs |-> [i \in 1..n |-> i], lam |-> "l"])
         /\ cbk = [i \in 1..NCb |-> 1] /\ hist = [i \in 1..NCb |-> <<>>] /\ memo = <<>> /\ run = Idle /\ inv = 0 /\ done = FALSE
\* vector names are of no interest here: one name for all
ItEv(pe, de, ic) == [ev |-> "it", it |-> run.it, al |-> run.al, x |-> "x", xr |-> "x", lam |-> "l", lp |-> "p", tgt |-> run.tgt, mu |-> L(run.mu), rho |-> run.rho,
   smu |-> TRUE, w |-> TRUE, ptol |-> run.ptol, itol |-> run.itol, pe |-> <<pe, pe>>, de |-> <<de, de>>, ic |-> <<ic, ic>>, kp |-> <<TRUE, TRUE, TRUE, TRUE, TRUE>>, conv |-> -1, fault |-> FALSE, wild |-> FALSE]
CbEv(thr) == [ev |-> "cb", id |-> run.q[1], it |-> run.it, al |-> run.al, conv |-> IF run.ph = "fin" THEN run.flag ELSE -1, x |-> "x", lam |-> "l", views |-> TRUE, val |-> 0, pe |-> 0, de |-> 0, aa |-> 0, dm |-> 0,
   n |-> 1, m |-> 1, tlo |-> thr, thi |-> thr, sig |-> IF thr < L(1) THEN <<1, 1, 0>> ELSE <<0, 2, 0>>, del |-> NEGINF, noise |-> NANL, res |-> NEGINF, step |-> NEGINF, merr |-> NEGINF, alpha |-> 0, amin |-> -20000, arm |-> NEGINF, dMn |-> NEGINF, dM |-> NEGINF, dMsgn |-> 0, dmlg |-> 0, sgn |-> -1, msgn |-> 1, mlg |-> 0]
EndEv == [ev |-> "end", thrown |-> "none", ret |-> run.flag, flag |-> run.flag, nit |-> 1, it |-> run.it, al |-> run.al, x |-> "x", lam |-> "l", in |-> TRUE, log |-> <<>>,
   below |-> run.flag = 0, rp |-> TRUE, rd |-> TRUE, rv |-> TRUE, rval |-> TRUE, vp |-> IF run.ev = <<>> THEN <<0, 0>> ELSE run.ev.pe, vd |-> IF run.ev = <<>> THEN <<0, 0>> ELSE run.ev.de, chain |-> "c"]
DNext == \/ /\ IsIdle /\ ~done /\ Begin([s |-> "S", mode |-> 1, x0 |-> "x", l0 |-> "l", fk |-> 0]) /\ UNCHANGED <<inv, done>>
         \/ /\ ~IsIdle /\ run.ph = "it" /\ \E pe, de, ic \in Res : It(ItEv(pe, de, ic)) /\ UNCHANGED <<inv, done>>
         \/ /\ ~IsIdle /\ run.ph \in {"cb", "fin"} /\ run.q # <<>> /\ \E thr \in {NEGINF, L(0), L(1)} : Cb(CbEv(thr)) /\ inv' = inv + 1 /\ UNCHANGED done
         \/ /\ ~IsIdle /\ run.ph = "fin" /\ run.q = <<>> /\ End(EndEv) /\ done' = TRUE /\ UNCHANGED inv
c == sols["S"].c
Busy == ~IsIdle
\* no state is a dead end before the solve has ended, and it ends within its budgets
Progress == done \/ ENABLED DNext
BudgetInv == Busy => run.it <= c.maxit /\ run.al <= c.maxal /\ (run.ph = "it" => run.it < c.maxit /\ run.al < c.maxal)
VerdictInv == (Busy /\ run.ph = "fin" /\ run.ev # <<>>) =>
   CASE run.flag = 0 -> run.ev.pe[2] <= L(c.ttol) + 1 /\ run.ev.de[2] <= L(c.ttol) + 1
     [] run.flag = 1 -> run.it = c.maxit
     [] OTHER -> run.al = c.maxal
ScheduleInv == Busy => run.mu >= Min2(c.mulow, c.mu0) /\ run.mu <= c.mu0 /\ run.ptol >= L(c.ttol) /\ run.itol >= L(c.itmin) /\ run.rho = L(c.rho0 + c.rfac * run.al)
\* every registered callback is invoked once per accepted step and once at the end
CountInv == LET n == Len(sols["S"].cbs) IN
   IF done THEN n = 0 \/ inv % n = 0
   ELSE Busy => inv = CASE run.ph = "cb" -> n * run.it + n - Len(run.q) [] run.ph = "fin" -> n * run.it + n - Len(run.q) [] OTHER -> n * run.it
\* the log has one row per accepted step, numbered consecutively
RowsInv == Busy => /\ Len(run.rows) = run.it + (IF run.ph = "cb" THEN 1 ELSE 0)
                   /\ \A i \in 1..Len(run.rows) : run.rows[i].it = i
\* variables the remaining behaviour depends on (and the invariants look at)
View == <<sols["S"].cbs, c, done, inv, IF Busy THEN <<run.ph, run.it, run.al, run.mu, run.rho, run.ptol, run.itol, run.flag, run.q, run.dl, Len(run.rows), IF run.ev = <<>> THEN <<>> ELSE <<run.ev.pe, run.ev.de>>>> ELSE <<>>>>
=============================================================================
