---------------------------- MODULE ArmijoSearch ----------------------------
(* The Armijo backtracking line search (ArmijoLinesearch::run) as a state      *)
(* machine driven by its environment, the merit function: every call of the    *)
(* merit function is one transition, which fixes the trial step and carries    *)
(* the outcome chosen by the environment (a value, NaN, an infinity or an      *)
(* exception).                                                                  *)
(*                                                                              *)
(* Steps are integers in units of 2^-22 (floor), decreases of the merit in      *)
(* units of 2^-16 (floor); the flag ex says that the value is exact.            *)
(* The slope is S / 16 and c1 = 2^-a, so that the Armijo test                   *)
(*     phi(alpha) - phi(0) <= c1 alpha phi'(0)                                   *)
(* reads  D * 2^(10 + a) <= A * S.                                              *)
EXTENDS VUtil
VARIABLE st
BIS == 0  QUAD == 1  CUB == 2
NANV == 1000000002
Chk(name, cond, info) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, info>>) /\ FALSE

(* ---- the acceptance test, with the uncertainty of the recorded numbers ---- *)
Fin(c) == c.kind = "val"
\* the largest decrease accepted at step A
Bound(o, A) == (A * o.S) \div Pow2(10 + o.a)
Lo(o, c) == Min2(Bound(o, c.A), Bound(o, IF c.aex THEN c.A ELSE c.A + 1))
Hi(o, c) == Max2(Bound(o, c.A), Bound(o, IF c.aex THEN c.A ELSE c.A + 1))
CanAccept(o, c) == IF Fin(c) THEN c.D <= Hi(o, c) ELSE c.kind = "ninf"
CanReject(o, c) == IF Fin(c) THEN (IF c.dex THEN c.D > Lo(o, c) ELSE c.D + 1 > Lo(o, c)) ELSE c.kind # "ninf"
Negligible(o) == Abs(o.S) < o.thr     \* |slope| < dphi_thresh, both in sixteenths

Evaluated(c) == c.kind \in {"val", "nan", "pinf", "ninf"}
Idle == [ph |-> "idle"]
Init == st = Idle
Begin(o) == /\ st.ph = "idle"
            /\ st' = [ph |-> "first", o |-> o, n |-> 0, i |-> 0, lat |-> 0, prv |-> 0, calls |-> <<>>]

(* ---- what happens after a call ---- *)
\* the control state after the call c of the search: stop or try a smaller step
After(s) ==
  LET o == s.o  c == s.calls[s.n] IN
  IF s.i >= o.max THEN {[s EXCEPT !.ph = "ret"]}
  ELSE (IF Evaluated(c) /\ CanAccept(o, c) THEN {[s EXCEPT !.ph = "ret"]} ELSE {}) \cup
       (IF ~Evaluated(c) \/ CanReject(o, c) THEN {[s EXCEPT !.ph = IF c.le THEN "ret" ELSE "search"]} ELSE {})

(* ---- admissible trials ---- *)
First(s, c) == IF s.n = 0 THEN c.one ELSE c.half
\* the interpolant to use: the two most recent evaluated steps for CUBIC when there are two, else one
Facts(s, c) == IF s.o.ip = CUB /\ s.prv > 0 THEN c.cub ELSE c.quad
Samples(s, c) == c.lat = s.lat /\ c.prv = s.prv
\* f: class of the interpolant's minimiser relative to the interval of admissible steps
InterpOk(s, c) ==
  LET f == Facts(s, c) IN
  CASE f.cls = "int" -> f.near \/ c.fl
    [] f.cls = "ext" -> (IF f.left = 1 THEN c.loE ELSE IF f.left = -1 THEN c.hiE ELSE c.loE \/ c.hiE) \/ c.fl
    [] OTHER -> TRUE
Trial(s, c) ==
  IF s.o.ip = BIS THEN Chk("bisection halves the step", c.half, c)
  ELSE /\ Chk("contraction factor", c.in \/ c.loE \/ c.hiE \/ c.fl, c)
       /\ Chk("samples", Samples(s, c), <<c, s.lat, s.prv>>)
       /\ Chk("interpolation", InterpOk(s, c), c)

Record(c) == [st EXCEPT !.n = @ + 1, !.calls = Append(@, c)]
Call(c) ==
  \/ /\ st.ph = "first"
     /\ Chk("full step first, then halved", First(st, c), c)
     /\ Chk("step range", c.one \/ ~c.lt, c)
     /\ LET s == Record(c) IN
        CASE c.kind = "lerr" -> st' = [s EXCEPT !.ph = "lthrow"]
          [] c.kind = "rerr" -> st' = [s EXCEPT !.ph = IF c.le THEN "rthrow" ELSE "first"]
          [] OTHER -> LET t == [s EXCEPT !.lat = s.n] IN
                      IF Negligible(s.o) THEN st' = [t EXCEPT !.ph = "ret"] ELSE \E n \in After(t) : st' = n
  \/ /\ st.ph = "search"
     /\ Trial(st, c)
     /\ Chk("step range", ~c.lt, c)
     /\ LET s == [Record(c) EXCEPT !.i = @ + 1] IN
        CASE c.kind = "lerr" -> st' = [s EXCEPT !.ph = "lthrow"]
          [] c.kind = "rerr" -> \E n \in After(s) : st' = n
          [] OTHER -> \E n \in After([s EXCEPT !.prv = s.lat, !.lat = s.n]) : st' = n

(* ---- the result ---- *)
End(e) ==
  /\ \/ st.ph = "ret" /\ Chk("returns", e.thrown = "none", e) /\ Chk("returned step was evaluated", st.lat \in 1..st.n /\ e.idx = st.lat, <<e, st.lat>>)
        /\ Chk("returned value is the value at the returned step", e.same, e)
     \/ st.ph = "rthrow" /\ Chk("error is reported", e.thrown = "runtime_error", e)
     \/ st.ph = "lthrow" /\ Chk("error is reported", e.thrown = "logic_error", e)
  /\ st' = Idle

(* ---- polynomials (coefficients in decreasing order of degree) ---- *)
PEval(p, x) == FoldLeft(LAMBDA acc, k : acc * x + k, 0, p)
PDer(p) == IF Len(p) = 1 THEN <<0>> ELSE [i \in 1..(Len(p) - 1) |-> p[i] * (Len(p) - i)]
Poly(e) == Chk("polynomial", e.val = PEval(e.p, e.x) /\ e.der = PDer(e.p) /\ e.deg = Len(e.p) - 1, e)

(* ---- invariants of the algorithm, checked on every behaviour of the closed system ---- *)
BudgetInv == st.ph # "idle" => st.i <= st.o.max
ReturnInv == st.ph = "ret" => st.lat > 0 /\ Evaluated(st.calls[st.lat])
\* the step returned passes the test, unless the slope is negligible, the budget ran out or the minimum step was reached
ArmijoInv == st.ph = "ret" => \/ CanAccept(st.o, st.calls[st.lat]) \/ Negligible(st.o) \/ st.i = st.o.max \/ st.calls[st.n].le
MonoInv == st.ph # "idle" => \A k \in 1..st.n - 1 : st.calls[k + 1].A <= st.calls[k].A
ThrowInv == st.ph = "rthrow" => \A k \in 1..st.n : st.calls[k].kind = "rerr"
=============================================================================
