----------------------------- MODULE ProxSolver -----------------------------
(* The solver seen from outside: the API (problems, solvers, callbacks,       *)
(* histories) and, as a state machine, one complete solve: inner iterations,  *)
(* callbacks, the BCL outer loop, the inertia-correction ladder, the log and  *)
(* the verdict.  Reals are represented by lg(v) = 1024 log2 v (NEGINF for 0,  *)
(* NANL and above for non-finite ones); an uncertain real is an interval      *)
(* <<lo, hi>>.  Vectors are represented by digests of their bits.             *)
EXTENDS VUtil
CONSTANT Props          \* the properties whose value conjuncts are decided
VARIABLES probs, sols, cbk, hist, memo, run
vars == <<probs, sols, cbk, hist, memo, run>>

NEGINF == -9999999
NANL == 9999999
L(k) == IF k = 99 THEN NEGINF ELSE 1024 * k
CFields == <<"mu0", "rho0", "ttol", "mulow", "pa", "pb", "da", "db", "verb", "ldlt", "fac", "rfac", "ptol0", "itol0", "itmin", "muup",
             "mul", "kkt", "hess", "d0", "dnz", "dmin", "dmax", "kinc", "big", "kdec", "maxit", "maxal", "ls">>
Cfg(seq) == [f \in {CFields[i] : i \in 1..Len(CFields)} |-> seq[CHOOSE i \in 1..Len(CFields) : CFields[i] = f]]

Chk(name, cond, info) == IF cond THEN TRUE ELSE PrintT(<<"FAIL", name, info>>) /\ FALSE
\* a quasi-Newton matrix may overflow (wild): no value is predicted from then on
Wild == run.ph # "idle" /\ run.wild
Num(p, name, cond, info) == IF p \cap Props # {} /\ ~Wild THEN Chk(name, cond, info) ELSE TRUE

(* ---- interval comparisons ---- *)
CanLe(v, t) == v[1] <= t + 1
CanGt(v, t) == v[2] >= t - 1
IvClose(v, w, tol) == w >= v[1] - tol /\ w <= v[2] + tol

(* ---- inertia ladder: which shift can be the one used, given bounds on the threshold ---- *)
RECURSIVE Ladder(_, _, _, _, _, _)
Ladder(c, d, prev, dlast, lo, hi) ==
  IF d > L(c.dmax) THEN {[fac |-> prev, nxt |-> d, ok |-> FALSE]}
  ELSE (IF d >= lo - 1 THEN {[fac |-> d, nxt |-> d, ok |-> TRUE]} ELSE {}) \cup
       (IF hi > NEGINF /\ d <= hi + 1
        THEN Ladder(c, IF d = NEGINF THEN (IF dlast = NEGINF THEN L(c.dnz) ELSE Max2(L(c.dmin), dlast + L(c.kdec)))
                       ELSE IF dlast = NEGINF THEN d + L(c.big) ELSE d + L(c.kinc), d, dlast, lo, hi)
        ELSE {})

(* ---- tolerances ---- *)
TolFail(c, mu) == [p |-> Max2(L(c.ptol0) + (L(mu) * c.pa) \div 10, L(c.ttol)), i |-> Max2(L(c.itol0) + (L(mu) * c.da) \div 10, L(c.itmin))]
TolOk(c, mu, p, i) == [p |-> Max2(p + (L(mu - c.muup) * c.pb) \div 10, L(c.ttol)), i |-> Max2(i + (L(mu - c.muup) * c.db) \div 10, L(c.itmin))]
NextMu(c, mu) == IF mu = c.mulow THEN c.mu0 ELSE Max2(mu + c.fac, c.mulow)
NextRho(c, rho) == IF rho = NEGINF THEN NEGINF ELSE rho + 1024 * c.rfac    \* (a lg value)

Idle == [ph |-> "idle"]
Init == probs = <<>> /\ sols = <<>> /\ cbk = <<>> /\ hist = <<>> /\ memo = <<>> /\ run = Idle
Put(f, k, v) == (k :> v) @@ f
IsIdle == run.ph = "idle"

(* ---- API ---- *)
Reset == IsIdle /\ probs' = <<>> /\ sols' = <<>> /\ cbk' = <<>> /\ hist' = <<>> /\ memo' = memo /\ run' = run
NewProb(e) == /\ IsIdle /\ probs' = Put(probs, e.p, [pid |-> e.pid, flat |-> e.flat, nb |-> e.nb, n |-> e.n, m |-> e.m])
              /\ sols' = [s \in {t \in DOMAIN sols : sols[t].p # e.p} |-> sols[s]] /\ UNCHANGED <<cbk, hist, memo, run>>
NewCb(e) == /\ IsIdle /\ cbk' = Put(cbk, e.id, e.k) /\ hist' = Put(hist, e.id, <<>>) /\ UNCHANGED <<probs, sols, memo, run>>
Mk(e) == /\ IsIdle /\ e.p \in DOMAIN probs
         /\ sols' = Put(sols, e.s, [p |-> e.p, c |-> Cfg(e.cfg), seq |-> e.cfg, setup |-> FALSE, fresh |-> FALSE, cbs |-> <<>>, lam |-> ""])
         /\ UNCHANGED <<probs, cbk, hist, memo, run>>
\* a public field of the solver is changed between two solves
Settable == {9, 11, 17, 18, 27, 28, 29}
SetField(e) == /\ IsIdle /\ e.s \in DOMAIN sols /\ e.k \in Settable
               /\ LET q == [sols[e.s].seq EXCEPT ![e.k] = e.v] IN sols' = [sols EXCEPT ![e.s].seq = q, ![e.s].c = Cfg(q)]
               /\ UNCHANGED <<probs, cbk, hist, memo, run>>
SetupOk(s) == sols[s].c.hess # 2 \/ probs[sols[s].p].flat
Setup(e) == /\ IsIdle /\ e.s \in DOMAIN sols
            /\ Num({"C21"}, "setup verdict", e.ok = SetupOk(e.s), e)
            /\ sols' = [sols EXCEPT ![e.s].setup = e.ok, ![e.s].fresh = TRUE, ![e.s].lam = e.lam]
            /\ UNCHANGED <<probs, cbk, hist, memo, run>>
Reg(e) == /\ IsIdle /\ e.id \in DOMAIN cbk /\ sols' = [sols EXCEPT ![e.s].cbs = Append(@, e.id)] /\ UNCHANGED <<probs, cbk, hist, memo, run>>
Clr(e) == /\ IsIdle /\ sols' = [sols EXCEPT ![e.s].cbs = <<>>] /\ UNCHANGED <<probs, cbk, hist, memo, run>>
\* history content: one snapshot per invocation, of the requested groups
Field(h, f) == [i \in 1..Len(h) |-> h[i][f]]
Hist(e) == LET k == cbk[e.id] - 1 h == hist[e.id] pd == (k % 2) = 1 va == ((k \div 2) % 2) = 1 re == (k \div 4) = 1 G(b, f) == IF b THEN Field(h, f) ELSE <<>> IN
  /\ IsIdle /\ cbk[e.id] > 0
  /\ Num({"C19"}, "history", e.xs = G(pd, "x") /\ e.lams = G(pd, "lam") /\ e.nview = (IF pd THEN Len(h) ELSE 0) /\ e.vals = G(va, "val")
        /\ e.pe = G(re, "pe") /\ e.de = G(re, "de") /\ e.aa = Field(h, "aa") /\ e.dm = Field(h, "dm") /\ e.nls = Len(h) /\ e.nlv = Len(h), <<e, Len(h)>>)
  /\ UNCHANGED vars

(* ---- a solve ---- *)
Refused(s, e) == e.mode \in {3, 4}
\* phases: refuse (must throw before anything), it (an iteration starts), cb (callbacks of an iteration),
\* fin (final callbacks), die (must throw), end (must end)
Begin(e) == LET s == e.s c == sols[s].c t == TolFail(c, c.mu0) IN
  /\ IsIdle /\ s \in DOMAIN sols
  /\ run' = [ph |-> IF Refused(s, e) \/ ~sols[s].setup THEN "refuse" ELSE IF c.maxit = 0 \/ c.maxal = 0 THEN "fin" ELSE "it",
             s |-> s, c |-> c, it |-> 0, al |-> 0, mu |-> c.mu0, rho |-> L(c.rho0), ptol |-> t.p, itol |-> t.i, x |-> e.x0, tgt |-> e.x0,
             lam |-> IF e.mode # 0 THEN e.l0 ELSE sols[s].lam, lpk |-> IF e.mode # 0 THEN "given" ELSE "any",
             q |-> sols[s].cbs, flag |-> -1, ev |-> <<>>, dl |-> NEGINF, rows |-> <<>>, fk |-> e.fk, wild |-> FALSE, key |-> <<>>, amb |-> FALSE]
  /\ UNCHANGED <<probs, sols, cbk, hist, memo>>

HasM == probs[sols[run.s].p].m > 0
\* an injected fault which certainly enters the KKT right-hand side / which enters the KKT matrix
Eff1 == run.fk \in {1, 2, 6, 7} \/ (run.fk = 4 /\ HasM)
Eff2 == run.fk \in {3, 5} /\ run.c.hess \in {0, 1}
\* (fault 8: the cost has no value, NaN, anywhere but at the iterate itself: no step to another point can be accepted)
\* the outer loop's reaction to the subproblem which ended at event e (flag: -1 or 1 for an exhausted budget)
Outer(r, e, flag) ==
  LET c == r.c
      succ == IF CanLe(e.pe, L(c.ttol)) /\ CanLe(e.de, L(c.ttol)) THEN {[r EXCEPT !.ph = "fin", !.flag = 0, !.q = sols[r.s].cbs]} ELSE {}
      acc == LET t == TolOk(c, r.mu, e.ptol, e.itol) IN
             [r EXCEPT !.lpk = IF c.mul = 0 THEN "newton" ELSE IF c.mul = 1 THEN "primal" ELSE "pd", !.lam = IF c.mul = 0 THEN r.lam ELSE "?", !.ptol = t.p, !.itol = t.i]
      pen == LET m == NextMu(c, r.mu) t == TolFail(c, m) IN [r EXCEPT !.lpk = "keep", !.mu = m, !.ptol = t.p, !.itol = t.i]
      both == CanLe(e.pe, e.ptol) /\ CanGt(e.pe, e.ptol)
      next == (IF CanLe(e.pe, e.ptol) THEN {[acc EXCEPT !.amb = both]} ELSE {}) \cup (IF CanGt(e.pe, e.ptol) THEN {[pen EXCEPT !.amb = both]} ELSE {})
      Cont(n) == LET n2 == [n EXCEPT !.al = r.al + 1, !.rho = NextRho(c, r.rho), !.tgt = r.x, !.dl = NEGINF, !.flag = flag] IN
                 IF flag = 1 \/ n2.al >= c.maxal THEN [n2 EXCEPT !.ph = "fin", !.q = sols[r.s].cbs] ELSE [n2 EXCEPT !.ph = "it"]
  IN succ \cup (IF CanGt(e.pe, L(c.ttol)) \/ CanGt(e.de, L(c.ttol)) THEN {Cont(n) : n \in next} ELSE {})
\* after the step of the iteration was taken and all callbacks were invoked
Stepped(r) == LET r2 == [r EXCEPT !.it = r.it + 1, !.lpk = "same"] IN
  IF r2.it >= r.c.maxit THEN Outer(r2, r.ev, 1) ELSE {[r2 EXCEPT !.ph = "it"]}
Row(r, e) == [it |-> r.it + 1, al |-> r.al + 1, ic |-> e.ic, pe |-> e.pe, de |-> e.de, seen |-> FALSE, x |-> NANL, cb |-> <<>>]

It(e) == LET c == run.c stop == CanLe(e.ic, e.itol) \/ (CanLe(e.pe, L(c.ttol)) /\ CanLe(e.de, L(c.ttol)))
             go == CanGt(e.ic, e.itol) /\ (CanGt(e.pe, L(c.ttol)) \/ CanGt(e.de, L(c.ttol)))
             key0 == IF run.it = 0 /\ run.al = 0 /\ ~(c.hess = 2 /\ ~sols[run.s].fresh)
                     THEN <<probs[sols[run.s].p].pid, [f \in DOMAIN c \ {"verb"} |-> c[f]], e.x, e.lam, e.lp>> ELSE run.key
             r == [run EXCEPT !.x = e.x, !.lam = e.lam, !.ev = e, !.key = key0, !.lpk = "same", !.amb = FALSE, !.wild = @ \/ e.wild] IN
  /\ run.ph = "it"
  /\ Chk("iteration order", e.it = run.it /\ e.al = run.al, <<e, run>>)
  /\ Chk("budget", e.it < c.maxit /\ e.al < c.maxal, e)
  /\ Num({"C19", "C20"}, "iterate", e.xr = e.x /\ run.x \in {e.x, "?"}, <<e, run.x>>)
  /\ Num({"C02", "C20"}, "multipliers", run.lam \in {e.lam, "?"}, <<e, run.lam>>)
  /\ Num({"C02", "C20"}, "accepted multipliers", CASE run.lpk \in {"same", "keep"} -> e.kp[4] [] run.lpk = "newton" -> e.kp[1] /\ e.kp[5]
          [] run.lpk = "primal" -> e.kp[2] /\ e.kp[5] [] run.lpk = "pd" -> e.kp[3] /\ e.kp[5] [] run.lpk = "given" -> e.kp[5] [] OTHER -> TRUE, <<run.lpk, e>>)
  /\ Num({"C02", "C20"}, "proximal centre", e.tgt = run.tgt, <<e, run.tgt>>)
  /\ run.amb => e.mu = L(run.mu) /\ (run.lpk = "keep" => e.kp[4])
  /\ Num({"C02"}, "penalty", e.mu = L(run.mu) /\ e.smu, <<e, L(run.mu)>>)
  /\ Num({"C02"}, "proximal weight", e.rho = run.rho /\ e.w, <<e, run.rho>>)
  /\ Num({"C02"}, "primal tolerance", Close(e.ptol, run.ptol, 3) /\ e.ptol >= L(c.ttol) - 1, <<e, run.ptol>>)
  /\ Num({"C02"}, "subproblem tolerance", Close(e.itol, run.itol, 3) /\ e.itol >= L(c.itmin) - 1, <<e, run.itol>>)
  /\ Num({"C01"}, "verdict only at the end", e.conv = -1, e)
  /\ \/ e.fault /\ (Eff1 \/ (Eff2 /\ go)) /\ run' = [r EXCEPT !.ph = "die"]
     \/ e.fault /\ run.fk = 8 /\ go /\ run' = [r EXCEPT !.ph = "die"]
     \/ ~(e.fault /\ Eff1) /\ stop /\ \E n \in Outer(r, e, -1) : run' = n
     \/ ~(e.fault /\ (Eff1 \/ Eff2)) /\ go /\ LET g == [r EXCEPT !.ph = "cb", !.q = sols[run.s].cbs, !.rows = Append(run.rows, Row(run, e)), !.x = IF e.fault /\ run.fk = 8 THEN e.x ELSE "?", !.lam = "?"] IN
           IF g.q = <<>> THEN \E n \in Stepped(g) : run' = n ELSE run' = g
  /\ UNCHANGED <<probs, sols, cbk, hist, memo>>

Snap(e) == [x |-> e.x, lam |-> e.lam, val |-> e.val, pe |-> e.pe, de |-> e.de, aa |-> e.aa, dm |-> e.dm]
Record(e) == hist' = IF cbk[e.id] > 0 THEN [hist EXCEPT ![e.id] = Append(@, Snap(e))] ELSE hist
\* the shifts of the ladder compatible with the recorded signature and step
SigOk(e) == e.sig = <<e.n, e.m, 0>>
DelOk(e, ld) == ~ld.ok \/ (IF ld.fac = NEGINF THEN e.del <= e.noise + 12288 ELSE (ld.fac > e.noise + 16384 => Close(e.del, ld.fac, 8)))
\* (when the threshold is uncertain and the step does not tell, the shift remembered is unknown, NANL)
Shifts(e) == IF run.dl = NANL THEN {[fac |-> NANL, nxt |-> NANL, ok |-> SigOk(e)]} ELSE {ld \in Ladder(run.c, L(run.c.d0), L(run.c.d0), run.dl, e.tlo, e.thi) : ld.ok = SigOk(e) /\ DelOk(e, ld)}
\* numeric content of an accepted step
StepOk(e) ==
  /\ Num({"C04"}, "step solves the KKT system", SigOk(e) => e.res <= -30614, e)
  /\ Num({"C19"}, "next iterate is reached by the accepted step", e.step <= -37000, e)
  /\ Num({"C03", "C07"}, "merit at the accepted point", e.merr <= -32000, e)
  /\ Num({"C03"}, "step range", e.alpha <= 1 /\ e.alpha >= e.amin - 1, e)
  /\ Num({"C03"}, "sufficient decrease", e.arm <= Max2(e.dMn, NEGINF) \/ e.alpha <= -6500 \/ e.dmlg <= -43000, e)
Cb(e) == LET c == run.c IN
  \/ /\ run.ph = "cb" /\ run.q # <<>>
     /\ Chk("callback order", e.id = run.q[1] /\ e.it = run.it /\ e.al = run.al /\ e.conv = -1, <<e, run>>)
     /\ Num({"C19"}, "views", e.views, e)
     /\ Num({"C19"}, "one iterate for all callbacks", run.x \in {"?", e.x} /\ run.lam \in {"?", e.lam}, e)
     /\ IF run.rows[Len(run.rows)].seen THEN LET r == [run EXCEPT !.q = Tail(run.q)] IN IF r.q = <<>> THEN \E n \in Stepped(r) : run' = n ELSE run' = r
        ELSE /\ Num({"C04"}, "regularisation ladder", Shifts(e) # {}, <<e, Ladder(c, L(c.d0), L(c.d0), run.dl, e.tlo, e.thi)>>)
             /\ StepOk(e)
             /\ \E ld \in {IF Cardinality(Shifts(e)) = 1 THEN CHOOSE z \in Shifts(e) : TRUE ELSE [fac |-> NANL, nxt |-> NANL, ok |-> SigOk(e)]} :
                LET row == [run.rows[Len(run.rows)] EXCEPT !.seen = TRUE, !.x = ld.nxt, !.cb = [alpha |-> e.alpha, sgn |-> e.sgn, dm |-> e.dmlg, msgn |-> e.msgn, m |-> e.mlg, dMs |-> e.dMsgn, dM |-> e.dM, n |-> e.dMn]]
                    r == [run EXCEPT !.q = Tail(run.q), !.x = e.x, !.lam = e.lam, !.rows = [@ EXCEPT ![Len(@)] = row], !.dl = IF ld.ok THEN ld.fac ELSE @] IN
                IF r.q = <<>> THEN \E n \in Stepped(r) : run' = n ELSE run' = r
     /\ Record(e) /\ UNCHANGED <<probs, sols, cbk, memo>>
  \/ /\ run.ph = "fin" /\ run.q # <<>>
     /\ Chk("final callbacks", e.id = run.q[1] /\ e.it = run.it /\ e.al = run.al, <<e, run>>)
     /\ Num({"C01"}, "flag seen by callbacks", e.conv = run.flag, <<e, run.flag>>)
     /\ Num({"C19"}, "views", e.views, e)
     /\ Num({"C19", "C20"}, "iterate at the end", run.x \in {e.x, "?"} /\ run.lam \in {e.lam, "?"}, <<e, run>>)
     /\ run' = [run EXCEPT !.q = Tail(@), !.x = e.x, !.lam = e.lam]
     /\ Record(e) /\ UNCHANGED <<probs, sols, cbk, memo>>

(* ---- the log ---- *)
Keys == <<"iter", "step_size", "inner_crit", "prim_err", "dual_err", "xreg", "dphi0", "merit", "dM", "al_iter">>
Widths == <<4, 10, 10, 10, 10, 10, 10, 10, 10, 10>>
Header == <<"h", Keys, Widths>>
NZ == -37000     \* values below this are rounding noise
SameNum(s, v, c, tol) == (v = c /\ c = NEGINF) \/ (s >= 0 /\ Close(v, c, tol))
SameSgn(cs, c, v, tol) == IF c = NEGINF THEN v[2] = NEGINF ELSE v[1] = cs /\ Close(v[2], c, tol)
IvSame(v, iv, tol) == v[1] >= 0 /\ IvClose(iv, v[2], tol)
RowOk(row, r) == LET v == row[4] IN
  /\ row[1] = "r" /\ row[2] = r.it /\ row[3] = r.al
  /\ Len(row[5]) = 10 /\ \A i \in 1..10 : row[5][i] >= Widths[i] /\ row[5][i] <= Widths[i] + 1
  /\ IvSame(v[3], r.ic, 3) /\ IvSame(v[4], r.pe, 3) /\ IvSame(v[5], r.de, 3)
  /\ r.seen => /\ SameSgn(1, r.cb.alpha, v[2], 3)
               /\ IF r.x = NANL THEN TRUE ELSE IF r.x = NEGINF THEN v[6] = <<0, NEGINF>> ELSE v[6][1] = 1 /\ Close(v[6][2], r.x, 3)
               /\ SameSgn(r.cb.sgn, r.cb.dm, v[7], 3)
               /\ SameSgn(r.cb.msgn, r.cb.m, v[8], 3)
               /\ (r.cb.dM > r.cb.n + 3072 => SameSgn(r.cb.dMs, r.cb.dM, v[9], 12))
RECURSIVE LogOk(_, _)
LogOk(log, rows) ==
  IF rows = <<>> THEN \A i \in 1..Len(log) : log[i][1] = "t" /\ log[i][2] # "garbled"
  ELSE IF rows[1].it % 25 = 0 THEN Len(log) > 1 /\ log[1] = Header /\ Chk("row", RowOk(log[2], rows[1]), <<log[2], rows[1]>>) /\ LogOk(Tail(Tail(log)), Tail(rows))
  ELSE Len(log) > 0 /\ Chk("row", RowOk(log[1], rows[1]), <<log[1], rows[1]>>) /\ LogOk(Tail(log), Tail(rows))
QuietLog(log) == \A i \in 1..Len(log) : log[i][1] = "t" /\ log[i][2] # "garbled"
\* verb: 0 quiet, 1 and 2 verbose, 3 verbose with the logger switched off
Silent == run.c.verb \in {0, 3}
Log(e) == IF Silent THEN QuietLog(e.log) ELSE Len(e.log) > 0 /\ e.log[1] = Header /\ LogOk(Tail(e.log), run.rows)

(* ---- the end of a solve ---- *)
Outcome(e) == <<e.chain, e.x, e.lam, e.ret, e.it, e.al>>
Expected(k) == CASE k = 6 -> "runtime_error" [] k = 7 -> "logic_error" [] OTHER -> "runtime_error"
End(e) ==
  /\ \/ /\ run.ph = "refuse"
        /\ Chk("misuse is refused", e.thrown = "runtime_error" /\ e.nit = 0, e)
        /\ memo' = memo /\ sols' = sols
     \/ /\ run.ph = "die"
        /\ Num({"C21", "C01"}, "fault is reported", e.thrown = Expected(run.fk), <<e, run.fk>>)
        /\ memo' = memo /\ sols' = [sols EXCEPT ![run.s].lam = e.lam, ![run.s].fresh = FALSE]
     \/ /\ Wild /\ run.ph \in {"it", "cb", "fin"} /\ e.thrown = "runtime_error"
        /\ memo' = memo /\ sols' = [sols EXCEPT ![run.s].lam = e.lam, ![run.s].fresh = FALSE]
     \/ /\ run.ph = "fin" /\ run.q = <<>>
        /\ Num({"C21", "C01"}, "no spurious error", e.thrown = "none", e)
        /\ Num({"C01"}, "flag", e.ret = run.flag /\ e.flag = run.flag, <<e, run.flag>>)
        /\ Num({"C01"}, "counters", e.it = run.it /\ e.al = run.al /\ (run.flag = 1 => e.it = run.c.maxit) /\ e.it <= run.c.maxit /\ e.al <= run.c.maxal
               /\ (run.flag = -1 => (e.al = run.c.maxal \/ run.c.maxit = 0)), <<e, run>>)
        /\ Num({"C01"}, "success is honest", run.flag = 0 => (e.below /\ e.rp /\ e.rd /\ e.rv /\ e.rval /\ CanLe(e.vp, L(run.c.ttol)) /\ CanLe(e.vd, L(run.c.ttol))), e)
        /\ Num({"C19", "C20", "C01"}, "returned iterate", run.x \in {e.x, "?"} /\ run.lam \in {e.lam, "?"}, <<e, run>>)
        /\ LET first == run.key # <<>> IN
           /\ Num({"C20", "C21"}, "repeatable", (first /\ run.key \in DOMAIN memo) => memo[run.key] = Outcome(e), <<e, IF first /\ run.key \in DOMAIN memo THEN memo[run.key] ELSE 0>>)
           /\ memo' = IF first THEN Put(memo, run.key, Outcome(e)) ELSE memo
        /\ sols' = [sols EXCEPT ![run.s].lam = e.lam, ![run.s].fresh = IF run.rows = <<>> /\ run.ev = <<>> THEN @ ELSE FALSE]
  /\ Num({"C20"}, "inputs are not modified", e.in, e)
  /\ Num({"C22"}, "log", IF run.ph = "fin" THEN Log(e) ELSE IF Silent \/ run.ph = "refuse" THEN QuietLog(e.log) ELSE Len(e.log) > 0 /\ e.log[1] = Header /\ LogOk(Tail(e.log), run.rows), e.log)
  /\ run' = Idle /\ UNCHANGED <<probs, cbk, hist>>
=============================================================================
