--------------------------- MODULE BlockStructure ---------------------------
(* Symbolic block structures (C14): kinds, their meaning as sets of scalar    *)
(* positions, symbolic factorisation, permutations, copies and views.         *)
EXTENDS VUtil
CONSTANTS Slots, Rand, Lens, MaxBlocks
VARIABLES heap, slot, last
bvars == <<heap, slot, last>>

Zero == 0  Diag == 1  TriL == 2  TriU == 3  Dense == 4
Kinds == 0..4
In(k, i, j) == CASE k = 0 -> FALSE [] k = 1 -> i = j [] k = 2 -> j <= i [] k = 3 -> i <= j [] OTHER -> TRUE
Pat(k, r, c) == {p \in (1..r) \X (1..c) : In(k, p[1], p[2])}
Trans(k) == CASE k = 2 -> 3 [] k = 3 -> 2 [] OTHER -> k
Add(a, b) == IF a = 4 \/ b = 4 \/ a + b = 5 THEN 4 ELSE Max2(a, b)
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE Add(a, b)

(* ---- structures: [lens, k] with k a matrix of kinds ---- *)
NB(s) == Len(s.lens)
Off(lens) == Offsets(lens)
N(s) == Sum(s.lens)
BlockOf(lens, p) == CHOOSE b \in 1..Len(lens) : Off(lens)[b] < p /\ p <= Off(lens)[b] + lens[b]
\* scalar positions covered by a structure
Full(s) == LET o == Off(s.lens) IN UNION {{<<o[i] + p[1], o[j] + p[2]>> : p \in Pat(s.k[i][j], s.lens[i], s.lens[j])} : i \in 1..NB(s), j \in 1..NB(s)}
Nnz(s) == Sum(Concat([i \in 1..NB(s) |-> [j \in 1..NB(s) |-> Cardinality(Pat(s.k[i][j], s.lens[i], s.lens[j]))]]))
Symmetric(s) == \A i \in 1..NB(s), j \in 1..NB(s) : j < i => s.k[i][j] = Trans(s.k[j][i])
Permuted(s, p) == [lens |-> [i \in 1..NB(s) |-> s.lens[p[i] + 1]], k |-> [i \in 1..NB(s) |-> [j \in 1..NB(s) |-> s.k[p[i] + 1][p[j] + 1]]]]
Transposed(s) == [lens |-> s.lens, k |-> [i \in 1..NB(s) |-> [j \in 1..NB(s) |-> Trans(s.k[j][i])]]]
AllPerms(n) == Perms({i - 1 : i \in 1..n})

(* ---- fill of the numeric factorisation, on scalars ---- *)
\* the blocks are eliminated as wholes: a block which is not diagonal fills itself and what depends on it
RECURSIVE Elim(_, _, _)
Elim(P, j, n) == IF j > n THEN P
   ELSE LET below == {i \in (j + 1)..n : <<i, j>> \in P} IN Elim(P \cup {<<a, b>> \in below \X below : b <= a}, j + 1, n)
LowerPart(P) == {p \in P : p[2] <= p[1]}
Fill(s) == Elim(LowerPart(Full(s)), 1, N(s))

(* ---- symbolic factorisation: which structures can be factorised, and a bound on the pattern ---- *)
RECURSIVE Fac(_, _, _)
Fac(k, b, n) ==
  IF b > n THEN [ok |-> TRUE, k |-> k]
  ELSE IF k[b][b] \notin {1, 4} THEN [ok |-> FALSE, k |-> k]
  ELSE LET col == [i \in (b + 1)..n |-> IF k[b][b] = 1 THEN k[i][b] ELSE CASE k[i][b] \in {0, 1} -> 3 [] k[i][b] = 2 -> 4 [] OTHER -> k[i][b]]
           new == [i \in 1..n |-> [j \in 1..n |->
                     IF i = b /\ j = b THEN (IF k[b][b] = 1 THEN 1 ELSE 2)
                     ELSE IF i = b /\ j > b THEN 0
                     ELSE IF j = b /\ i > b THEN col[i]
                     ELSE IF i > b /\ j >= i THEN Add(k[i][j], Mul(col[i], Trans(col[j])))
                     ELSE IF i > b /\ j > b THEN Trans(Add(k[j][i], Mul(col[j], Trans(col[i]))))
                     ELSE k[i][j]]]
       IN Fac(new, b + 1, n)
Factor(s) == Fac(s.k, 1, NB(s))
CanFactor(s) == Factor(s).ok
\* a lower pattern without any gap covers everything (shortcut for large blocks)
Trivial(s, F) == \A i \in 1..NB(s) : /\ F[i][i] = 2 \/ (i = 1 /\ F[i][i] = 1 /\ s.k[i][i] = 1)
                                     /\ \A j \in 1..(i - 1) : F[i][j] = 4
\* a claimed factor pattern F of s
LltOk(s, ok, F) == /\ ok = CanFactor(s)
                   /\ ok => /\ \A i \in 1..NB(s) : F[i][i] \in {1, 2} /\ \A j \in 1..NB(s) : j > i => F[i][j] = 0
                            /\ IF Trivial(s, F) THEN TRUE ELSE Fill(s) \subseteq Full([lens |-> s.lens, k |-> F])

(* ---- invariants of the rules themselves ---- *)
AlgebraSound == \A a \in Kinds, b \in Kinds : \A r \in 1..3, c \in 1..3, m \in 1..3 :
   /\ {<<p[2], p[1]>> : p \in Pat(a, r, c)} = Pat(Trans(a), c, r)
   /\ Pat(a, r, c) \cup Pat(b, r, c) \subseteq Pat(Add(a, b), r, c)
   /\ {p \in (1..r) \X (1..c) : \E l \in 1..m : <<p[1], l>> \in Pat(a, r, m) /\ <<l, p[2]>> \in Pat(b, m, c)} \subseteq Pat(Mul(a, b), r, c)

\* ... and no smaller kind would do
Produced(a, b, n) == {p \in (1..n) \X (1..n) : \E l \in 1..n : In(a, p[1], l) /\ In(b, l, p[2])}
AlgebraLeast == \A a \in Kinds, b \in Kinds, k \in Kinds :
   /\ Pat(a, 3, 3) \cup Pat(b, 3, 3) \subseteq Pat(k, 3, 3) => Pat(Add(a, b), 3, 3) \subseteq Pat(k, 3, 3)
   /\ Produced(a, b, 3) \subseteq Pat(k, 3, 3) => Pat(Mul(a, b), 3, 3) \subseteq Pat(k, 3, 3)

(* ---- objects: slots hold views (heap cell, offset, size); copies are deep ---- *)
View(v) == LET h == heap[v.id] IN [lens |-> [i \in 1..v.n |-> h.lens[v.off + i]], k |-> [i \in 1..v.n |-> [j \in 1..v.n |-> h.k[v.off + i][v.off + j]]]]
Has(s) == slot[s].n >= 0
S(s) == View(slot[s])
NoSlot == [id |-> 0, off |-> 0, n |-> -1, done |-> FALSE]
Patch(h, v, F) == [h EXCEPT ![v.id].k = [i \in 1..Len(@) |-> [j \in 1..Len(@) |-> IF i > v.off /\ i <= v.off + v.n /\ j > v.off /\ j <= v.off + v.n THEN F[i - v.off][j - v.off] ELSE @[i][j]]]]
Ret(op, r) == last' = <<op, r>>
Same == UNCHANGED <<heap, slot>>
Fresh(s, st, done) == heap' = Append(heap, st) /\ slot' = [slot EXCEPT ![s] = [id |-> Len(heap) + 1, off |-> 0, n |-> NB(st), done |-> done]]
Alg(op) == Same /\ Ret(op, <<[i \in 1..5 |-> Trans(i - 1)], [i \in 1..5 |-> [j \in 1..5 |-> Add(i - 1, j - 1)]], [i \in 1..5 |-> [j \in 1..5 |-> Mul(i - 1, j - 1)]]>>)
\* the structure of the KKT matrix of a problem: constraints are coupled through the primal variables only
Kkt(p, d) == LET np == Len(p) n == Len(p) + Len(d) IN
   [lens |-> p \o d, k |-> [i \in 1..n |-> [j \in 1..n |-> IF i <= np \/ j <= np THEN 4 ELSE IF i = j THEN 1 ELSE 0]]]
\* Step(op, r): r is the recorded (or proposed) result
BStep(op, r) ==
  LET o == op[1] IN
  CASE o = "alg" -> Alg(op)   \* exactly the least kinds (AlgebraSound, AlgebraLeast)
    [] o = "bnew" -> Fresh(op[2], [lens |-> op[3], k |-> op[4]], FALSE) /\ Ret(op, <<"ok">>)
    [] o = "bdense" -> Fresh(op[2], [lens |-> op[3], k |-> [i \in 1..Len(op[3]) |-> [j \in 1..Len(op[3]) |-> 4]]], FALSE) /\ Ret(op, <<"ok">>)
    [] o = "bkkt" -> Fresh(op[2], Kkt(op[3], op[4]), FALSE) /\ Ret(op, <<"ok">>)
    [] o = "bset" -> heap' = [heap EXCEPT ![slot[op[2]].id].k[slot[op[2]].off + op[3]][slot[op[2]].off + op[4]] = op[5]] /\ UNCHANGED slot /\ Ret(op, <<"ok">>)
    [] o = "bcopy" -> Fresh(op[2], S(op[3]), slot[op[3]].done) /\ Ret(op, <<"ok">>)
    [] o = "balias" -> slot' = [slot EXCEPT ![op[2]] = slot[op[3]]] /\ UNCHANGED heap /\ Ret(op, <<"ok">>)
    [] o = "bsub" -> slot' = [slot EXCEPT ![op[2]] = [id |-> slot[op[3]].id, off |-> slot[op[3]].off + op[4], n |-> op[5], done |-> slot[op[3]].done]] /\ UNCHANGED heap /\ Ret(op, <<"ok">>)
    [] o = "btrans" -> Fresh(op[2], Transposed(S(op[3])), slot[op[3]].done) /\ Ret(op, <<"ok">>)
    [] o = "bperm" -> Fresh(op[2], Permuted(S(op[3]), op[4]), slot[op[3]].done) /\ Ret(op, <<"ok">>)
    [] o = "bget" -> Same /\ Ret(op, <<S(op[2]).lens, S(op[2]).k, slot[op[2]].done, N(S(op[2]))>>)
    [] o = "bsym" -> Same /\ Ret(op, <<Symmetric(S(op[2]))>>)
    [] o = "bnnz" -> Same /\ Ret(op, <<Nnz(S(op[2]))>>)
    [] o = "bllt" -> /\ LltOk(S(op[2]), r[1], r[2]) /\ Ret(op, r)
                     \* a failed analysis never turns the flag on (it may keep the flag of an earlier, successful one)
                     /\ (IF r[1] THEN r[3] ELSE r[3] => slot[op[2]].done)
                     /\ heap' = Patch(heap, slot[op[2]], r[2]) /\ slot' = [slot EXCEPT ![op[2]].done = r[3]]
    \* r: <<success, permutation, nnz of the returned pattern, <<ok, nnz>> for every permutation in lexicographic order>>
    [] o = "bbest" -> LET s == S(op[2]) fac(p) == Factor(Permuted(s, p)) IN
         /\ Same /\ Ret(op, r) /\ Len(r[4]) = Cardinality(AllPerms(NB(s)))
         /\ \A i \in 1..Len(r[4]) : r[4][i][2] = CanFactor(Permuted(s, r[4][i][1]))
         /\ r[1] = (\E i \in 1..Len(r[4]) : r[4][i][2])
         /\ r[1] => \E i \in 1..Len(r[4]) : r[4][i][1] = r[2] /\ r[4][i][2] /\ \A j \in 1..Len(r[4]) : r[4][j][2] => r[4][i][3] <= r[4][j][3]
    [] OTHER -> FALSE
BInit == heap = <<>> /\ slot = [s \in Slots |-> NoSlot] /\ last = <<>>
BClear == heap' = <<>> /\ slot' = [s \in Slots |-> NoSlot] /\ last' = <<>>

(* ---- generation ---- *)
\* a symmetric structure; rectangular off-diagonal blocks are zero or dense
Pick(Z, d) == IF Rand THEN {RandomElement(Z)} ELSE Z
DiagKinds == IF Rand THEN <<0, 1, 1, 1, 4, 4, 4, 4, 2, 3>> ELSE <<0, 1, 2, 3, 4>>
OffKinds == <<0, 1, 2, 3, 4>>
SymOf(lens, dk, ok) == LET n == Len(lens) IN [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN dk[i] ELSE IF j < i THEN (IF lens[i] = lens[j] THEN ok[i][j] ELSE IF ok[i][j] >= 3 THEN 4 ELSE 0) ELSE Trans(IF lens[i] = lens[j] THEN ok[j][i] ELSE IF ok[j][i] >= 3 THEN 4 ELSE 0)]]
Seqs(n, Z) == [1..n -> Z]
RSeq(n, Z, d) == IF Rand THEN {[i \in 1..n |-> RandomElement(Z)]} ELSE Seqs(n, Z)
NewB == \E s \in Pick(Slots, 0), n \in Pick(1..MaxBlocks, 0) : \E lens \in RSeq(n, Lens, 0), dk \in RSeq(n, 1..Len(DiagKinds), 0), ok \in RSeq(n, [1..n -> 1..5], 0) :
   IF Rand THEN LET okr == [i \in 1..n |-> [j \in 1..n |-> RandomElement(Kinds)]] IN
        \E kk \in {SymOf(lens, [i \in 1..n |-> DiagKinds[dk[i]]], okr)} : BStep(<<"bnew", s, lens, kk>>, 0)
   ELSE \E kk \in {SymOf(lens, [i \in 1..n |-> DiagKinds[dk[i]]], [i \in 1..n |-> [j \in 1..n |-> ok[i][j] - 1]])} : BStep(<<"bnew", s, lens, kk>>, 0)
DenseB == \E s \in Pick(Slots, 0), n \in Pick(1..MaxBlocks, 0) : \E lens \in RSeq(n, Lens, 0) : BStep(<<"bdense", s, lens>>, 0)
KktB == \E s \in Pick(Slots, 0), n \in Pick(1..2, 0) : \E m \in Pick(0..Max2(MaxBlocks - n, 0), 0) : \E p \in RSeq(n, Lens, 0), d \in RSeq(m, Lens, 1) : BStep(<<"bkkt", s, p, d>>, 0)
Live == {s \in Slots : Has(s)}
OneOf(d) == IF Rand THEN {RandomElement(Live)} ELSE Live
SetB == \E s \in OneOf(0), k \in Pick(Kinds, 0) : \E i \in Pick(1..Len(S(s).lens), 0), j \in Pick(1..Len(S(s).lens), 0) :
          IF (k \in {0, 4} \/ S(s).lens[i] = S(s).lens[j]) THEN BStep(<<"bset", s, i, j, k>>, 0) ELSE BStep(<<"bget", s>>, 0)
CopyB == \E d \in Pick(Slots, 0), s \in OneOf(0), w \in Pick({"bcopy", "balias", "btrans"}, 0) : BStep(<<w, d, s>>, 0)
SubB == \E d \in Pick(Slots, 0), s \in OneOf(0) : \E n \in Pick(1..NB(S(s)), 0) : \E i \in Pick(0..(NB(S(s)) - n), 0) : BStep(<<"bsub", d, s, i, n>>, 0)
PermB == \E d \in Pick(Slots, 0), s \in OneOf(0) : \E p \in Pick(AllPerms(NB(S(s))), 0) : BStep(<<"bperm", d, s, p>>, 0)
Query == \E s \in OneOf(0), w \in Pick({"bget", "bsym", "bnnz"}, 0) : BStep(<<w, s>>, 0)
\* as the rules above would factorise it
LltB == \E s \in OneOf(0) : IF Symmetric(S(s)) THEN \E f \in {Factor(S(s))} : BStep(<<"bllt", s>>, <<f.ok, f.k, f.ok>>) ELSE BStep(<<"bsym", s>>, 0)
\* (the generator needs no result)
BestB == \E s \in OneOf(0) : IF Symmetric(S(s)) THEN Same /\ Ret(<<"bbest", s>>, 0) ELSE BStep(<<"bnnz", s>>, 0)
AlgB == BStep(<<"alg">>, <<[i \in 1..5 |-> Trans(i - 1)], [i \in 1..5 |-> [j \in 1..5 |-> Add(i - 1, j - 1)]], [i \in 1..5 |-> [j \in 1..5 |-> Mul(i - 1, j - 1)]]>>)
BNext == IF Live = {} THEN NewB ELSE NewB \/ DenseB \/ KktB \/ SetB \/ CopyB \/ SubB \/ PermB \/ Query \/ LltB \/ BestB
\* every factorisable structure: the pattern covers the fill
CoverInv == \A s \in Slots : Has(s) /\ Symmetric(S(s)) => LET f == Factor(S(s)) IN LltOk(S(s), f.ok, f.k)
=============================================================================
