------------------------------ MODULE PolyValue ------------------------------
(* polymorphic<T, A> as a value type (C17): slots holding values of several   *)
(* dynamic types, allocators of identity 1..3 with every combination of       *)
(* propagation traits, and operations that may throw.                         *)
EXTENDS VUtil
CONSTANTS Slots, Types, Allocs, Cfgs, Vals, MaxFuse
VARIABLES cfg, slot, last
pvars == <<cfg, slot, last>>
Order == SetToSeq(Slots)
\* cfg 0: std::allocator.  Otherwise bits of cfg - 1: 1 copy, 2 move, 4 swap propagation, 8 copy construction selects allocator 2
Bit(b) == cfg > 0 /\ (((cfg - 1) \div b) % 2) = 1
None == [st |-> "none", ty |-> 0, val |-> 0, al |-> 0]
Obj(t, v, a) == [st |-> "obj", ty |-> t, val |-> v, al |-> a]
Empty(a) == [st |-> "empty", ty |-> 0, val |-> 0, al |-> a]
A(a) == IF cfg = 0 THEN 0 ELSE a
Default == A(1)
WithAl(x, a) == [x EXCEPT !.al = a]
\* what an observer sees: dynamic type, value, allocator, tags of non-const and const access, alignment
See(x) == CASE x.st = "none" -> <<>> [] x.st = "empty" -> <<x.al>> [] OTHER -> <<x.ty, x.val, x.al, 10 * x.ty + 1, 10 * x.ty + 2, TRUE>>
ViewOf(z) == [i \in 1..Len(Order) |-> See(z[Order[i]])]
Live(z) == Cardinality({s \in Slots : z[s].st = "obj"})
Blocks(z) == [a \in 1..3 |-> Cardinality({s \in Slots : z[s].st = "obj" /\ z[s].al = a})]
Pos(s) == CHOOSE i \in 1..Len(Order) : Order[i] = s
\* r: <<threw, same object, live objects, blocks per allocator, misuse, view>>
Done(op, r, z, same) ==
  IF r[1] THEN /\ op[Len(op)] > 0                                             \* only an injected fault may throw
               /\ UNCHANGED <<cfg, slot>> /\ last' = <<op, <<TRUE, FALSE, Live(slot), Blocks(slot), 0, ViewOf(slot)>>>>
  ELSE slot' = z /\ UNCHANGED cfg /\ last' = <<op, <<FALSE, same, Live(z), Blocks(z), 0, ViewOf(z)>>>>
\* a move between unequal allocators moves the object; the source is valid but unspecified
Left(s, r) == LET v == r[6][Pos(s)] x == slot[s] IN IF Len(v) = 1 THEN Empty(x.al) ELSE IF Len(v) = 6 THEN [x EXCEPT !.val = v[2]] ELSE x
Put(z, d, x) == [z EXCEPT ![d] = x]
\* moving x (held in s) into d under allocator a, stealing when allowed
MoveTo(op, r, d, s, a, steal) == LET x == slot[s] IN
   IF x.st = "empty" \/ steal THEN Done(op, r, Put(Put(slot, s, Empty(x.al)), d, WithAl(x, a)), x.st = "obj")
   ELSE Done(op, r, Put(Put(slot, s, IF r[1] THEN x ELSE Left(s, r)), d, WithAl(x, a)), FALSE)
PStep(op, r) ==
  LET o == op[1] d == op[2] IN
  CASE o = "mk" -> Done(op, r, Put(slot, d, IF op[3] = 5 THEN Obj(0, 7, A(op[6])) ELSE Obj(op[4], op[5], A(op[6]))), FALSE)
    [] o = "cc" -> LET x == slot[op[3]] IN Done(op, r, Put(slot, d, WithAl(x, IF Bit(8) THEN 2 ELSE x.al)), FALSE)
    [] o = "cca" -> Done(op, r, Put(slot, d, WithAl(slot[op[3]], A(op[4]))), FALSE)
    [] o = "mc" -> MoveTo(op, r, d, op[3], slot[op[3]].al, TRUE)
    [] o = "mca" -> MoveTo(op, r, d, op[3], A(op[4]), slot[op[3]].al = A(op[4]))
    [] o = "ca" -> IF d = op[3] THEN Done(op, r, slot, FALSE)
                   ELSE Done(op, r, Put(slot, d, WithAl(slot[op[3]], IF Bit(1) THEN slot[op[3]].al ELSE slot[d].al)), FALSE)
    [] o = "ma" -> IF d = op[3] THEN Done(op, r, slot, FALSE)
                   ELSE LET x == slot[op[3]] IN MoveTo(op, r, d, op[3], IF Bit(2) THEN x.al ELSE slot[d].al, x.al = slot[d].al \/ Bit(2))
    \* assignment from an object: through a temporary with a default allocator
    [] o = "as" -> Done(op, r, Put(slot, d, Obj(op[3], op[4], IF Bit(2) THEN Default ELSE slot[d].al)), FALSE)
    [] o = "asown" -> Done(op, r, Put(slot, d, [slot[d] EXCEPT !.al = IF Bit(2) THEN Default ELSE slot[d].al]), FALSE)
    [] o = "sw" -> LET x == slot[d] y == slot[op[3]] IN
                   Done(op, r, IF Bit(4) THEN Put(Put(slot, d, y), op[3], x) ELSE Put(Put(slot, d, WithAl(y, x.al)), op[3], WithAl(x, y.al)), FALSE)
    [] o = "set" -> Done(op, r, Put(slot, d, [slot[d] EXCEPT !.val = op[3]]), FALSE)
    [] o = "del" -> Done(op, r, Put(slot, d, None), FALSE)
    [] OTHER -> FALSE
PInit == cfg \in Cfgs /\ slot = [s \in Slots |-> None] /\ last = <<>>
PReset(c) == cfg' = c /\ slot' = [s \in Slots |-> None] /\ last' = <<>>

(* ---- generation: every choice, with a proposed result ---- *)
\* the generator lets faults pass (the recorded run decides) except where it explores the design
Full == {s \in Slots : slot[s].st # "none"}
Held == {s \in Slots : slot[s].st = "obj"}
Guess(threw) == <<threw, FALSE, 0, <<>>, 0, [i \in 1..Len(Order) |-> <<0>>]>>
Fuses == 0..MaxFuse
Try(op) == \E k \in Fuses, th \in BOOLEAN : (th => k > 0) /\ PStep(Append(op, k), Guess(th))
PNext == \/ \E d \in Slots, h \in 0..6, t \in Types, v \in Vals, a \in Allocs : (h = 6 => t = 3) /\ (h \in {3, 4} \/ a = 1) /\ Try(<<"mk", d, h, t, v, a>>)
         \/ \E d \in Slots, s \in Full : Try(<<"cc", d, s>>) \/ (d \in Full /\ Try(<<"ca", d, s>>)) \/ (d # s /\ Try(<<"mc", d, s>>)) \/ (d \in Full /\ Try(<<"ma", d, s>>))
         \/ \E d \in Slots, s \in Full, a \in Allocs : Try(<<"cca", d, s, a>>) \/ (d # s /\ Try(<<"mca", d, s, a>>))
         \/ \E d \in Full, t \in Types, v \in Vals : Try(<<"as", d, t, v>>)
         \/ \E d \in Held : Try(<<"asown", d>>) \/ \E v \in Vals : PStep(<<"set", d, v, 0>>, Guess(FALSE))
         \/ \E d \in Full, s \in Full : (Bit(4) \/ slot[d].al = slot[s].al) /\ PStep(<<"sw", d, s, 0>>, Guess(FALSE))
         \/ \E d \in Full : PStep(<<"del", d, 0>>, Guess(FALSE))
(* ---- design: every allocation is paired with its allocator, nothing is shared ---- *)
TypeOk == \A s \in Slots : slot[s].st = "obj" => slot[s].ty \in Types /\ (slot[s].al = 0 <=> cfg = 0)
Consistent == last = <<>> \/ (last[2][3] = Live(slot) /\ (cfg = 0 \/ Sum(last[2][4]) = Live(slot)))
StrongGuarantee == [][last'[2][1] => slot' = slot]_pvars
=============================================================================
