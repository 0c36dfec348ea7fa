----------------------------- MODULE MC_Errors -----------------------------
(* Every code from the interesting range, asked from every kind of client in *)
(* both interfaces with buffers of every size that matters; and the objects  *)
(* that carry a message, copied, moved and assigned in every way.            *)
EXTENDS ObjectLifecycle, ErrorMessages, Json, IOUtils
Tier == IF "VERIF_TIER" \in DOMAIN IOEnv THEN IOEnv.VERIF_TIER ELSE "quick"
Thorough == Tier = "thorough"

Far == <<-2147483647, 2147483647, -1000000, 1000, 1334, 65535, 100000, -256, -129, 887>>
Block == 16
Lo == IF Thorough THEN -1040 ELSE -128
Hi == IF Thorough THEN 2047 ELSE 639
Blocks == 0..((Hi - Lo) \div Block)
CodesOf(b) == IF b < 0 THEN Far ELSE [i \in 1..Block |-> Lo + b * Block + i - 1]
SizesOf(code) == LET n == Len(MessageOf(code)) IN [i \in 1..(n + 6) |-> i - 2] \o <<255, 1024>>
NewClient(kind, if) == [op |-> "new", c |-> "A", kind |-> kind, if |-> if, host |-> "h3", port |-> 25]
Ask(code) == [op |-> "err", c |-> "A", code |-> code, sizes |-> SizesOf(code)]
Answer(if, code) ==
  [e |-> "err", c |-> "A", code |-> code,
   v |-> [msg |-> MessageOf(code), r |-> IF if = "cpp" THEN <<Whole(code)>> ELSE [i \in 1..Len(SizesOf(code)) |-> Into(code, SizesOf(code)[i])]]]
RECURSIVE Answers(_, _, _)
Answers(if, cs, i) == IF i > Len(cs) THEN <<>>
                      ELSE <<[e |-> "op", i |-> i + 1, op |-> "err", c |-> "A"], Answer(if, cs[i])>> \o Answers(if, cs, i + 1)
Table(kind, if, b) ==
  /\ plan = [id |-> "codes " \o kind \o " " \o if, menu |-> "none", n |-> Block + 1, slots |-> 0]
  /\ slots = [x \in {} |-> 0]
  /\ ops = <<NewClient(kind, if)>> \o [i \in 1..Len(CodesOf(b)) |-> Ask(CodesOf(b)[i])]
  /\ ev = <<[e |-> "op", i |-> 1, op |-> "new", c |-> "A"]>> \o Answers(if, CodesOf(b), 1)
  /\ pc = Len(ops) + 1
----------------------------------------------------------------------------
NewErr(s, code) == [op |-> "vnew", ty |-> "err", if |-> "c", s |-> s, code |-> code, good |-> TRUE, val |-> [code |-> code, msg |-> MessageOf(code)]]
Objects ==
  \E a \in {-87, 0, 334}, b \in {-1, 535, 7} :
    /\ plan = [id |-> "error objects", menu |-> "free", pop |-> <<NewErr("a", a), NewErr("b", b)>>, n |-> IF Thorough THEN 5 ELSE 4, slots |-> 3]
    /\ slots = [x \in {} |-> 0] /\ pc = 1 /\ ev = <<>> /\ ops = <<>>
Act == /\ plan.menu = "free" /\ pc <= plan.n
       /\ IF pc <= Len(plan.pop) THEN Perform(plan.pop[pc]) ELSE \E o \in {x \in Structural : Sensible(x)} : Perform(o)
Finish == /\ pc = (IF plan.menu = "free" THEN plan.n + 1 ELSE Len(ops) + 1) /\ ev[Len(ev)] # [e |-> "end"]
          /\ ev' = ev \o <<[e |-> "op", i |-> pc, op |-> "end", c |-> ""], [e |-> "end"]>>
          /\ pc' = pc + 1
          /\ UNCHANGED <<plan, slots, ops>>
Init == Objects \/ \E kind \in {"plain", "opp", "forced"}, if \in {"c", "cpp"}, b \in {-1} \cup Blocks : Table(kind, if, b)
Spec == Init /\ [][Act \/ Finish]_vars
Done == Len(ev) > 0 /\ ev[Len(ev)] = [e |-> "end"]
Export == Done => PrintT(ToJson([plan |-> plan.id, sc |-> [hosts |-> <<>>, msgs |-> <<>>, ops |-> ops, script |-> <<>>, fd0 |-> FALSE, short |-> 0, wire |-> FALSE], exp |-> ev]))
ValuesHold == Done /\ plan.menu = "free" => Independent(ev, ops)
=============================================================================
