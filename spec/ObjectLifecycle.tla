-------------------------- MODULE ObjectLifecycle --------------------------
(* Messages, addresses, attachments and credentials as values: what every    *)
(* object reports after any sequence of constructions, copies, moves,        *)
(* assignments, setter calls, conversions and destructions, valid or         *)
(* refused.  Objects live in named slots.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES plan, slots, pc, ev, ops
vars == <<plan, slots, pc, ev, ops>>

Names == <<"a", "b", "c">>
Live == DOMAIN slots

\* ---- values ----
\* An address as text
AddrText(a, d) == IF d = "" THEN a ELSE d \o " <" \o a \o ">"
AddrValue(a, d) == [a |-> a, d |-> d, s |-> AddrText(a, d)]
CredValue(u, p, m) == [u |-> u, p |-> p, m |-> IF m < 0 THEN 0 ELSE m]
AttValue(f, n, c, m) == [f |-> f, n |-> n, c |-> c, m |-> m]
Pair(x) == [a |-> x.a, d |-> x.d]
Each(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
MsgValue(m) ==
  [mime |-> IF m.kind = "html" THEN "text/html" ELSE "text/plain", from |-> Pair(m.from), subj |-> m.subj, body |-> m.body,
   to |-> Each(Pair, m.to), cc |-> Each(Pair, m.cc), bcc |-> Each(Pair, m.bcc),
   att |-> Each(LAMBDA x : AttValue("$" \o x.file, x.name, x.cid, x.mime), m.att)]
\* A constructor call is a record [op, s, ty, if, good, val] and its arguments
Object(o) == [ty |-> o.ty, if |-> o.if, v |-> o.val, moved |-> FALSE]

\* ---- what is observed: every object that was not moved from, in the order of the names ----
RECURSIVE Dump(_, _, _)
Dump(S, i, k) ==
  IF k > Len(Names) THEN <<>>
  ELSE LET n == Names[k] IN
       (IF n \in DOMAIN S /\ ~S[n].moved
        THEN <<[e |-> "val", i |-> i, s |-> n, ty |-> S[n].ty, if |-> S[n].if, v |-> S[n].v]>> ELSE <<>>) \o Dump(S, i, k + 1)
EvOp(o) == <<[e |-> "op", i |-> pc, op |-> o.op, c |-> o.s]>>
Put(n, x) == (n :> x) @@ slots
Moved(x) == [x EXCEPT !.moved = TRUE]

\* The objects after an operation that succeeds
After(o) ==
  CASE o.op = "vnew"    -> Put(o.s, Object(o))
    [] o.op = "vdel"    -> [n \in DOMAIN slots \ {o.s} |-> slots[n]]
    [] o.op = "vcopy"   -> Put(o.s, slots[o.from])
    [] o.op = "vmove"   -> [Put(o.s, slots[o.from]) EXCEPT ![o.from] = Moved(@)]
    [] o.op = "vassign" -> [slots EXCEPT ![o.s] = [slots[o.from] EXCEPT !.if = slots[o.s].if]]
    [] o.op = "vmassign" -> IF o.s = o.from THEN slots ELSE [slots EXCEPT ![o.s] = slots[o.from], ![o.from] = Moved(@)]
    [] o.op = "vset"    -> [slots EXCEPT ![o.s].v = CASE o.f = "u" -> [@ EXCEPT !.u = IF o.v = "$own" THEN @ ELSE o.v]
                                                      [] o.f = "p" -> [@ EXCEPT !.p = IF o.v = "$own" THEN @ ELSE o.v]
                                                      [] o.f = "m" -> [@ EXCEPT !.m = o.n]
                                                      [] o.f = "c" -> [@ EXCEPT !.c = IF o.v = "$own" THEN @ ELSE o.v]]
    [] o.op = "vconv"   -> Put(o.s, [slots[o.from] EXCEPT !.if = "c"])
    [] o.op = "veq"     -> slots
Same(x, y) == x.v = y.v

Perform(o) ==
  /\ ops' = Append(ops, o)
  /\ pc' = pc + 1
  /\ UNCHANGED plan
  /\ IF ~o.good
     THEN /\ slots' = slots
          /\ ev' = ev \o EvOp(o) \o <<[e |-> "exc", i |-> pc, t |-> "invalid_argument"]>> \o Dump(slots, pc, 1)
     ELSE /\ slots' = After(o)
          /\ ev' = ev \o EvOp(o) \o (IF o.op = "veq" THEN <<[e |-> "eq", s |-> o.s, from |-> o.from, r |-> Same(slots[o.s], slots[o.from])]>> ELSE Dump(slots', pc, 1))

\* ---- the operations that make sense in a state ----
Op2(op, s, from) == [op |-> op, s |-> s, from |-> from, good |-> TRUE]
SetStr(s, f, v, good) == [op |-> "vset", s |-> s, f |-> f, v |-> v, n |-> 0, good |-> good]
SetNum(s, n) == [op |-> "vset", s |-> s, f |-> "m", v |-> "", n |-> n, good |-> TRUE]
Usable == {n \in Live : ~slots[n].moved}
Alike(x, y) == slots[x].ty = slots[y].ty /\ slots[x].if = slots[y].if
Structural ==
  {Op2("vcopy", y, x) : x \in Usable, y \in {Names[i] : i \in 1..plan.slots}} \cup {Op2("vmove", y, x) : x \in Usable, y \in {Names[i] : i \in 1..plan.slots}}
  \cup {Op2("vassign", y, x) : x \in Usable, y \in Live} \cup {Op2("vmassign", y, x) : x \in Usable, y \in Live}
  \cup {[op |-> "vdel", s |-> x, good |-> TRUE] : x \in Live}
Sensible(o) ==
  CASE o.op \in {"vcopy", "vmove"} -> o.s # o.from
    [] o.op \in {"vassign", "vmassign"} -> Alike(o.s, o.from) /\ (o.s = o.from => ~slots[o.s].moved)
    [] OTHER -> TRUE

----------------------------------------------------------------------------
\* The properties, on the histories of the specification: consecutive observations
DumpAt(h, k) == {h[i] : i \in {j \in 1..Len(h) : h[j].e = "val" /\ h[j].i = k}}
ValuesAt(h, k) == {[s |-> x.s, v |-> x.v] : x \in DumpAt(h, k)}
Refused(h, k) == \E i \in 1..Len(h) : h[i].e = "exc" /\ h[i].i = k
Independent(h, os) ==
  \A k \in 2..Len(os) :
    os[k].op # "veq" /\ os[k - 1].op # "veq" =>
    LET touched == {os[k].s} \cup (IF os[k].op \in {"vmove", "vmassign"} THEN {os[k].from} ELSE {}) IN
    /\ \A x \in ValuesAt(h, k) : x.s \notin touched => x \in ValuesAt(h, k - 1)
    /\ \A x \in ValuesAt(h, k - 1) : x.s \notin touched => x \in ValuesAt(h, k)
    /\ Refused(h, k) => ValuesAt(h, k) = ValuesAt(h, k - 1)
    /\ os[k].op \in {"vassign", "vmassign"} /\ os[k].s = os[k].from => ValuesAt(h, k) = ValuesAt(h, k - 1)
=============================================================================
