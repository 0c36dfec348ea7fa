---------------------------- MODULE MC_Envelope ----------------------------
(* Every shape of the recipient lists, with the server refusing the sender   *)
(* notation (501) or any of the recipients, singly or several at once, in    *)
(* the first or in a later message of the client.                            *)
EXTENDS Catalogue

P == <<Bob, Carl, Dora, Egon, Fran, Addr("UPPER.Case+tag@Example.ORG", "Mixed CASE"), Addr("o_a-b@example.co.uk", "O. B-C"),
       Addr("a1@ex.org", "x"), Addr("bob@example.net", "Bob again"), Addr("very.long.local.part.of.an.address.0123456789@a-very-long-domain-name.example.org",
            "A very long display name that goes on and on and on and on and on and on and on and on")>>
Pick(s, i, n) == [k \in 1..n |-> s[((i + k - 2) % Len(s)) + 1]]
Shape(t, c, b, from) == [to |-> Pick(P, 1, t), cc |-> Pick(P, 1 + t, c), bcc |-> Pick(P, 1 + t + c, b), from |-> from]
\* the same address several times, in the same list or in several
Repeats == {[to |-> <<Bob, Bob>>, cc |-> <<Bob>>, bcc |-> <<>>, from |-> Anna], [to |-> <<Bob>>, cc |-> <<>>, bcc |-> <<Bob>>, from |-> Anna],
            [to |-> <<Anna>>, cc |-> <<>>, bcc |-> <<Anna>>, from |-> Anna], [to |-> <<Bob>>, cc |-> <<Bob, Carl>>, bcc |-> <<Carl, Carl>>, from |-> Carl],
            [to |-> <<Anna>>, cc |-> <<Carl>>, bcc |-> <<>>, from |-> Anna]}
Senders == {Anna, Carl}
Shapes(k) == {Shape(t, c, b, f) : t \in 1..3, c \in 0..2, b \in 0..k, f \in Senders} \cup Repeats
             \cup {Shape(10, 0, 0, Anna), Shape(1, 9, 0, Carl), Shape(1, 0, 9, Anna), Shape(4, 3, 3, Anna)}
\* empty lists are given, or there is no list
EnvMsg(id, s, kind) == [Message(id, kind, s.from, s.to, s.cc, s.bcc, "Subject of " \o id, "Body text of message " \o id, <<>>) EXCEPT !.kind = kind]
                       @@ [given |-> (Len(s.to) + Len(s.cc) + Len(s.bcc)) % 2 = 0]
\* the message may be the first or the second of the client, in batch mode or not
EnvPlan(s, kind, batch, second, faults) ==
  [id |-> "envelope " \o (IF batch THEN "batch " ELSE "") \o (IF second THEN "second " ELSE ""), if |-> "c", faults |-> faults, fd0 |-> FALSE, short |-> 0,
   hosts |-> <<HostWith("h3", FALSE, <<>>, <<>>)>>,
   msgs |-> <<Att1("m0"), EnvMsg("m1", s, kind), Plain1("m2")>>,
   ops |-> <<New("A", "plain", "h3", 25), Set("A", "T", 1), Set("A", "batch", batch)>>
           \o (IF second THEN <<Send("A", "m0")>> ELSE <<>>) \o <<Send("A", "m1"), Send("A", "m2")>>]
EnvMenu(p, st, n, i) ==
  LET alone == Len(p.ops) = 5 IN
  CASE st = "MAIL" /\ n = 1 /\ alone -> {Code(501), Code(553)}
    [] st = "RCPT" /\ (n = 1 \/ ~alone) -> {Code(550), Code(452)} \cup (IF p.faults = 1 THEN {Code(354), Code(220)} ELSE {})
    [] st = "DATA" /\ n = 1 /\ alone /\ p.faults = 1 -> {Code(554), Code(250)}
    [] OTHER -> {}
Small(s) == Len(s.to) + Len(s.cc) + Len(s.bcc) <= 4
InitAlone == \E s \in Shapes(2), kind \in {"plain", "html"} : InitWith(EnvPlan(s, kind, FALSE, FALSE, 1))
InitSeveral == \E s \in {x \in Shapes(1) : Small(x) /\ x.from = Anna}, batch \in BOOLEAN : InitWith(EnvPlan(s, "plain", batch, FALSE, IF Thorough THEN 3 ELSE 2))
InitNotations == \E s \in {Shape(1, 0, 0, f) : f \in Senders \cup {Fran, Bob}} : InitWith(EnvPlan(s, "plain", FALSE, FALSE, 4))
InitSecond == \E s \in {x \in Shapes(2) : Small(x) \/ x.from = Carl}, batch \in BOOLEAN : InitWith(EnvPlan(s, "plain", batch, TRUE, IF Thorough THEN 2 ELSE 1))
\* long lists
Nth(i) == Addr("user" \o ToString(i) \o "@list.example.org", IF i % 3 = 0 THEN "" ELSE "User number " \o ToString(i))
Ns(from, n) == [i \in 1..n |-> Nth(from + i)]
Many(n) == {[to |-> Ns(0, n), cc |-> <<>>, bcc |-> <<>>, from |-> Anna], [to |-> Ns(0, 1), cc |-> Ns(1, n), bcc |-> <<>>, from |-> Anna],
            [to |-> Ns(0, 1), cc |-> <<>>, bcc |-> Ns(1, n), from |-> Anna], [to |-> Ns(0, n), cc |-> Ns(n, n), bcc |-> Ns(2 * n, n), from |-> Carl]}
InitMany == \/ \E n \in {11, 15, 16, 17, 20, 25, 31, 32, 33, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257} : \E s \in Many(n) : InitWith(EnvPlan(s, "plain", FALSE, FALSE, 0))
            \/ \E n \in {20} : \E s \in Many(n) : InitWith(EnvPlan(s, "html", TRUE, FALSE, 1))
Spec == (InitMany \/ InitAlone \/ InitSeveral \/ InitNotations \/ InitSecond) /\ [][Next]_vars
=============================================================================
