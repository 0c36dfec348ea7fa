----------------------------- MODULE MC_Threads -----------------------------
(* Two clients in two threads, for the same message object or for different  *)
(* ones.  By Threads, each does what it would do alone: the behaviours are   *)
(* those of one client after the other.  The replay runs both at the same    *)
(* time and lets them take turns by a schedule: numbers of steps (function   *)
(* entries and returns in the library, system calls) until the turn passes   *)
(* on; <<-q>> passes it on every q steps.                                    *)
EXTENDS Catalogue

AnyOf == AuthLine("AUTH XOAUTH2 LOGIN PLAIN", {"PLAIN", "LOGIN", "XOAUTH2"})
HostA(k) == CASE k = "plain" -> H3(AnyOf) [] k = "opp" -> H1(AnyOf) [] OTHER -> H2(AnyOf)
HostB(k) == CASE k = "plain" -> HostWith("h4", FALSE, <<NameLine, AnyOf>>, <<>>)
              [] k = "opp" -> HostWith("h4", FALSE, <<NameLine, StartTlsLine>>, <<NameLine, AnyOf>>)
              [] OTHER -> HostWith("h4", TRUE, <<>>, <<NameLine, AnyOf>>)
\* the same mechanism in both threads, or different ones
MethodOf(ka, kb, iface, share) == CASE share -> <<1, 2>> [] iface = "cpp" -> <<3, 2>> [] ka = kb /\ ka = "plain" -> <<2, 2>> [] ka = kb /\ ka = "opp" -> <<3, 3>> [] ka = kb -> <<1, 1>> [] OTHER -> <<2, 2>>

Reach == 3000
Every(s) == {<<k>> : k \in {x \in 1..Reach : x % s = 0}}
Rounds == {<<-q>> : q \in {1, 2, 3, 5, 7, 11, 20, 47, 101, 230}}
Grid(s) == {<<a, b>> : a, b \in {x \in 1..2400 : x % s = 0}}
Schedules(faults) ==
  IF faults > 0 THEN {<<-1>>, <<-7>>, <<-50>>, <<250>>, <<700>>}
  ELSE Rounds \cup Every(IF Thorough THEN 1 ELSE 6) \cup Grid(IF Thorough THEN 80 ELSE 300)

ThrPlan(ka, kb, iface, share, batch, faults) ==
  LET ma == "m1" mb == IF share THEN "m1" ELSE "m2" IN
  [id |-> "threads " \o ka \o "/" \o kb \o " " \o iface \o (IF share THEN " same message" ELSE "") \o (IF batch THEN " batch" ELSE "") \o (IF faults > 0 THEN " fault" ELSE ""),
   if |-> iface, faults |-> faults, fd0 |-> FALSE, short |-> 0,
   par |-> [split |-> IF batch THEN 7 ELSE 5, share |-> IF share THEN ma ELSE "", scheds |-> Schedules(faults)],
   hosts |-> <<HostA(ka), HostB(kb)>>,
   msgs |-> <<Att1("m1"), Html1("m2"), Plain1("m3")>>,
   ops |-> <<New("A", ka, HostA(ka).name, 2525), Set("A", "T", 3), Set("A", "cred", [Joe EXCEPT !.m = MethodOf(ka, kb, iface, share)[1]])>>
           \o (IF batch THEN <<Set("A", "batch", TRUE)>> ELSE <<>>) \o <<Send("A", ma)>> \o (IF batch THEN <<Send("A", "m3")>> ELSE <<>>) \o <<Del("A")>>
           \o <<New("B", kb, "h4", 587), Set("B", "T", 2), Set("B", "cred", Cred("ann@example.org", "s3cretAnn", MethodOf(ka, kb, iface, share)[2]))>> \o (IF batch THEN <<Set("B", "batch", TRUE)>> ELSE <<>>)
           \o <<Send("B", mb)>> \o (IF batch THEN <<Send("B", "m3")>> ELSE <<>>) \o <<Del("B")>>]
Pairs == {<<"plain", "plain">>, <<"opp", "opp">>, <<"forced", "forced">>, <<"opp", "forced">>, <<"plain", "opp">>}
ThrMenu(p, st, n, i) ==
  CASE st = "CONNECT" -> {Fail("refused", -2), Fail("nx", -6)}
    [] st = "GREET" -> {Gone("eof"), Silent}
    [] st = "TLS" -> {Cert("expired", FALSE), Fail("eof", 0)}
    [] st \in {"EHLO", "MAIL", "RCPT", "DATA", "EOD"} -> {Code(550)}
    [] st \in {"AUTH", "AUTHP"} -> {Code(535)}
    [] st = "BODY" -> {WErr("pipe"), Lost}
    [] OTHER -> {}
ThrInit == \/ \E p \in Pairs, share \in BOOLEAN : InitWith(ThrPlan(p[1], p[2], "c", share, FALSE, 0))
           \/ \E p \in {<<"plain", "plain">>, <<"opp", "forced">>} : InitWith(ThrPlan(p[1], p[2], "cpp", FALSE, FALSE, 0)) \/ InitWith(ThrPlan(p[1], p[2], "c", FALSE, TRUE, 0))
           \/ \E p \in Pairs : InitWith(ThrPlan(p[1], p[2], "c", FALSE, FALSE, 1))
Spec == ThrInit /\ [][Next]_vars
\* the connections of A come first
FirstOfB == LET P == SelectSeq([x \in 1..Len(ev) |-> x], LAMBDA x : ev[x].e = "op" /\ ev[x].i = plan.par.split + 1) IN P[1]
Base == Len(SelectSeq(SubSeq(ev, 1, FirstOfB), LAMBDA x : x.e = "conn"))
ExportThreads == ph = "done" => PrintT(ToJson([Behaviour EXCEPT !.sc = @ @@ [par |-> [base |-> Base] @@ plan.par]]))
=============================================================================
