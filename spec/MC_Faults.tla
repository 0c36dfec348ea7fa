----------------------------- MODULE MC_Faults -----------------------------
(* Every single failure of the server at every step, for every kind of       *)
(* client, with and without credentials and batch mode; a second message     *)
(* follows on the same client, to a server that is healthy again.            *)
EXTENDS Catalogue

Kinds == {<<"plain", "h3">>, <<"opp", "h1">>, <<"opp", "h3">>, <<"forced", "h2">>}
HostFor(h, a) == IF h = "h1" THEN H1(a) ELSE IF h = "h2" THEN H2(a) ELSE H3(a)
Creds == {"none", "plain", "login"}
AuthFor(c) == IF c = "login" THEN LoginOnly ELSE PlainLogin
FaultPlan(kh, cred, batch, self, msg) ==
  [id |-> "faults " \o kh[1] \o "/" \o kh[2] \o " " \o cred \o " " \o (IF batch THEN "batch " ELSE "") \o (IF self THEN "self " ELSE "") \o msg,
   if |-> "c", faults |-> 1, fd0 |-> FALSE, short |-> 0,
   hosts |-> <<HostFor(kh[2], AuthFor(cred))>>,
   msgs |-> IF msg = "plain" THEN <<Plain1("m1"), Html1("m2")>> ELSE IF msg = "html" THEN <<Html1("m1"), Plain1("m2")>>
            ELSE <<[Att1("m1") EXCEPT !.body = [n |-> 60, s |-> "a longer body\r\n"], !.long = TRUE], Plain1("m2")>>,
   ops |-> <<New("A", kh[1], kh[2], 2525), Set("A", "T", 2)>>
           \o (IF cred = "none" THEN <<>> ELSE <<Set("A", "cred", Joe)>>)
           \o (IF batch THEN <<Set("A", "batch", TRUE)>> ELSE <<>>)
           \o (IF self THEN <<Set("A", "self", TRUE)>> ELSE <<>>)
           \o <<Send("A", "m1"), Send("A", "m2")>>]
FaultPlanSet ==
  {FaultPlan(kh, cred, batch, FALSE, "plain") : kh \in Kinds, cred \in Creds, batch \in BOOLEAN}
  \cup {FaultPlan(kh, "plain", FALSE, FALSE, m) : kh \in Kinds, m \in {"html", "att"}}
  \cup {FaultPlan(kh, "plain", batch, TRUE, "plain") : kh \in {<<"opp", "h1">>, <<"forced", "h2">>}, batch \in BOOLEAN}
FaultMenu(p, st, n, i) == IF n = 1 THEN FaultsAt(st, OkCode(st)) ELSE {}
Spec == (\E p \in FaultPlanSet : InitWith(p)) /\ [][Next]_vars

\* A timeout of zero: an answer that is there is used, nothing is waited for
ZeroPlanSet == {[FaultPlan(kh, cred, batch, FALSE, "plain") EXCEPT !.ops[2].v = 0, !.id = @ \o " T=0"] @@ [env |-> [fast |-> TRUE]] :
                  kh \in Kinds, cred \in {"none", "login"}, batch \in BOOLEAN}
SpecZero == (\E p \in ZeroPlanSet : InitWith(p)) /\ [][Next]_vars
\* A program with many descriptors: those of the connections are above FD_SETSIZE
HighPlanSet == {[FaultPlan(kh, cred, batch, FALSE, "plain") EXCEPT !.id = @ \o " fd>" \o ToString(f)] @@ [env |-> [fdmin |-> f]] :
                  kh \in Kinds, cred \in {"none", "plain"}, batch \in BOOLEAN, f \in (IF Thorough THEN {1023, 1024, 1025, 2048, 4000, 20000} ELSE {1024, 4000})}
HighMenu(p, st, n, i) ==
  IF n > 1 THEN {}
  ELSE CASE st = "CONNECT" -> {CodeR(0, [k |-> "reply", dms |-> d], 2) : d \in {10, 1500}} \cup {Fail("refused", -2), Fail("delayed", -10), Fail("timeout", -3)}
         [] st = "TLS" -> {Fail("eof", 0), Cert("expired", FALSE)}
         [] st \in {"BODY", "H:To"} -> {WErr("die"), Stall}
         [] st \in {"GREET", "EHLO", "STARTTLS", "MAIL", "RCPT", "EOD"} -> {Silent, Gone("eof"), Code(550)}
         [] OTHER -> {}
\* Long timeouts: the server is silent, or answers late, but in time
LongPlanSet == {[FaultPlan(kh, IF kh[1] = "forced" THEN "plain" ELSE "none", FALSE, FALSE, "plain") EXCEPT !.ops[2].v = t, !.id = @ \o " T=" \o ToString(t)] :
                  kh \in Kinds, t \in {9, 11, 59, 61, 299, 1001, 2148, 4295, 66000} \cup (IF Thorough THEN {120, 256, 257, 600, 32768, 86400, 300000} ELSE {})}
Timeout(p) == p.ops[2].v
LongMenu(p, st, n, i) ==
  IF n > 1 THEN {}
  ELSE CASE st = "CONNECT" -> {Fail("timeout", -3)}
         [] st = "TLS" -> {Fail("silent", 0)}
         [] st \in {"H:To", "BODY"} -> {Stall}
         [] st \in {"GREET", "EHLO", "STARTTLS", "EHLO2", "AUTH", "MAIL", "RCPT", "DATA", "EOD"} ->
              {Silent} \cup {CodeR(OkCode(st), [k |-> "reply", c |-> OkCode(st), dms |-> 1000 * t], t) : t \in {Timeout(p) - 2, Timeout(p) \div 2}}
         [] OTHER -> {}
SpecLong == (\E p \in LongPlanSet : InitWith(p)) /\ [][Next]_vars
SpecHigh == (\E p \in HighPlanSet : InitWith(p)) /\ [][Next]_vars
=============================================================================
